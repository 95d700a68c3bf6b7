------------------------------ MODULE Lattice ------------------------------
(* Lattices given by cell parameters or by base vectors, the vectors and     *)
(* tensors derived from them, lattice points and reflections within a range, *)
(* and the small functions of vectors, angles and transforms they rest on.   *)
(* A lattice is known by an expression for its base matrix (rows are the     *)
(* base vectors in Cartesian coordinates) and for its orientation, which     *)
(* later cell parameters keep.  Real numbers are described by expressions    *)
(* that refer to other observed numbers of the same step.                    *)
(* Units: vectors 1/4 A, lengths in parameters 1/100 A, angles degrees,      *)
(* fractional coordinates 1/12.                                              *)
EXTENDS Common, Randomization
CONSTANTS Weights, K
VARIABLE lat
vars == lat
X(f, x) == [fn |-> f, x |-> x]
O(x) == X("obs", x)
Rows == {<<i>> : i \in 0..2}
Mul(a, b) == X("mul", <<a, b>>)
Div(a, b) == X("div", <<a, b>>)
Sub(a, b) == X("sub", <<a, b>>)
Sqrt(a) == X("sqrt", <<a>>)
MM(a, b) == X("mmul", <<a, b>>)
Tr(a) == X("tr", <<a>>)
Row(m, k) == X("row", <<m, k - 1>>)
Unit(v) == X("unit", <<v>>)
Cross(u, v) == X("cross", <<u, v>>)
Cosd(x) == X("cos", <<Div(Mul(x, X("pi", <<>>)), 180)>>)
Sind(x) == X("sin", <<Div(Mul(x, X("pi", <<>>)), 180)>>)
Deg(c) == Div(Mul(X("acos", <<c>>), 180), X("pi", <<>>))
Identity == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>

\* standard orientation has c along z and b in the yz plane, a is on the side x > 0
Std(p) == LET a == Div(p[1], 100) b == Div(p[2], 100) c == Div(p[3], 100)
              ca == Cosd(p[4]) cb == Cosd(p[5]) cg == Cosd(p[6]) sa == Sind(p[4])
              y == Div(Sub(cg, Mul(ca, cb)), sa)
          IN <<<<Mul(a, Sqrt(Sub(Sub(1, Mul(cb, cb)), Mul(y, y)))), Mul(a, y), Mul(a, cb)>>,
               <<0, Mul(b, sa), Mul(b, ca)>>, <<0, 0, c>>>>
\* axes of the standard orientation for the base m
Frame(m) == <<Unit(Cross(Row(m, 2), Row(m, 3))), Unit(Cross(Row(m, 3), Cross(Row(m, 2), Row(m, 3)))), Unit(Row(m, 3))>>
Quarter(b) == X("scale", <<b, Div(1, 4)>>)
Det(b) == LET x(i, j) == b[i][j] IN
    x(1,1) * (x(2,2) * x(3,3) - x(2,3) * x(3,2)) - x(1,2) * (x(2,1) * x(3,3) - x(2,3) * x(3,1)) + x(1,3) * (x(2,1) * x(3,2) - x(2,2) * x(3,1))
\* p known parameters or <<>>, b base, r orientation, n own vectors used
\* v is different for lattices that are not copies
ByPar(p, r, n, v) == [p |-> p, b |-> MM(Std(p), r), r |-> r, n |-> n, v |-> v]
ByBase(b, n, v) == [p |-> <<>>, b |-> b, r |-> MM(Identity, Frame(b)), n |-> n, v |-> v]
NoTurn == MM(Identity, Identity)
Fresh == ByPar(<<100, 100, 100, 90, 90, 90>>, NoTurn, 0, 0)
Now == Len(hist)

L(k) == O(<<"lat", k>>)
G(i, j) == O(<<"lat", "metrics", i, j>>)
Len_(i) == O(<<"lat", "len", i>>)
RLen(i) == O(<<"lat", "rlen", i>>)
Cos_(i) == O(<<"lat", "cos", i>>)
RCos(i) == O(<<"lat", "rcos", i>>)
RVec(i) == O(<<"lat", "rvec", i>>)
Dot(u, v) == X("dot", <<u, v>>)
Diag(x) == X("norm", <<Row(MM(<<x>>, L("base")), 1)>>)
Other == <<<<1, 2>>, <<0, 2>>, <<0, 1>>>>
Full(s) ==
    [base |-> s.b, rot |-> s.r, stdbase |-> MM(L("base"), Tr(L("rot"))), vec |-> L("base"),
     len |-> IF s.p # <<>> THEN [i \in 1..3 |-> Div(s.p[i], 100)] ELSE [i \in 1..3 |-> X("norm", <<Row(L("base"), i)>>)],
     ang |-> IF s.p # <<>> THEN [i \in 1..3 |-> s.p[3 + i]] ELSE [i \in 1..3 |-> Deg(Cos_(i - 1))],
     metrics |-> MM(L("base"), Tr(L("base"))),
     cos |-> [i \in 1..3 |-> Div(G(Other[i][1], Other[i][2]), Mul(Len_(Other[i][1]), Len_(Other[i][2])))],
     sin |-> [i \in 1..3 |-> Sqrt(Sub(1, Mul(Cos_(i - 1), Cos_(i - 1))))],
     vol |-> X("det", <<L("base")>>), voln |-> Div(L("vol"), X("mul", <<Len_(0), Len_(1), Len_(2)>>)),
     rec |-> X("inv", <<L("base")>>), rvec |-> Tr(L("rec")),
     rlen |-> [i \in 1..3 |-> X("norm", <<RVec(i - 1)>>)],
     rcos |-> [i \in 1..3 |-> Div(Dot(RVec(Other[i][1]), RVec(Other[i][2])), Mul(RLen(Other[i][1]), RLen(Other[i][2])))],
     rsin |-> [i \in 1..3 |-> Sqrt(Sub(1, Mul(RCos(i - 1), RCos(i - 1))))],
     rang |-> [i \in 1..3 |-> Deg(RCos(i - 1))],
     diag |-> [i \in 1..2 |-> X("max", <<Diag(<<1, 1, 1>>), Diag(<<-1, 1, 1>>), Diag(<<1, -1, 1>>), Diag(<<1, 1, -1>>)>>)],
     diagabs |-> <<1, 1, 1>>]
\* equal lattices have equal bases, and a lattice equals its copies
Seen(f, i) == [refused |-> FALSE, lat |-> Full(f[i]), bases |-> [k \in 1..K |-> f[k].b],
    holds |-> [k \in 1..K |-> <<"eq", X("eq", <<O(<<"eq", k - 1>>), IF f[k].v = f[i].v THEN TRUE ELSE X("and", <<O(<<"eq", k - 1>>), X("eq", <<O(<<"bases", k - 1>>), L("base")>>)>>)>>)>>]
            \o [k \in 1..K |-> <<"ne", X("ne", <<O(<<"eq", k - 1>>), O(<<"ne", k - 1>>)>>)>>]]
To(f, i, op, a) == \E g \in {f} : lat' = g /\ Log(op, a, Seen(g, i))
Same(i, op, a, more) == UNCHANGED lat /\ Log(op, a, [holds |-> more.holds \o Seen(lat, i).holds] @@ more @@ Seen(lat, i))
Refuse(i, op, a) == UNCHANGED lat /\ Log(op, a, [refused |-> TRUE, exc |-> "invalid_argument"] @@ Seen(lat, i))
Skip == UNCHANGED vars /\ Log("nop", <<>>, NoObs)
Whatever == [any |-> 1]

Special == {<<90, 90, 90>>, <<90, 90, 120>>, <<90, 60, 90>>, <<60, 60, 60>>, <<90, 100, 90>>, <<120, 90, 90>>, <<120, 120, 90>>, <<70, 70, 70>>}
Valid(x, y, z) == x + y >= z + 15 /\ y + z >= x + 15 /\ x + z >= y + 15 /\ x + y + z <= 345
Angles(u) == IF RandomElement(1..2) = 1 THEN RandomElement(Special)
             ELSE RandomElement({<<x, y, z>> \in RandomSubset(6, 45..130) \X RandomSubset(6, 45..130) \X RandomSubset(6, 45..130) : Valid(x, y, z)} \cup {<<90, 91, 90>>})
RandPar(u) == LET a == RandomElement(200..900) IN
    RandomElement({<<a, a, a>>, <<a, a, RandomElement(200..900)>>, <<RandomElement(200..900), RandomElement(200..900), RandomElement(200..900)>>}) \o Angles(u)
RandRow(u) == [i \in 1..3 |-> RandomElement(-30..30)]
RandBase(u) == RandomElement({<<RandRow(1), RandRow(2), RandRow(3)>>,
    [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN RandomElement(8..30) ELSE RandomElement(-4..4)]],
    [i \in 1..3 |-> [j \in 1..3 |-> IF i = j THEN RandomElement(-20..30) ELSE 0]],
    <<<<0, 10, 10>>, <<10, 0, 10>>, <<10, 10, 0>>>>})
\* nearly degenerate bases are of no interest
Decent(b) == LET d == Det(b) IN d = 0 \/ Abs(d) > 500
DoPar == \E i \in Pick(1..K), p \in {RandPar(hist)}, op \in Pick({"par", "newpar"}) :
    To([lat EXCEPT ![i] = ByPar(p, IF op = "par" THEN @.r ELSE NoTurn, IF op = "par" THEN @.n ELSE 0, Now)], i, op, <<i>> \o p)
DoBase == \E i \in Pick(1..K), b \in {RandBase(hist)}, op \in Pick({"base", "basetuple", "newbase"}) :
    IF ~Decent(b) THEN Skip
    ELSE IF Det(b) <= 0 THEN Refuse(i, op, <<i>> \o Flat(b))
    ELSE To([lat EXCEPT ![i] = ByBase(Quarter(b), 0, Now)], i, op, <<i>> \o Flat(b))
\* own vectors in another order
Perms == {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>, <<2, 1, 3>>, <<3, 2, 1>>, <<1, 3, 2>>}
Even(p) == p \in {<<1, 2, 3>>, <<2, 3, 1>>, <<3, 1, 2>>}
DoOwn == \E i \in Pick(1..K), p \in Pick(Perms) :
    IF lat[i].n >= 2 THEN Skip
    ELSE IF ~Even(p) THEN Refuse(i, "own", <<i>> \o p)
    ELSE To([lat EXCEPT ![i] = ByBase(X("perm", <<@.b, p[1] - 1, p[2] - 1, p[3] - 1>>), @.n + 1, Now)], i, "own", <<i>> \o p)
DoCopy == \E i \in Pick(1..K), j \in Pick(1..K) : To([lat EXCEPT ![i] = lat[j]], i, "copy", <<i, j>>)
DoArchive == \E i \in Pick(1..K) : To(lat, i, "archive", <<i>>)
DoLook == \E i \in Pick(1..K) : To(lat, i, "look", <<i>>)

Twelfth(u) == [i \in 1..3 |-> Div(u[i], 12)]
Cart(u) == MM(<<u>>, L("base"))
NormBase == [k \in 1..3 |-> X("scale", <<Row(L("base"), k), RLen(k - 1)>>)]
DoQuery == \E i \in Pick(1..K) : \E u \in {[k \in 1..3 |-> RandomElement(-30..30)]}, m \in {[k \in 1..6 |-> RandomElement(-20..20)]} :
    \E v \in {RandomElement({u, [k \in 1..3 |-> -2 * u[k]], [k \in 1..3 |-> RandomElement(-30..30)]})} :
    LET fu == Twelfth(u) fv == Twelfth(v) zero == <<0, 0, 0>>
        M == X("scale", <<<<<<m[1], m[4], m[5]>>, <<m[4], m[2], m[6]>>, <<m[5], m[6], m[3]>>>>, Div(1, 100)>>)
        N == NormBase
    IN Same(i, "query", <<i>> \o u \o v \o m,
        [dot |-> Dot(Row(Cart(fu), 1), Row(Cart(fv), 1)), norm |-> X("norm", <<Row(Cart(fu), 1)>>),
         dist |-> X("norm", <<Row(Cart([k \in 1..3 |-> Div(u[k] - v[k], 12)]), 1)>>),
         cart |-> Row(Cart(fu), 1), frac |-> fu, fractional |-> Row(MM(<<fu>>, L("rec")), 1),
         ucvf |-> [k \in 1..3 |-> Div(u[k] % 12, 12)], ucvc |-> Row(Cart([k \in 1..3 |-> Div(u[k] % 12, 12)]), 1),
         cm |-> MM(Tr(N), MM(M, N)), fm |-> MM(Tr(X("inv", <<N>>)), MM(M, X("inv", <<N>>))), fcm |-> M,
         holds |-> IF u = zero \/ v = zero THEN <<>> ELSE
             <<<<"angledeg", X("eq", <<Cosd(O(<<"angledeg">>)), Div(O(<<"dot">>), Mul(O(<<"norm">>), O(<<"normv">>)))>>)>>,
               <<"anglerad", X("eq", <<X("cos", <<O(<<"anglerad">>)>>), Div(O(<<"dot">>), Mul(O(<<"norm">>), O(<<"normv">>)))>>)>>>>])

\* parameters of the cell and of its reciprocal, which is mutual
DoParams == \E i \in Pick(1..K), how \in Pick({"new", "update"}) :
    LET direct == <<L("len"), L("ang"), L("cos"), L("sin")>>
        recip == <<L("rlen"), L("rang"), L("rcos"), L("rsin")>>
    IN Same(i, "params", <<i, how>>, [p |-> direct \o recip, r |-> recip \o direct, u |-> recip \o direct, rr |-> direct \o recip, holds |-> <<>>])

\* points: all of them are in range and different, and those in a box are complete
Quad(t, m) == Dot(Row(MM(<<t>>, m), 1), t)
It == O(<<"it">>)
Boxes == {<<3, 3, 3>>, <<7, 2, 2>>, <<2, 7, 2>>, <<2, 2, 7>>}
Near(x, y) == X("lt", <<X("abs", <<Sub(x, y)>>), Div(1, 1000000)>>)
Between(x, lo, hi) == X("and", <<X("lt", <<lo, x>>), X("lt", <<x, hi>>)>>)
\* m is the metric tensor, lo and hi are squares of limits
Points(m, lo, hi, box) == <<
    <<"inside", X("all", <<O(<<"points">>), X("or", <<Between(Quad(It, m), lo, hi), Near(Quad(It, m), lo), Near(Quad(It, m), hi)>>)>>)>>,
    <<"distinct", X("distinct", <<O(<<"points">>)>>)>>,
    <<"complete", X("all", <<X("box", box), X("or", <<Near(Quad(It, m), lo), Near(Quad(It, m), hi), X("not", <<Between(Quad(It, m), lo, hi)>>), X("in", <<It, O(<<"points">>)>>)>>)>>)>>,
    <<"again", X("eq", <<O(<<"points">>), O(<<"again">>)>>)>>>>
Sq(x) == Mul(x, x)
DoPoints == \E i \in Pick(1..K), hi \in Pick(0..1200), how \in Pick({"six", "parameters", "lattice"}), box \in Pick(Boxes) : \E lo \in {RandomElement({0, RandomElement(0..1300), RandomElement(0..(hi + 1))})} :
    Same(i, "points", <<i, lo, hi, how>>, [r |-> Whatever, points |-> Whatever, again |-> Whatever, holds |->
        Points(L("metrics"), Sq(Div(lo, 100)), Sq(Div(hi, 100)), box)
        \o <<<<"r", X("all", <<O(<<"points">>), X("eq", <<Sqrt(Quad(It, L("metrics"))), X("at", <<O(<<"r">>), O(<<"at">>)>>)>>)>>)>>>>])
\* reflections by Q in 1/100 1/A or by lattice plane spacing in 1/100 A
TwoPi == Mul(2, X("pi", <<>>))
DoReflections == \E i \in Pick(1..K), how \in Pick({"six", "parameters", "lattice"}), box \in Pick(Boxes) :
    \E by \in Pick({"Q", "d"}) : \E x \in {RandomElement(1..700)} : \E y \in {IF by = "Q" THEN x ELSE 90 + x} :
    \E z \in {y + RandomElement(0..(IF by = "Q" THEN 400 ELSE 500))} :
    LET m == MM(Tr(L("rec")), L("rec"))
        M == MM(O(<<"lat", "rvec">>), Tr(O(<<"lat", "rvec">>)))
        lo == IF by = "Q" THEN Sq(Div(Div(y, 100), TwoPi)) ELSE Sq(Div(100, z))
        hi == IF by = "Q" THEN Sq(Div(Div(z, 100), TwoPi)) ELSE Sq(Div(100, y))
    IN Same(i, "reflections", <<i, by, y, z, how>>, [points |-> Whatever, again |-> Whatever, q |-> Whatever, d |-> Whatever,
        limits |-> IF by = "Q" THEN <<Div(y, 100), Div(z, 100)>> ELSE <<Mul(TwoPi, Div(100, z)), Mul(TwoPi, Div(100, y)), Div(z, 100), Div(y, 100)>>,
        holds |-> Points(M, lo, hi, box)
        \o <<<<"Q", X("all", <<O(<<"points">>), X("eq", <<Mul(TwoPi, Sqrt(Quad(It, M))), X("at", <<O(<<"q">>), O(<<"at">>)>>)>>)>>)>>,
             <<"d", X("all", <<O(<<"points">>), X("eq", <<Div(1, Sqrt(Quad(It, M))), X("at", <<O(<<"d">>), O(<<"at">>)>>)>>)>>)>>>>])

\* functions
Ints(n, S) == [k \in 1..n |-> RandomElement(S)]
CrossI(u, v) == <<u[2] * v[3] - u[3] * v[2], u[3] * v[1] - u[1] * v[3], u[1] * v[2] - u[2] * v[1]>>
DotI(u, v) == u[1] * v[1] + u[2] * v[2] + u[3] * v[3]
DoMatrix == \E r1 \in {Ints(3, -6..6)}, r2 \in {Ints(3, -6..6)}, r3 \in {Ints(3, -6..6)}, u \in {Ints(3, -9..9)}, v \in {Ints(3, -9..9)} :
    LET A == <<r1, r2, r3>> d == Det(A) col(k) == <<r1[k], r2[k], r3[k]>>
        adj == <<CrossI(r2, r3), CrossI(r3, r1), CrossI(r1, r2)>>
    IN UNCHANGED vars /\ Log("matrix", r1 \o r2 \o r3 \o u \o v,
        [refused |-> FALSE, det |-> d, cross |-> CrossI(u, v), dot |-> DotI(u, v), norm |-> Sqrt(DotI(u, u)),
         dist |-> Sqrt(DotI(<<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>, <<u[1] - v[1], u[2] - v[2], u[3] - v[3]>>)),
         mv |-> [k \in 1..3 |-> DotI(A[k], u)], vm |-> [k \in 1..3 |-> DotI(col(k), u)],
         floor |-> [k \in 1..3 |-> u[k] \div 4], eq |-> <<u = v, TRUE, FALSE>>,
         adj |-> IF d = 0 THEN <<>> ELSE [i \in 1..3 |-> [j \in 1..3 |-> adj[j][i]]]])
\* angles in 1/4 degree, cosines in 1/40; multiples of 30 degrees are exact
DoTrig == \E x \in {RandomElement({RandomElement(-3000..3000), 120 * RandomElement(-24..24)})}, y \in Pick(-40..40) :
    LET h == x \div 120  \* multiples of 30 degrees
        twice(n) == CASE n % 12 = 0 -> 2 [] n % 12 \in {2, 10} -> 1 [] n % 12 \in {3, 9} -> 0 [] n % 12 \in {4, 8} -> -1 [] n % 12 = 6 -> -2 [] OTHER -> 9
        exact(n, k) == IF x % 120 # 0 \/ twice(n) = 9 THEN <<>> ELSE <<<<k, X("same", <<Mul(2, O(<<k>>)), twice(n)>>)>>>>
    IN UNCHANGED vars /\ Log("trig", <<x, y>>,
        [refused |-> FALSE, cosd |-> Cosd(Div(x, 4)), sind |-> Sind(Div(x, 4)), acosd |-> Deg(Div(y, 40)), asind |-> Sub(90, Deg(Div(y, 40))),
         holds |-> exact(h, "cosd") \o exact(h - 3, "sind")
            \o (IF y \in {-40, -20, 0, 20, 40} THEN <<<<"acosd", X("same", <<O(<<"acosd">>), CASE y = 0 -> 90 [] y = 20 -> 60 [] y = -20 -> 120 [] y = 40 -> 0 [] y = -40 -> 180>>)>>,
                <<"asind", X("same", <<O(<<"asind">>), CASE y = 0 -> 0 [] y = 20 -> 30 [] y = -20 -> -30 [] y = 40 -> 90 [] y = -40 -> -90>>)>>>> ELSE <<>>)])
\* comparison of x and y with tolerance e in units of 1e-9, default 14.9
DoEps == \E x \in Pick(-40..40), y \in Pick(-40..40), e \in Pick({0, 5, 15}) :
    LET t == IF e = 15 THEN 14 ELSE e far == x - y > t
    IN IF e # 15 /\ Abs(x - y) = e THEN Skip ELSE
       UNCHANGED vars /\ Log("eps", <<x, y, e>>, [refused |-> FALSE, eq |-> Abs(x - y) <= t, gt |-> x - y > t, lt |-> y - x > t,
            seqeq |-> <<Abs(x - y) <= t, FALSE>>, seqlt |-> <<y - x > t, x - y > t, TRUE>>])
\* sine transform of values that start at the given step, its length is a power of two
Pow2(n) == CHOOSE p \in {1, 2, 4, 8, 16, 32, 64, 128, 256} : p >= n /\ 2 * n > p
DoFft == \E n \in Pick(0..40), pad \in Pick(0..12), off \in Pick(-4..4), dx \in Pick(1..60), back \in Pick(BOOLEAN) : \E g0 \in {Ints(n, -50..50)} :
    \* an odd function is zero at zero
    \E g \in {[k \in 1..n |-> IF k = 1 /\ pad = 0 THEN 0 ELSE g0[k]]} :
    IF pad = 0 /\ off < 0 THEN Skip ELSE
    LET N == IF n = 0 THEN 0 ELSE Pow2(n + pad)
        val(j) == X("mul", <<Div(dx, 100), IF back THEN Div(2, X("pi", <<>>)) ELSE 1,
            X("sinsum", <<g, 0, Div(pad * dx, 100), Div(dx, 100), Div(Mul(100 * j, X("pi", <<>>)), N * dx)>>)>>)
    IN UNCHANGED vars /\ Log("fft", <<g, pad, off, dx, back>>, [refused |-> FALSE, f |-> [j \in 1..N |-> val(j - 1)]])
ActOf(g) == CASE g = "par" -> DoPar
              [] g = "base" -> DoBase
              [] g = "own" -> DoOwn
              [] g = "copy" -> DoCopy
              [] g = "archive" -> DoArchive
              [] g = "look" -> DoLook
              [] g = "query" -> DoQuery
              [] g = "params" -> DoParams
              [] g = "points" -> DoPoints
              [] g = "reflections" -> DoReflections
              [] g = "matrix" -> DoMatrix
              [] g = "trig" -> DoTrig
              [] g = "eps" -> DoEps
              [] g = "fft" -> DoFft
Init == /\ lat = [i \in 1..K |-> Fresh]
        /\ hist = <<[op |-> "start", a |-> <<K>>, e |-> Seen(lat, 1)]>>
Next == Unfinished /\ \E g \in Pick(1..Len(Weights)) : ActOf(Weights[g])
Spec == Init /\ [][Next]_<<vars, hist>>
\* an orientation is kept until base vectors are given
Recently == hist'[Len(hist')]
Kept == [][Recently.op = "par" => \A i \in 1..K : lat'[i].r = lat[i].r]_<<vars, hist>>
RefusedKeeps == [][("refused" \in DOMAIN Recently.e /\ Recently.e.refused) => lat' = lat]_<<vars, hist>>
=============================================================================
