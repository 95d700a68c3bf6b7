------------------------------- MODULE Geom -------------------------------
(* Structures on a grid of steps.  The three step vectors have the integer *)
(* Gram matrix g, lattice vector i consists of D[i] steps, so squared      *)
(* distances are integers x . g . x and no rounding is involved.           *)
(* Sites have integer step coordinates p.  A crystal may be jittered: its  *)
(* sites are displaced by a negligible multiple of the integer vector j,   *)
(* which matters only when the symmetry precision is tight.                *)
EXTENDS Common

I3 == 1..3
Zero3 == <<0, 0, 0>>
Add3(x, y) == <<x[1] + y[1], x[2] + y[2], x[3] + y[3]>>
Sub3(x, y) == <<x[1] - y[1], x[2] - y[2], x[3] - y[3]>>
Norm2(g, x) == x[1] * x[1] * g[1][1] + x[2] * x[2] * g[2][2] + x[3] * x[3] * g[3][3]
             + 2 * (x[1] * x[2] * g[1][2] + x[1] * x[3] * g[1][3] + x[2] * x[3] * g[2][3])
Dot3(g, x, y) == FoldLeft(LAMBDA acc, ij : acc + x[ij[1]] * g[ij[1]][ij[2]] * y[ij[2]], 0,
                          <<<<1, 1>>, <<1, 2>>, <<1, 3>>, <<2, 1>>, <<2, 2>>, <<2, 3>>, <<3, 1>>, <<3, 2>>, <<3, 3>>>>)
Adj(g) == <<g[2][2] * g[3][3] - g[2][3] * g[2][3],
            g[1][1] * g[3][3] - g[1][3] * g[1][3],
            g[1][1] * g[2][2] - g[1][2] * g[1][2]>>
Det(g) == g[1][1] * (g[2][2] * g[3][3] - g[2][3] * g[3][2])
        - g[1][2] * (g[2][1] * g[3][3] - g[2][3] * g[3][1])
        + g[1][3] * (g[2][1] * g[3][2] - g[2][2] * g[3][1])
\* largest coordinates of vectors with squared norm hi or less
MaxCoord(g, hi) ==
    LET det == Det(g)
        adj == Adj(g)
    IN  [q \in I3 |-> CHOOSE b \in 0..60 : b * b * det <= hi * adj[q] /\ (b + 1) * (b + 1) * det > hi * adj[q]]
Mod3(x, D) == <<x[1] % D[1], x[2] % D[2], x[3] % D[3]>>

-----------------------------------------------------------------------------
(* symmetry operations [R, t], R acts on fractional coordinates and t is   *)
(* in twelfths of lattice vectors                                          *)
IdR == <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>
Id == [R |-> IdR, t |-> Zero3]
\* entry R[i][q] multiplies coordinate q that has steps of 1/D[q]
MulV(R, x, D) == [i \in I3 |-> (R[i][1] * x[1] * D[i]) \div D[1] + (R[i][2] * x[2] * D[i]) \div D[2] + (R[i][3] * x[3] * D[i]) \div D[3]]
MulR(A, B) == [i \in I3 |-> [q \in I3 |-> A[i][1] * B[1][q] + A[i][2] * B[2][q] + A[i][3] * B[3][q]]]
TransR(A) == [i \in I3 |-> [q \in I3 |-> A[q][i]]]
Image(op, p, D) == Add3(MulV(op.R, p, D), [i \in I3 |-> (op.t[i] * D[i]) \div 12])
\* product of operations with reduced translation
MulOp(a, b) == [R |-> MulR(a.R, b.R),
                t |-> [i \in I3 |-> (a.R[i][1] * b.t[1] + a.R[i][2] * b.t[2] + a.R[i][3] * b.t[3] + a.t[i]) % 12]]
RECURSIVE Closure(_, _, _)
Closure(all, new, gens) ==
    LET nxt == {MulOp(a, b) : a \in gens, b \in new} \ all
    IN  IF nxt = {} THEN all ELSE Closure(all \cup nxt, nxt, gens)
Group(gens) == Closure({Id}, {Id}, gens)

Diag(a, b, c) == <<<<a, 0, 0>>, <<0, b, 0>>, <<0, 0, c>>>>
Op(R, a, b, c) == [R |-> R, t |-> <<a, b, c>>]
Centerings == {Op(IdR, 6, 6, 6), Op(IdR, 6, 6, 0), Op(IdR, 6, 0, 6)}
R4 == <<<<0, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
R3f == <<<<0, -1, 0>>, <<1, -1, 0>>, <<0, 0, 1>>>>
R6 == <<<<1, -1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>
RPerm == <<<<0, 0, 1>>, <<1, 0, 0>>, <<0, 1, 0>>>>
Inv == Op(Diag(-1, -1, -1), 0, 0, 0)
Gens(sys) ==
    CASE sys = "tric" -> {Inv, Op(Diag(-1, -1, -1), 6, 0, 0)}
      [] sys = "mono" -> {Inv, Op(Diag(-1, 1, -1), 0, 0, 0), Op(Diag(-1, 1, -1), 0, 6, 0), Op(Diag(1, -1, 1), 0, 0, 6), Op(Diag(-1, 1, -1), 0, 6, 6)}
      [] sys = "orth" -> {Inv, Op(Diag(-1, -1, 1), 0, 0, 0), Op(Diag(-1, -1, 1), 6, 0, 6), Op(Diag(1, -1, -1), 6, 6, 0), Op(Diag(1, 1, -1), 0, 6, 0), Op(Diag(-1, 1, 1), 3, 3, 3)}
      [] sys = "tetr" -> {Inv, Op(R4, 0, 0, 0), Op(R4, 0, 0, 3), Op(R4, 0, 0, 6), Op(R4, 6, 0, 3), Op(Diag(1, -1, -1), 0, 0, 0)}
      [] sys = "hex" -> {Inv, Op(R3f, 0, 0, 0), Op(R3f, 0, 0, 4), Op(R6, 0, 0, 0), Op(R6, 0, 0, 2), Op(R6, 0, 0, 6), Op(IdR, 8, 4, 4)}
      [] sys = "cub" -> {Inv, Op(RPerm, 0, 0, 0), Op(Diag(-1, -1, 1), 6, 0, 6), Op(R4, 0, 0, 0), Op(R4, 3, 9, 3)}
Grams(sys) ==
    CASE sys = "tric" -> {<<<<3, 1, 1>>, <<1, 4, 1>>, <<1, 1, 5>>>>, <<<<2, 1, -1>>, <<1, 3, 1>>, <<-1, 1, 4>>>>}
      [] sys = "mono" -> {<<<<2, 0, 1>>, <<0, 3, 0>>, <<1, 0, 3>>>>, <<<<3, 0, -1>>, <<0, 1, 0>>, <<-1, 0, 2>>>>}
      [] sys = "orth" -> {<<<<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 3>>>>, <<<<4, 0, 0>>, <<0, 1, 0>>, <<0, 0, 2>>>>}
      [] sys = "tetr" -> {<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 3>>>>, <<<<2, 0, 0>>, <<0, 2, 0>>, <<0, 0, 1>>>>}
      [] sys = "hex" -> {<<<<2, -1, 0>>, <<-1, 2, 0>>, <<0, 0, 3>>>>, <<<<2, -1, 0>>, <<-1, 2, 0>>, <<0, 0, 1>>>>}
      [] sys = "cub" -> {<<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<3, 0, 0>>, <<0, 3, 0>>, <<0, 0, 3>>>>}
\* cells without any restriction
GramsFree == {<<<<5, 4, 0>>, <<4, 5, 0>>, <<0, 0, 2>>>>, <<<<3, 1, 1>>, <<1, 4, 1>>, <<1, 1, 5>>>>, <<<<6, 5, 4>>, <<5, 6, 5>>, <<4, 5, 6>>>>,
              <<<<1, 0, 0>>, <<0, 1, 0>>, <<0, 0, 1>>>>, <<<<2, -1, 0>>, <<-1, 2, 0>>, <<0, 0, 3>>>>, <<<<1, 0, 0>>, <<0, 2, 0>>, <<0, 0, 6>>>>,
              <<<<4, -3, 1>>, <<-3, 5, -2>>, <<1, -2, 3>>>>}

-----------------------------------------------------------------------------
(* structure [k, g, D, at, ops, tight]                                     *)
(* k is "atom", "per" or "crys"; at[i] = [t, p, j, occ, u, f], where f is a *)
(* flag in Struct.tla and the isotropic displacement in ObjCryst.tla       *)
Ops(s) == IF s.ops = <<>> THEN <<Id>> ELSE s.ops
\* image of site i under operation number n: <<position in the cell, jitter>>
Img(s, i, n) == LET op == Ops(s)[n] IN <<Mod3(Image(op, s.at[i].p, s.D), s.D), MulV(op.R, s.at[i].j, s.D)>>
\* distinct images, identical ones are merged
Imgs(s, i) == {LET m == Img(s, i, n) IN IF s.tight THEN m ELSE <<m[1], Zero3>> : n \in 1..Len(Ops(s))}
\* positions of equivalent sites with their number
Equiv(s, i) ==
    IF s.k # "crys" THEN {<<s.at[i].p, 1>>}
    ELSE LET M == Imgs(s, i) IN {<<p, Cardinality({m \in M : m[1] = p})>> : p \in {m[1] : m \in M}}
Mult(s, i) == IF s.k = "crys" THEN Cardinality(Imgs(s, i)) ELSE 1
\* position where the bonds from site i start
Anchor(s, i) == IF s.k = "crys" THEN Img(s, i, 1)[1] ELSE s.at[i].p
TotalOcc(s) == Sum(LAMBDA i : s.at[i].occ * Mult(s, i), 1..Len(s.at))

\* vectors from position p to all sites equivalent to q, squared length in (lo, hi]
AlongAxis(d, D, b) == {x \in {d + n * D : n \in (-((b + Abs(d)) \div D + 1))..((b + Abs(d)) \div D + 1)} : Abs(x) <= b}
Vectors(s, p, q, lo, hi) ==
    IF s.k = "atom"
    THEN {v \in {Sub3(q, p)} : Norm2(s.g, v) > Max2(lo, 0) /\ Norm2(s.g, v) <= hi}
    ELSE LET b == MaxCoord(s.g, hi)
             d == Sub3(q, p)
         IN  {v \in AlongAxis(d[1], s.D[1], b[1]) \X AlongAxis(d[2], s.D[2], b[2]) \X AlongAxis(d[3], s.D[3], b[3]) :
                 Norm2(s.g, v) > Max2(lo, 0) /\ Norm2(s.g, v) <= hi}
\* bonds from site i to site j: set of <<vector, number>>
\* (images that differ only by jitter are counted, also those next to the anchor)
Bonds(s, i, j, lo, hi) ==
    IF hi < 0 THEN {}
    ELSE UNION {{<<v, e[2]>> : v \in Vectors(s, Anchor(s, i), e[1], lo, hi)} : e \in Equiv(s, j)}
NBonds(s, i, j, lo, hi) == Sum(LAMBDA b : b[2], Bonds(s, i, j, lo, hi))

\* displacement matrix of the equivalent site for operation n, in fractional form
UOf(s, i, n) == LET R == Ops(s)[n].R IN MulR(R, MulR(s.at[i].u, TransR(R)))
\* all operations agree about the displacements at each equivalent site of i
\* (those of an isotropic atom have no integer form in steps)
UClear(s, i) ==
    /\ s.at[i].f = 0
    /\ s.at[i].u = Diag(0, 0, 0) \/ \A n, m \in 1..Len(Ops(s)) : Img(s, i, n)[1] = Img(s, i, m)[1] => UOf(s, i, n) = UOf(s, i, m)
UAt(s, i, p) == LET n == CHOOSE m \in 1..Len(Ops(s)) : Img(s, i, m)[1] = p IN UOf(s, i, n)
U6(u) == <<u[1][1], u[2][2], u[3][3], u[1][2], u[1][3], u[2][3]>>
\* U of the site j at position q (not reduced to the cell)
USite(s, j, q) == IF s.k = "crys" THEN UAt(s, j, Mod3(q, s.D)) ELSE s.at[j].u

-----------------------------------------------------------------------------
(* random structures *)
CONSTANTS GTypes, NAtoms, GOcc
RandVec(S) == <<RandomElement(S), RandomElement(S), RandomElement(S)>>
USet == {Diag(0, 0, 0), Diag(1, 2, 3), <<<<2, 1, 0>>, <<1, 3, 0>>, <<0, 0, 1>>>>, <<<<4, 1, 2>>, <<1, 2, 0>>, <<2, 0, 3>>>>}
\* halves and corners of the cell are preferred, they are special positions
RandCoord(d, wide) ==
    LET z == RandomElement(1..3)
        base == CASE z = 1 -> RandomElement({0, d \div 2}) [] OTHER -> RandomElement(0..(d - 1))
    IN  base + (IF wide THEN d * RandomElement({-2, -1, 0, 0, 1, 3}) ELSE 0)
RandPos(D, wide) == <<RandCoord(D[1], wide), RandCoord(D[2], wide), RandCoord(D[3], wide)>>
GAtom(D, jit, wide) ==
    [t |-> RandomElement(GTypes), p |-> RandPos(D, wide),
     j |-> IF jit THEN RandVec({-2, -1, 0, 1, 2}) ELSE Zero3,
     occ |-> IF RandomElement(1..2) = 1 THEN 4 ELSE RandomElement(GOcc),
     u |-> RandomElement(USet), f |-> 0]
RECURSIVE GAtoms(_, _, _, _)
GAtoms(n, D, jit, wide) == IF n = 0 THEN <<>> ELSE Append(GAtoms(n - 1, D, jit, wide), GAtom(D, jit, wide))
\* sequence of the elements of S in random order, each lattice translated at
\* random, some repeated and some dropped
RECURSIVE RandOrder(_, _)
RandOrder(S, drop) ==
    IF S = {} THEN <<>>
    ELSE LET x == RandomElement(S)
             n == RandomElement(1..6)
             y == [x EXCEPT !.t = <<x.t[1] + 12 * RandomElement({-1, 0, 0, 1}), x.t[2] + 12 * RandomElement({0, 0, 1}), x.t[3]>>]
         IN  (IF drop /\ n <= 2 THEN <<>> ELSE IF n = 6 THEN <<y, x>> ELSE <<y>>) \o RandOrder(S \ {x}, drop)
RandOps(sys) ==
    LET gens == Gens(sys)
        g1 == RandomElement(gens)
        g2 == RandomElement(gens \cup Centerings)
        n == RandomElement(0..5)
        G == Group(IF n <= 2 THEN {g1} ELSE {g1, g2})
    IN  IF n = 0 THEN <<>>
        ELSE IF Cardinality(G) > 24 THEN RandOrder(Group({g1}), FALSE)
        ELSE IF n = 5 THEN <<g1>> \o RandOrder(G, TRUE)
        ELSE IF n % 2 = 0 THEN RandOrder(G, FALSE) ELSE <<Id>> \o RandOrder(G \ {Id}, FALSE)
CellOf(sys) ==
    LET a == RandomElement({4, 4, 8})
        h == RandomElement({3, 6})
        c == RandomElement({4, 8})
    IN  CASE sys = "hex" -> <<h, h, 6>>
          [] sys = "cub" -> <<a, a, a>>
          [] sys = "tetr" -> <<a, a, c>>
          [] OTHER -> <<a, c, 4>>
\* hexagonal operations with halves need even numbers
FixCell(D, ops) ==
    IF \E n \in 1..Len(ops) : \E q \in I3 : (ops[n].t[q] * D[q]) % 12 # 0 THEN [q \in I3 |-> IF D[q] = 3 THEN 12 ELSE IF D[q] = 6 THEN 12 ELSE D[q]] ELSE D
RandGeom(k) ==
    LET sys == RandomElement({"tric", "mono", "orth", "tetr", "hex", "cub"})
        ops == IF k = "crys" THEN RandOps(sys) ELSE <<>>
        g == IF k = "atom" THEN IdR ELSE IF k = "crys" THEN RandomElement(Grams(sys)) ELSE RandomElement(GramsFree)
        D == IF k = "atom" THEN <<6, 6, 6>>
             ELSE IF k = "crys" THEN FixCell(CellOf(sys), ops)
             ELSE IF RandomElement(1..3) = 1 THEN <<RandomElement({1, 2}), RandomElement({1, 2}), RandomElement({1, 2})>>
             ELSE <<RandomElement({1, 2, 3, 5}), RandomElement({1, 2, 4}), RandomElement({1, 3, 4})>>
        jit == k = "crys" /\ RandomElement(1..3) = 1
        wide == RandomElement(1..2) = 1
    IN  [k |-> k, g |-> g, D |-> D, ops |-> ops, tight |-> jit /\ RandomElement(1..3) = 1,
         at |-> GAtoms(RandomElement(NAtoms), D, jit, wide)]
-----------------------------------------------------------------------------
(* arguments for the driver *)
AtomArgs(a) == <<a.t>> \o a.p \o a.j \o <<a.occ>> \o U6(a.u)
OpArgs(o) == Flat(o.R) \o o.t
GeomArgs(s) == <<s.k, Flat(s.g), s.D, Flat([n \in 1..Len(s.ops) |-> OpArgs(s.ops[n])]),
                 IF s.tight THEN 1 ELSE 0, Len(s.at)>> \o Flat([i \in 1..Len(s.at) |-> AtomArgs(s.at[i])])

-----------------------------------------------------------------------------
(* Plain structures have no jitter, their operations form a group and they *)
(* have equal displacements at sites that coincide.                        *)
NoGeom == [k |-> "atom", g |-> IdR, D |-> <<6, 6, 6>>, ops |-> <<>>, tight |-> FALSE, at |-> <<>>]
Jit(s) == \E i \in 1..Len(s.at) : s.at[i].j # Zero3
PlainAtom(D, wide) == GAtom(D, FALSE, wide)
NoDisp(a) == [a EXCEPT !.u = Diag(0, 0, 0)]
ClearDisp(s) == IF s.k # "crys" THEN s ELSE [s EXCEPT !.at = [i \in 1..Len(s.at) |-> IF UClear(s, i) THEN s.at[i] ELSE NoDisp(s.at[i])]]
RECURSIVE PlainAtoms(_, _, _)
PlainAtoms(n, D, wide) == IF n = 0 THEN <<>> ELSE Append(PlainAtoms(n - 1, D, wide), PlainAtom(D, wide))
PlainOps(sys) ==
    LET gens == Gens(sys)
        n == RandomElement(0..2)
        g1 == RandomElement(gens)
        g2 == RandomElement(gens)
        G == Group({g1, g2})
    IN  IF n = 0 THEN <<>>
        ELSE IF n = 1 \/ Cardinality(G) > 12 THEN RandOrder(Group({g1}), FALSE)
        ELSE <<Id>> \o RandOrder(G \ {Id}, FALSE)
\* N is the set of numbers of sites for finite structures
PlainGeom(k, N) ==
    LET sys == RandomElement({"tric", "mono", "orth", "tetr", "hex", "cub"})
        ops == IF k = "crys" THEN PlainOps(sys) ELSE <<>>
        g == IF k = "atom" THEN IdR ELSE IF k = "crys" THEN RandomElement(Grams(sys)) ELSE RandomElement(GramsFree)
        D == IF k = "atom" THEN <<5, 5, 4>>
             ELSE IF k = "crys" THEN FixCell(CellOf(sys), ops)
             ELSE <<RandomElement({2, 3, 5}), RandomElement({2, 3, 4}), RandomElement({3, 4})>>
        n == RandomElement(N)
        wide == k # "atom" /\ RandomElement(1..2) = 1
    IN  ClearDisp([k |-> k, g |-> g, D |-> D, ops |-> ops, tight |-> FALSE,
         at |-> PlainAtoms(IF k = "crys" THEN Min2(n, RandomElement({2, 3, 4})) ELSE n, D, wide)])
\* random edit: <<structure, operation, arguments>>
FitOps(s, ops) == \A n \in 1..Len(ops) : \A q \in I3 : (ops[n].t[q] * s.D[q]) % 12 = 0
PlainEdit(s, N) ==
    LET n == Len(s.at)
        w == RandomElement({"move", "type", "occ", "disp", "append", "insert", "erase", "swap", "two", "cell"})
        i == IF n = 0 THEN 0 ELSE RandomElement(1..n)
        i2 == IF n = 0 THEN 0 ELSE RandomElement(1..n)
        x0 == PlainAtom(s.D, s.k # "atom")
        x == IF s.k = "crys" THEN NoDisp(x0) ELSE x0
        None == <<s, "nop", <<>>>>
        f == RandomElement({<<1, 2>>, <<2, 1>>})
        D2 == [q \in I3 |-> (s.D[q] * f[1]) \div f[2]]
        Set(y) == <<[s EXCEPT !.at[i] = y], "atom", <<i - 1>> \o AtomArgs(y)>>
    IN  CASE w = "append" -> IF n >= Max(N) THEN None ELSE <<[s EXCEPT !.at = Append(s.at, x)], "append", AtomArgs(x)>>
          [] w # "append" /\ n = 0 -> None
          [] w = "move" -> LET y == [s.at[i] EXCEPT !.p = x.p] IN Set(IF s.k = "crys" THEN NoDisp(y) ELSE y)
          [] w = "disp" -> Set([s.at[i] EXCEPT !.u = x.u])
          [] w = "type" -> Set([s.at[i] EXCEPT !.t = x.t])
          [] w = "occ" -> Set([s.at[i] EXCEPT !.occ = x.occ])
          [] w = "two" -> Set(x)
          [] w = "insert" -> IF n >= Max(N) THEN None ELSE <<[s EXCEPT !.at = SeqInsertAt(s.at, i, x)], "insert", <<i - 1>> \o AtomArgs(x)>>
          [] w = "erase" -> IF n <= 1 THEN None ELSE <<[s EXCEPT !.at = SeqRemoveAt(s.at, i)], "erase", <<i - 1>>>>
          [] w = "swap" -> <<[s EXCEPT !.at[i] = s.at[i2], !.at[i2] = s.at[i]], "swap", <<i - 1, i2 - 1>>>>
          [] w = "cell" -> IF s.k = "atom" \/ (\E q \in I3 : (s.D[q] * f[1]) % f[2] # 0 \/ D2[q] > 12 \/ D2[q] < (IF s.k = "crys" THEN 3 ELSE 2)) \/ ~FitOps([s EXCEPT !.D = D2], s.ops)
                              \/ ClearDisp([s EXCEPT !.D = D2]) # [s EXCEPT !.D = D2]
                           THEN None
                           ELSE <<[s EXCEPT !.D = D2], "cell", <<D2>>>>
\* structure that differs from s in few sites
PlainVariant(s, N) ==
    LET n == Len(s.at)
        w == RandomElement({"same", "move", "disp", "drop", "add", "swap", "rev", "type", "front"})
        i == RandomElement(1..Max2(n, 1))
        i2 == RandomElement(1..Max2(n, 1))
        x == PlainAtom(s.D, s.k # "atom")
    IN  ClearDisp(IF n < 2 THEN [s EXCEPT !.at = Append(s.at, x)]
        ELSE [s EXCEPT !.at =
            CASE w = "same" -> s.at
              [] w = "move" -> [s.at EXCEPT ![i] = x]
              [] w = "disp" -> [s.at EXCEPT ![i].u = x.u]
              [] w = "type" -> [s.at EXCEPT ![i].t = x.t, ![i2].occ = x.occ]
              [] w = "drop" -> SeqRemoveAt(s.at, i)
              [] w = "add" -> IF n < Max(N) THEN SeqInsertAt(s.at, i, x) ELSE s.at
              [] w = "front" -> IF n < Max(N) THEN <<x>> \o s.at ELSE Append(SeqRemoveAt(s.at, 1), x)
              [] w = "swap" -> [s.at EXCEPT ![i] = s.at[i2], ![i2] = s.at[i]]
              [] w = "rev" -> [q \in 1..n |-> s.at[n + 1 - q]]])
=============================================================================
