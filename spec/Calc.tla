------------------------------- MODULE Calc -------------------------------
(* Bond, overlap, bond valence, pair distribution and Debye calculators.   *)
(* Their results are pure functions of the structure and the configuration *)
(* at the last evaluation.  The functions are written here as sums over    *)
(* the set of all directed pairs.  Results that are not integers are       *)
(* expressions:                                                            *)
(*   [fn, x]       elementary function of expressions or integers,         *)
(*   [fn = "dsum", h, p, t]  sum of w * h(d) over the terms <<w, d^2, ...>> *)
(*        "ovl2"  (s/100 - d)^2            terms <<w, d2, s>>              *)
(*        "ovlg"  (s/100 - d) / d          terms <<w, d2, s>>              *)
(*        "bv"    exp((Ro - 100 d) / B)    terms <<w, d2, Ro, B>>          *)
(*        "peak"  1 + W                    terms <<w, d2, m>>              *)
(*        "damp"  exp(-(s q)^2 / 2) sin(q d) / d, q = p/20,                *)
(*                s = W / sqrt(8 log(2))   terms <<w, d2, m>>              *)
(* where W is the peak width for the mean square displacement m / d2.      *)
EXTENDS Geom, Masks
CONSTANTS Weights, Kinds, NSlot, Sizes, CalcTypes, EvTypes, MaxCpu, LoChoices, HiChoices
VARIABLES stru,   \* slot -> structure
          calc,   \* configuration of the calculator
          mask,   \* pair selection
          cur,    \* [slot, own] the structure of the calculator, slot is -1 when there is none
          ready   \* results are for the current state
vars == <<stru, calc, mask, cur, ready>>
View == vars

Skip == UNCHANGED vars /\ Log("nop", <<>>, NoObs)
CalcInit(type, ev, hi) ==
    [type |-> type, ev |-> ev, lo |-> -1, hi |-> hi, nw |-> 0,
     cones |-> <<>>, coneg |-> IdR,                   \* bond
     rad |-> EmptyFn, rdef |-> 0,                     \* overlap
     bv |-> EmptyFn, vals |-> EmptyFn, eps |-> 3,     \* bond valence
     pw |-> <<"constant", 0, 0, 0, 0>>,               \* peak width model
     sf |-> EmptyFn]                                  \* pair distribution and Debye

-----------------------------------------------------------------------------
(* expressions *)
X(op, args) == [fn |-> op, x |-> args]
Div(a, b) == X("div", <<a, b>>)
DSum(h, p, t) == [fn |-> "dsum", h |-> h, p |-> p, t |-> t]
\* weights summed in classes that have the same key
Terms(P, w(_), key(_)) ==
    SortedTuples({<<Sum(w, {p \in P : key(p) = k})>> \o k : k \in {key(p) : p \in P}})

(* directed pairs <<i, j, v, n, d2>> *)
Allowed(m, i, j) == m.pm[PairOf(i - 1, j - 1)]
PairsFrom(s, m, lo, hi, i) ==
    UNION {IF Allowed(m, i, j) THEN {<<i, j, b[1], b[2], Norm2(s.g, b[1])>> : b \in Bonds(s, i, j, lo, hi)} ELSE {} : j \in 1..Len(s.at)}
Pairs(s, m, lo, hi) == UNION {PairsFrom(s, m, lo, hi, i) : i \in 1..Len(s.at)}
Types(s) == [i \in 1..Len(s.at) |-> s.at[i].t]
Occ(s, i) == s.at[i].occ
Sites(s) == 1..Len(s.at)

-----------------------------------------------------------------------------
(* bonds with cone filters *)
\* squared cosine in units of 1e-5
Cos2(deg) == CASE deg = 1 -> 99970 [] deg = 25 -> 82139 [] deg = 40 -> 58682 [] deg = 65 -> 17861 [] deg = 89 -> 30
               [] deg = 91 -> 30 [] deg = 115 -> 17861 [] deg = 140 -> 58682 [] deg = 160 -> 88302 [] deg = 179 -> 99970
Degrees == {-10, 1, 25, 40, 65, 89, 91, 115, 140, 160, 179, 180, 200}
ConeAxes == {<<1, 0, 0>>, <<0, -1, 0>>, <<0, 0, 2>>, <<1, 1, 0>>, <<1, -1, 1>>, <<-2, 1, 1>>, <<0, 2, 1>>}
\* position of the direction against the cone:  1 inside, -1 outside, 0 too close to tell
InCone(g, v, c) ==
    LET dot == Dot3(g, v, c.a)
        n == Norm2(g, v) * Norm2(g, c.a)
        diff == dot * dot * 100000 - Cos2(c.deg) * n
    IN  IF c.deg >= 180 THEN 1
        ELSE IF c.deg < 0 THEN -1
        ELSE IF Abs(diff) < 3 * n /\ n # 0 /\ (dot >= 0) = (c.deg < 90) THEN 0
        ELSE IF c.deg < 90 THEN IF dot > 0 /\ diff > 0 THEN 1 ELSE -1
        ELSE IF dot >= 0 \/ diff < 0 THEN 1 ELSE -1
\* products must remain small numbers
ConeSmall(g, v, c) == Norm2(g, v) * Norm2(g, c.a) < 20000
Listed(c, g, v) == c.cones = <<>> \/ \E k \in 1..Len(c.cones) : InCone(g, v, c.cones[k]) = 1
ConesClear(c, P, g) == c.cones = <<>> \/
    (c.coneg = g /\ \A p \in P : \A k \in 1..Len(c.cones) : ConeSmall(g, p[3], c.cones[k]) /\ InCone(g, p[3], c.cones[k]) # 0)
BondResult(s, P, c) ==
    LET B == {p \in P : Listed(c, s.g, p[3])}
        e == [ok |-> TRUE, bonds |-> SortedTuples({<<p[1], p[2]>> \o p[3] \o <<p[4]>> : p \in B})]
    IN  IF s.k = "atom" THEN e @@ [order |-> SortedTuples({<<p[5], p[1], p[2]>> : p \in B})]
        ELSE e

-----------------------------------------------------------------------------
(* overlaps *)
Radius(c, t) == Get(c.rad, t, c.rdef)
Radii(s, c) == [i \in Sites(s) |-> Radius(c, s.at[i].t)]
Overlapping(P, R) == {p \in P : (R[p[1]] + R[p[2]]) * (R[p[1]] + R[p[2]]) > 10000 * p[5]}
\* 32 times the total square overlap
Total32(s, P, R) ==
    DSum("ovl2", <<>>, Terms(Overlapping(P, R), LAMBDA p : Mult(s, p[1]) * Occ(s, p[1]) * Occ(s, p[2]) * p[4],
                             LAMBDA p : <<p[5], R[p[1]] + R[p[2]]>>))
RECURSIVE Reach(_, _)
Reach(S, O) == LET T == S \cup {p[2] : p \in {q \in O : q[1] \in S}} \cup {p[1] : p \in {q \in O : q[2] \in S}}
               IN  IF T = S THEN S ELSE Reach(T, O)
Hoods(s, m, O) ==
    LET I == {i \in Sites(s) : \E j \in Sites(s) : Allowed(m, i, j)}
    IN  SortedTuples({Sorted(Reach({i}, O)) : i \in I})
MaxOf(S) == IF S = {} THEN 0 ELSE Max(S)
RmaxExpr(hi) == X("sqrt", <<Div(2 * hi + 1, 2)>>)
FullSites(s) == s.k # "crys" /\ \A i \in Sites(s) : Occ(s, i) = 4
OverlapResult(s, m, P, c) ==
    LET R == Radii(s, c)
        O == Overlapping(P, R)
        key(p) == <<p[5], R[p[1]] + R[p[2]]>>
        T == TotalOcc(s)
        n == Len(s.at)
        e == [ok |-> TRUE,
              pairs |-> SortedTuples({<<p[1], p[2]>> \o p[3] \o <<R[p[1]] + R[p[2]], p[4]>> : p \in O}),
              sq |-> [i \in 1..n |-> Div(DSum("ovl2", <<>>, Terms({p \in O : p[1] = i}, LAMBDA p : Occ(s, p[2]) * p[4], key)), 8)],
              total |-> Div(Total32(s, P, R), 32),
              mean |-> IF T = 0 THEN 0 ELSE Div(Total32(s, P, R), 8 * T),
              rmaxused |-> X("min", <<RmaxExpr(c.hi), Div(2 * MaxOf({R[i] : i \in 1..n}), 100)>>),
              coord |-> [i \in 1..n |-> Sum(LAMBDA p : Occ(s, p[2]) * p[4], {p \in O : p[1] = i})],
              nb |-> [i \in 1..n |-> Sorted({p[2] : p \in {q \in O : q[1] = i}})],
              bytype |-> [i \in 1..n |-> [k \in 1..3 |->
                  Sum(LAMBDA p : Occ(s, p[2]) * p[4], {p \in O : p[1] = i /\ s.at[p[2]].t = <<"A", "B", "C">>[k]})]],
              hoods |-> Hoods(s, m, O)]
    IN  IF ~FullSites(s) THEN e
        ELSE e @@ [grad |-> [j \in 1..n |-> [q \in I3 |->
                 DSum("ovlg", <<>>, Terms({p \in O : p[2] = j /\ p[3][q] # 0}, LAMBDA p : -2 * p[3][q] * p[4], key))]]]
\* total after sites i and j exchange their radii less the total now
FlipResult(s, P, c, i, j) ==
    LET R == Radii(s, c)
        R2 == [R EXCEPT ![i] = R[j], ![j] = R[i]]
        d == X("sub", <<Total32(s, P, R2), Total32(s, P, R)>>)
    IN  [refused |-> FALSE, diff |-> Div(d, 32), mean |-> Div(d, 8 * TotalOcc(s)), total |-> Div(Total32(s, P, R), 32)]

-----------------------------------------------------------------------------
(* bond valence sums *)
BVTypes == {"Xa2+", "Xb1-", "Xb", "Xc3+"}
Bare(t) == CASE t = "Xa2+" -> "Xa" [] t = "Xb1-" -> "Xb" [] t = "Xb" -> "Xb" [] t = "Xc3+" -> "Xc"
StdValence(t) == CASE t = "Xa2+" -> 2 [] t = "Xb1-" -> -1 [] t = "Xb" -> 0 [] t = "Xc3+" -> 3
Valence(c, t) == Get(c.vals, t, StdValence(t))
\* the bond of two ions is identified by their unordered pair
BVKey(a, v, b, w) == {<<a, v>>, <<b, w>>}
\* parameters <<Ro, B>> or <<>>, an unspecified positive valence is 9
BVLookup(c, t, u) ==
    LET v == Valence(c, t)
        w == Valence(c, u)
        key == BVKey(Bare(t), v, Bare(u), w)
        key9 == IF v > w THEN BVKey(Bare(t), 9, Bare(u), w) ELSE BVKey(Bare(t), v, Bare(u), 9)
    IN  IF key \in DOMAIN c.bv THEN c.bv[key]
        ELSE IF v # w /\ Max2(v, w) > 0 /\ key9 \in DOMAIN c.bv THEN c.bv[key9]
        ELSE <<>>
\* distance in hundredths where the valence drops to the precision
Cutoff(s, c) == MaxOf({LET b == BVLookup(c, s.at[i].t, s.at[j].t) IN IF b = <<>> THEN 0 ELSE b[1] + c.eps * b[2] : i \in Sites(s), j \in Sites(s)})
BVSResult(s, P0, c) ==
    LET cut == Cutoff(s, c)
        n == Len(s.at)
        b(p) == BVLookup(c, s.at[p[1]].t, s.at[p[2]].t)
        P == {p \in P0 : 10000 * p[5] <= cut * cut /\ b(p) # <<>>}
        val == [i \in 1..n |-> Valence(c, s.at[i].t)]
        sum == [i \in 1..n |-> DSum("bv", <<>>, Terms({p \in P : p[1] = i},
                    LAMBDA p : (IF val[i] < 0 THEN -1 ELSE 1) * Occ(s, p[2]) * p[4], LAMBDA p : <<p[5]>> \o b(p)))]
        diff == [i \in 1..n |-> X("sub", <<Abs(val[i]), X("abs", <<Div(sum[i], 4)>>)>>)]
        ms == Div(X("add", [i \in 1..n |-> X("mul", <<Mult(s, i) * Occ(s, i), diff[i], diff[i]>>)]), TotalOcc(s))
    IN  [value |-> [i \in 1..n |-> Div(sum[i], 4)], valences |-> val, bvdiff |-> diff,
         ms |-> IF n = 0 THEN 0 ELSE ms, rms2 |-> IF n = 0 THEN 0 ELSE ms,
         rmaxused |-> X("min", <<RmaxExpr(c.hi), Div(cut, 100)>>)]

-----------------------------------------------------------------------------
(* pair distribution and Debye sum *)
SF0(t) == CASE t = "A" -> 2 [] t = "B" -> 3 [] t = "C" -> 5
\* custom factors [src, v] have the Q-dependence of src and value v at Q = 0
SFOf(c, t) == Get(c.sf, t, [src |-> t, v |-> SF0(t)])
SFAt0(c, t) == SFOf(c, t).v
\* at Q = k/20
SFAt(c, t, k) ==
    LET f == SFOf(c, t) IN
    CASE f.src = "A" -> f.v
      [] f.src = "B" -> Div(400 * f.v, 400 + k * k)
      [] f.src = "C" -> Div(20 * f.v, 20 + k)
PairWeight(s, p) == Mult(s, p[1]) * Occ(s, p[1]) * Occ(s, p[2]) * p[4]
(* peak widths, parameters in hundredths *)
GV(g, v) == [q \in I3 |-> g[q][1] * v[1] + g[q][2] * v[2] + g[q][3] * v[3]]
QForm(u, x) == x[1] * (u[1][1] * x[1] + u[1][2] * x[2] + u[1][3] * x[3]) + x[2] * (u[2][1] * x[1] + u[2][2] * x[2] + u[2][3] * x[3])
               + x[3] * (u[3][1] * x[1] + u[3][2] * x[2] + u[3][3] * x[3])
\* mean square displacement of the pair along its bond, times d2
Msd(s, p) == LET a == Anchor(s, p[1])
                 x == GV(s.g, p[3])
             IN  QForm(USite(s, p[1], a), x) + QForm(USite(s, p[2], Add3(a, p[3])), x)
\* displacements matter
MsdKey(s, c, p) == <<p[5], IF c.pw[1] = "constant" THEN 0 ELSE Msd(s, p)>>
\* slope of the linear baseline, -4 pi times the density of sites times the
\* fraction of pairs that are not masked
Slope(s, m) ==
    LET W(i) == Mult(s, i) * Occ(s, i)
        A == Sum(LAMBDA i : W(i) * Sum(LAMBDA j : IF Allowed(m, i, j) THEN W(j) ELSE 0, Sites(s)), Sites(s))
        T == TotalOcc(s)
    IN  IF s.k = "atom" \/ T = 0 THEN 0
        ELSE Div(X("mul", <<-A, X("pi", <<>>)>>), X("mul", <<T * s.D[1] * s.D[2] * s.D[3], X("sqrt", <<Det(s.g)>>)>>))
PDFResult(s, P, c) ==
    LET W == Terms(P, LAMBDA p : PairWeight(s, p) * SFAt0(c, s.at[p[1]].t) * SFAt0(c, s.at[p[2]].t), LAMBDA p : MsdKey(s, c, p))
        WS == {W[k] : k \in 1..Len(W)}
        ds == SortedTuples({<<w[2]>> : w \in WS})
        byd == [k \in 1..Len(ds) |-> <<ds[k][1], DSum("peak", c.pw, SortedTuples({w \in WS : w[2] = ds[k][1]}))>>]
        T == TotalOcc(s)
        S == Sum(LAMBDA i : Mult(s, i) * Occ(s, i) * SFAt0(c, s.at[i].t), Sites(s))
    IN  [ok |-> TRUE, d2 |-> [k \in 1..Len(byd) |-> byd[k][1]],
         w |-> [k \in 1..Len(byd) |-> Div(X("mul", <<byd[k][2], T>>), X("mul", <<4, S, S>>))]]
DebyeResult(s, P, c) ==
    LET ts == SetToSeq({s.at[i].t : i \in Sites(s)})
        n == Len(ts)
        T == TotalOcc(s)
        t1(x) == ts[(x - 1) \div n + 1]
        t2(x) == ts[((x - 1) % n) + 1]
        tt == [x \in 1..(n * n) |-> Terms({p \in P : s.at[p[1]].t = t1(x) /\ s.at[p[2]].t = t2(x)},
                                          LAMBDA p : PairWeight(s, p), LAMBDA p : MsdKey(s, c, p))]
        wt == [x \in 1..n |-> Sum(LAMBDA i : Mult(s, i) * Occ(s, i), {i \in Sites(s) : s.at[i].t = ts[x]})]
        F(k) == IF n = 0 THEN 0
                ELSE LET avg == Div(X("add", [x \in 1..n |-> X("mul", <<wt[x], SFAt(c, ts[x], k)>>)]), T)
                     IN  Div(X("add", [x \in 1..(n * n) |-> X("mul", <<SFAt(c, t1(x), k), SFAt(c, t2(x), k), DSum("damp", <<k>> \o c.pw, tt[x])>>)]),
                             X("mul", <<4 * T, avg, avg>>))
    IN  [ok |-> TRUE, f |-> <<F(1), F(7), F(20), F(39)>>]

Result(s, m, c) ==
    LET P == Pairs(s, m, c.lo, c.hi) IN
    CASE c.type = "bond" -> BondResult(s, P, c)
      [] c.type = "overlap" -> OverlapResult(s, m, P, c)
      [] c.type = "bvs" -> BVSResult(s, P, c)
      [] c.type = "pdf" -> PDFResult(s, P, c) @@ [slope |-> Slope(s, m)]
      [] c.type = "debye" -> DebyeResult(s, P, c)
\* the result can be told exactly
Clear(s, m, c) == c.type # "bond" \/ ConesClear(c, Pairs(s, m, c.lo, c.hi), s.g)
EvalE(s, m, c) == [refused |-> FALSE, pm |-> MaskObs(m), evt |-> c.ev] @@ Result(s, m, c)

-----------------------------------------------------------------------------
(* structures *)
CurStru == IF cur.slot <= 0 THEN cur.own ELSE stru[cur.slot]
\* the object of the calculator is replaced in its slot
Detach(k) == IF cur.slot = k THEN [slot |-> -1, own |-> stru[k]] ELSE cur
NewStru(k, s) ==
    /\ stru' = [stru EXCEPT ![k] = s]
    /\ cur' = Detach(k)
    /\ ready' = FALSE
    /\ UNCHANGED <<calc, mask>>
    /\ Log("new", <<k>> \o GeomArgs(s), NoObs)
DoNew == \E k \in Pick(1..NSlot), kind \in Pick(Kinds) : \E s \in {PlainGeom(kind, Sizes)} : NewStru(k, s)
DoVariant == \E k \in Pick(1..NSlot), j \in Pick(1..NSlot) :
    IF stru[j].at = <<>> THEN Skip ELSE \E s \in {PlainVariant(stru[j], Sizes)} : NewStru(k, s)
DoEdit == \E k \in Pick(1..NSlot) : \E e \in {PlainEdit(stru[k], Sizes)} :
    IF e[2] = "nop" THEN Skip
    ELSE /\ stru' = [stru EXCEPT ![k] = e[1]]
         /\ ready' = (ready /\ cur.slot # k)
         /\ UNCHANGED <<calc, mask, cur>>
         /\ Log(e[2], <<k>> \o e[3], NoObs)

-----------------------------------------------------------------------------
(* configuration *)
Config(c, m, op, a, e) ==
    /\ calc' = c
    /\ mask' = m
    /\ ready' = FALSE
    /\ UNCHANGED <<stru, cur>>
    /\ Log(op, a, e)
MaskE(m) == IF m.fresh THEN [refused |-> FALSE, pm |-> MaskObs(m)] ELSE NoObs
DoRmin == \E r \in Pick(LoChoices) : Config([calc EXCEPT !.lo = r], mask, "rmin", <<r>>, NoObs)
DoRmax == \E r \in Pick(HiChoices) : Config([calc EXCEPT !.hi = r], mask, "rmax", <<r>>, NoObs)
DoEvaluator == \E t \in Pick(EvTypes) :
    IF t = calc.ev \/ calc.type \in {"bond", "pdf", "debye"} \/ t = "BASIC"
    THEN Config([calc EXCEPT !.ev = t], mask, "evaluator", <<t>>, [refused |-> FALSE, evt |-> t])
    ELSE Config(calc, mask, "evaluator", <<t>>, [refused |-> TRUE, evt |-> calc.ev])
DoMaskAll == \E v \in Pick(BOOLEAN) : LET m == MaskAll(mask, v) IN Config(calc, m, "maskall", <<v>>, MaskE(m))
DoInvert == LET m == MaskInvert(mask) IN Config(calc, m, "invert", <<>>, MaskE(m))
MaskIdx == 0..(Max(Sizes) - 1)
DoPairMask == \E i \in Pick(MaskIdx), j \in Pick(MaskIdx \cup {-1}), v \in Pick(BOOLEAN) :
    LET m == SetPairMask(mask, i, j, v, Len(CurStru.at)) IN Config(calc, m, "pairmask", <<i, j, v>>, MaskE(m))
DoTypeMask == \E s \in Pick(MaskTypes), t \in Pick(MaskTypes \cup {ALL}), v \in Pick(BOOLEAN) :
    LET m == SetTypeMask(mask, s, t, v) IN Config(calc, m, "typemask", <<s, t, v>>, MaskE(m))
DoClearMask == LET m == MaskAll(mask, TRUE) IN Config(calc, m, "maskall", <<TRUE>>, MaskE(m))

(* options of the single calculators *)
Is(t, A) == IF t = calc.type THEN A ELSE Skip
DoCone == Is("bond", \E k \in Pick(1..NSlot), a \in Pick(ConeAxes), deg \in Pick(Degrees) :
    IF stru[k].at = <<>> \/ Len(calc.cones) >= 3 \/ (calc.cones # <<>> /\ stru[k].g # calc.coneg) THEN Skip
    ELSE Config([calc EXCEPT !.cones = Append(@, [a |-> a, deg |-> deg]), !.coneg = stru[k].g], mask, "cone", <<k>> \o a \o <<deg>>, NoObs))
DoConeOff == Is("bond", Config([calc EXCEPT !.cones = <<>>], mask, "coneoff", <<>>, NoObs))
\* no sum of two radii is equal to any distance
RadiusChoices == {0, 45, 57, 83, 111, 129, 162}
DoRadius == Is("overlap", \E t \in Pick(GTypes), r \in Pick(RadiusChoices) : Config([calc EXCEPT !.rad = With(@, t, r)], mask, "radius", <<t, r>>, NoObs))
DoNoRadius == Is("overlap", \E t \in Pick(GTypes) : Config([calc EXCEPT !.rad = Without(@, {t})], mask, "noradius", <<t>>, NoObs))
DoDefRadius == Is("overlap", \E r \in Pick(RadiusChoices) : Config([calc EXCEPT !.rdef = r], mask, "defradius", <<r>>, NoObs))
DoSF == Is(calc.type, \E t \in Pick(GTypes), src \in Pick(GTypes), v \in Pick({1, 2, 4, 7}) :
    IF calc.type \notin {"pdf", "debye"} THEN Skip
    ELSE Config([calc EXCEPT !.sf = With(@, t, [src |-> src, v |-> v])], mask, "sf", <<t, src, v>>, NoObs))
DoWidth == IF calc.type \notin {"pdf", "debye"} THEN Skip ELSE
    \E t \in Pick({"constant", "debye-waller", "jeong"}), a \in Pick({0, 20, 150}), b \in Pick({0, 20, 150}), q \in Pick({0, 3, 20}), z \in Pick({0, 0, 20}) :
    \E pw \in {CASE t = "constant" -> <<t, a, 0, 0, 0>> [] t = "debye-waller" -> <<t, 0, 0, 0, 0>> [] t = "jeong" -> <<t, a, b, q, z>>} :
    Config([calc EXCEPT !.pw = pw], mask, "pwmodel", pw, NoObs)
DoNoSF == IF calc.type \notin {"pdf", "debye"} THEN Skip
    ELSE \E t \in Pick(GTypes) : Config([calc EXCEPT !.sf = Without(@, {t})], mask, "nosf", <<t>>, NoObs)
BVPairs == {<<"Xa", 2, "Xb", -1>>, <<"Xb", -1, "Xc", 3>>, <<"Xa", 2, "Xb", 0>>, <<"Xa", 2, "Xc", 3>>, <<"Xa", 9, "Xb", -1>>, <<"Xb", -1, "Xc", 9>>,
            <<"Xb", 0, "Xc", 9>>, <<"Xa", 2, "Xa", 2>>, <<"Xb", -1, "Xb", 0>>, <<"Xa", 1, "Xb", -1>>, <<"Xa", -1, "Xb", -1>>, <<"Xb", -1, "Xa", -1>>}
DoBVParam == Is("bvs", \E p \in Pick(BVPairs), ro \in Pick({137, 161, 203}), b \in Pick({37, 45}) :
    Config([calc EXCEPT !.bv = With(@, BVKey(p[1], p[2], p[3], p[4]), <<ro, b>>)], mask, "bvparam", p \o <<ro, b>>, NoObs))
DoNoBVParam == Is("bvs", \E p \in Pick(BVPairs) :
    Config([calc EXCEPT !.bv = Without(@, {BVKey(p[1], p[2], p[3], p[4])})], mask, "nobvparam", p, NoObs))
DoValence == Is("bvs", \E t \in Pick(GTypes), v \in Pick({-1, 1, 2, 0}) : Config([calc EXCEPT !.vals = With(@, t, v)], mask, "valence", <<t, v>>, NoObs))
DoNoValence == Is("bvs", Config([calc EXCEPT !.vals = EmptyFn], mask, "novalence", <<>>, NoObs))
DoPrecision == Is("bvs", \E k \in Pick({2, 3, 4, 5, 7}) : Config([calc EXCEPT !.eps = k], mask, "precision", <<k>>, NoObs))

-----------------------------------------------------------------------------
(* evaluation *)
Evaluated(s, m, cur2, op, a) ==
    /\ mask' = m
    /\ cur' = cur2
    /\ ready' = TRUE
    /\ UNCHANGED <<stru, calc>>
    /\ Log(op, a, EvalE(s, m, calc))
DoEval == \E k \in Pick(1..NSlot) :
    LET s == stru[k]
        m == MaskResolve(mask, Types(s))
    IN  IF Clear(s, m, calc) THEN Evaluated(s, m, [slot |-> k, own |-> NoGeom], "eval", <<k>>) ELSE Skip
DoEvalSame ==
    LET s == CurStru
        m == MaskResolve(mask, Types(s))
    IN  IF cur.slot >= 0 /\ Clear(s, m, calc) THEN Evaluated(s, m, cur, "evalsame", <<cur.slot>>) ELSE Skip
DoAgain == IF ~ready \/ cur.slot < 0 THEN Skip
           ELSE UNCHANGED vars /\ Log("again", <<cur.slot>>, EvalE(CurStru, mask, calc))
DoFlip == IF ~ready \/ calc.type # "overlap" THEN Skip
    ELSE LET s == CurStru
             n == Len(s.at)
         IN  IF n = 0 THEN Skip
             ELSE \E i \in Pick(1..n), j \in Pick(1..n) :
                  UNCHANGED vars /\ Log("flip", <<i - 1, j - 1>>, FlipResult(s, Pairs(s, mask, calc.lo, calc.hi), calc, i, j))
DoBadFlip == IF ~ready \/ calc.type # "overlap" THEN Skip
    ELSE \E i \in Pick({-1, 0, Len(CurStru.at)}), j \in Pick({-2, Len(CurStru.at), Len(CurStru.at) + 3}) :
         UNCHANGED vars /\ Log("flip", <<i, j>>, Refused)
DoWorkers == \E n \in Pick(2..MaxCpu) :
    /\ calc' = [calc EXCEPT !.nw = n]
    /\ UNCHANGED <<stru, mask, cur, ready>>
    /\ Log("workers", <<n>>, NoObs)
DoMerge == IF calc.nw = 0 THEN DoWorkers ELSE
    \E k \in Pick(1..NSlot), rot \in Pick(0..(calc.nw - 1)), rev \in Pick(BOOLEAN), bad \in Pick(BOOLEAN) :
    \* how many shares are merged when the calculator is replaced by a restored copy, and if workers are replaced too
    \E sv \in Pick({-1, -1} \cup (0..calc.nw)), svw \in Pick(BOOLEAN) :
    LET s == stru[k]
        m == MaskResolve(mask, Types(s))
    IN  IF Clear(s, m, calc) THEN Evaluated(s, m, IF sv < 0 THEN [slot |-> k, own |-> NoGeom] ELSE [slot |-> 0, own |-> s], "merge", <<k, rot, rev, bad, sv, svw>>) ELSE Skip
\* the calculator and its workers are replaced by restored copies
DoSave == IF cur.slot < 0 THEN Skip ELSE
    /\ cur' = [slot |-> 0, own |-> CurStru]
    /\ UNCHANGED <<stru, calc, mask, ready>>
    /\ Log("save", <<cur.slot, ready>>, IF ready THEN EvalE(CurStru, mask, calc) ELSE NoObs)
\* everything is saved in one archive, in either order, and another process carries on
DoHandover == IF cur.slot < 0 THEN Skip ELSE \E first \in Pick(BOOLEAN) :
    UNCHANGED vars /\ Log("handover", <<first>>, IF mask.fresh THEN [refused |-> FALSE, pm |-> MaskObs(mask), evt |-> calc.ev] ELSE [refused |-> FALSE, evt |-> calc.ev])
\* requests that are refused have no effect
Bads == CASE calc.type = "bond" -> {"badevaluator", "badcpu", "badcone"}
          [] calc.type = "overlap" -> {"badevaluator", "badcpu", "nulltable", "badtable"}
          [] calc.type = "bvs" -> {"badevaluator", "badcpu", "nulltable", "badprecision"}
          [] OTHER -> {"badevaluator", "badcpu", "nulltable", "badtable", "badrange"}
DoRefused == \E w \in Pick(Bads) :
    LET A == CASE w = "badrange" -> {<<"rmin">>, <<"rmax">>} [] w = "badprecision" -> {<<0>>, <<-1>>} [] OTHER -> {<<>>} IN
    \E a \in Pick(A) :
    /\ UNCHANGED vars
    /\ Log(w, a, IF mask.fresh THEN [refused |-> TRUE, pm |-> MaskObs(mask), evt |-> calc.ev] ELSE [refused |-> TRUE, evt |-> calc.ev])

ActOf(g) ==
    CASE g = "new" -> DoNew
      [] g = "variant" -> DoVariant
      [] g = "edit" -> DoEdit
      [] g = "rmin" -> DoRmin
      [] g = "rmax" -> DoRmax
      [] g = "evaluator" -> DoEvaluator
      [] g = "maskall" -> DoMaskAll
      [] g = "clearmask" -> DoClearMask
      [] g = "invert" -> DoInvert
      [] g = "pairmask" -> DoPairMask
      [] g = "typemask" -> DoTypeMask
      [] g = "cone" -> DoCone
      [] g = "coneoff" -> DoConeOff
      [] g = "radius" -> DoRadius
      [] g = "noradius" -> DoNoRadius
      [] g = "defradius" -> DoDefRadius
      [] g = "sf" -> DoSF
      [] g = "nosf" -> DoNoSF
      [] g = "width" -> DoWidth
      [] g = "bvparam" -> DoBVParam
      [] g = "nobvparam" -> DoNoBVParam
      [] g = "valence" -> DoValence
      [] g = "novalence" -> DoNoValence
      [] g = "precision" -> DoPrecision
      [] g = "eval" -> DoEval
      [] g = "evalsame" -> DoEvalSame
      [] g = "again" -> DoAgain
      [] g = "flip" -> DoFlip
      [] g = "badflip" -> DoBadFlip
      [] g = "workers" -> DoWorkers
      [] g = "merge" -> DoMerge
      [] g = "save" -> DoSave
      [] g = "handover" -> DoHandover
      [] g = "refuse" -> DoRefused

Init ==
    /\ stru = [k \in 1..NSlot |-> NoGeom]
    /\ mask = MaskInit
    /\ cur = [slot |-> -1, own |-> NoGeom]
    /\ ready = FALSE
    /\ \E t \in CalcTypes, e \in EvTypes, hi \in HiChoices :
       LET e2 == IF t \in {"overlap", "bvs"} THEN "BASIC" ELSE e IN
       /\ calc = CalcInit(t, e2, hi)
       /\ hist = <<[op |-> "calc", a |-> <<t, e2, hi>>, e |-> NoObs]>>
Next ==
    /\ Unfinished
    /\ IF Mode = "gen" /\ Len(hist) <= NSlot
       THEN \E kind \in Pick(Kinds) : \E s \in {IF Len(hist) = 1 THEN PlainGeom(kind, Sizes) ELSE PlainVariant(stru[1], Sizes)} : NewStru(Len(hist), s)
       ELSE \E g \in Pick(1..Len(Weights)) : ActOf(Weights[g])
Spec == Init /\ [][Next]_<<vars, hist>>
=============================================================================
