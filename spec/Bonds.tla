------------------------------- MODULE Bonds -------------------------------
(* Structures with lattices and symmetry, their symmetry expansion and the *)
(* enumeration of neighbors by a bond generator.  The expansion is a       *)
(* function of the current structure, there is no cache to become stale.   *)
EXTENDS Geom
CONSTANTS Weights, Kinds, NSlot, MaxHi, LoChoices
VARIABLES stru,  \* slot -> structure
          gen    \* the bond generator
vars == <<stru, gen>>
View == vars

\* s is the structure of the generator (slot number), 0 when there is none;
\* left is the number of bonds that are still to be visited
NoGen == [slot |-> 0, anchor |-> 0, sel |-> <<>>, lo |-> -1, hi |-> -1, left |-> 0, taken |-> FALSE]
Skip == UNCHANGED vars /\ Log("nop", <<>>, NoObs)
Tuples(S) == SortedTuples(S)

-----------------------------------------------------------------------------
(* structures *)
\* an edit of a structure makes its generator useless
SetStru(k, s, op, a, e) ==
    /\ stru' = [stru EXCEPT ![k] = s]
    /\ gen' = IF gen.slot = k THEN NoGen ELSE gen
    /\ Log(op, <<k>> \o a, e)
NewStru(k, s) == SetStru(k, s, "new", GeomArgs(s), [refused |-> FALSE, n |-> Len(s.at)])
DoNew == \E k \in Pick(1..NSlot), kind \in Pick(Kinds) : \E s \in {RandGeom(kind)} : NewStru(k, s)
NewAtom(s) == GAtom(s.D, Jit(s), TRUE)
DoAtom == \E k \in Pick(1..NSlot) :
    LET s == stru[k] IN
    IF s.at = <<>> THEN Skip
    ELSE \E i \in Pick(1..Len(s.at)), w \in Pick({"atom", "append", "erase", "swap", "occ", "u"}) : \E x \in {NewAtom(s)} :
         CASE w = "atom" -> SetStru(k, [s EXCEPT !.at[i] = x], "atom", <<i - 1>> \o AtomArgs(x), NoObs)
           [] w = "append" -> IF Len(s.at) >= Max(NAtoms) THEN Skip ELSE SetStru(k, [s EXCEPT !.at = Append(s.at, x)], "append", AtomArgs(x), NoObs)
           [] w = "erase" -> IF Len(s.at) <= 1 THEN Skip ELSE SetStru(k, [s EXCEPT !.at = SeqRemoveAt(s.at, i)], "erase", <<i - 1>>, NoObs)
           [] w = "swap" -> SetStru(k, [s EXCEPT !.at[i] = s.at[1], !.at[1] = s.at[i]], "swap", <<0, i - 1>>, NoObs)
           [] w = "occ" -> LET y == [s.at[i] EXCEPT !.occ = x.occ, !.f = 0] IN SetStru(k, [s EXCEPT !.at[i] = y], "atom", <<i - 1>> \o AtomArgs(y), NoObs)
           [] w = "u" -> LET y == [s.at[i] EXCEPT !.u = x.u, !.f = 0] IN SetStru(k, [s EXCEPT !.at[i] = y], "atom", <<i - 1>> \o AtomArgs(y), NoObs)
\* operations can be replaced as a whole, added or cleared
SameSys(s) == {sys \in {"tric", "mono", "orth", "tetr", "hex", "cub"} : s.g \in Grams(sys)}
DoOps == \E k \in Pick(1..NSlot), w \in Pick({"set", "add", "add", "clear"}) :
    LET s == stru[k] IN
    IF s.k # "crys" THEN Skip
    ELSE \E sys \in Pick(SameSys(s)) :
         LET mix == \/ sys \in {"hex", "tetr"} /\ s.D[1] # s.D[2]
                    \/ sys = "cub" /\ (s.D[1] # s.D[2] \/ s.D[1] # s.D[3])
         IN  IF mix THEN Skip
             ELSE CASE w = "set" -> \E ops \in {RandOps(sys)} : IF FitOps(s, ops) THEN SetStru(k, [s EXCEPT !.ops = ops], "setops", <<Flat([n \in 1..Len(ops) |-> OpArgs(ops[n])])>>, NoObs) ELSE Skip
                    [] w = "add" -> \E o \in Pick(Gens(sys)) : IF FitOps(s, <<o>>) /\ Len(s.ops) < 24 THEN SetStru(k, [s EXCEPT !.ops = Append(s.ops, o)], "addop", <<OpArgs(o)>>, NoObs) ELSE Skip
                    [] w = "clear" -> SetStru(k, [s EXCEPT !.ops = <<>>], "setops", <<<<>>>>, NoObs)
\* the same steps in a cell of different size
DoCell == \E k \in Pick(1..NSlot), f \in Pick({<<1, 2>>, <<2, 1>>, <<1, 1>>, <<0, 1>>}) :
    LET s == stru[k]
        \* zero stands for a cell of the same volume
        D2 == IF f[1] = 0 THEN <<s.D[2], s.D[3], s.D[1]>> ELSE [q \in I3 |-> (s.D[q] * f[1]) \div f[2]]
    IN  IF s.k = "atom" \/ (\E q \in I3 : (f[1] > 0 /\ (s.D[q] * f[1]) % f[2] # 0) \/ D2[q] > 12 \/ D2[q] < 1 \/ (s.k = "crys" /\ D2[q] < 3)) \/ ~FitOps([s EXCEPT !.D = D2], s.ops)
           \* operations may exchange only steps of equal fractions
           \/ (\E n \in 1..Len(s.ops) : \E q, r \in I3 : s.ops[n].R[q][r] # 0 /\ D2[q] # D2[r] /\ f[1] = 0) THEN Skip
        ELSE SetStru(k, [s EXCEPT !.D = D2], "cell", <<D2>>, NoObs)
DoPrecision == \E k \in Pick(1..NSlot), t \in Pick(BOOLEAN) :
    LET s == stru[k] IN
    IF s.k # "crys" THEN Skip ELSE SetStru(k, [s EXCEPT !.tight = t], "precision", <<IF t THEN 1 ELSE 0>>, NoObs)
DoBadPrecision == \E k \in Pick(1..NSlot), v \in Pick({0, -1}) :
    IF stru[k].k # "crys" THEN Skip ELSE UNCHANGED vars /\ Log("badprecision", <<k, v>>, Refused)
\* the structure is replaced by a copy or by one that was saved and restored
DoCopy == \E k \in Pick(1..NSlot), j \in Pick(1..NSlot), w \in Pick({"clone", "save"}) :
    /\ stru' = [stru EXCEPT ![k] = stru[j]]
    /\ gen' = IF gen.slot = k THEN NoGen ELSE gen
    /\ Log(w, <<k, j>>, NoObs)

(* queries *)
EquivObs(s, i) == Tuples({e[1] \o <<e[2]>> : e \in Equiv(s, i)})
DoEquiv == \E k \in Pick(1..NSlot) :
    LET s == stru[k] IN
    IF s.at = <<>> THEN Skip
    ELSE \E i \in Pick(1..Len(s.at)) :
         LET iso == IF s.at[i].u = Diag(0, 0, 0) THEN s.at[i].f ELSE [any |-> 1]
             e == [refused |-> FALSE, iso |-> iso, eq |-> IF s.k = "crys" THEN EquivObs(s, i) ELSE <<>>, mult |-> Mult(s, i), occ |-> s.at[i].occ, t |-> s.at[i].t]
         IN  /\ UNCHANGED vars
             /\ Log("equiv", <<k, i - 1>>,
                    IF s.k = "crys" /\ UClear(s, i)
                    THEN e @@ [equ |-> Tuples({x[1] \o U6(UAt(s, i, x[1])) : x \in Equiv(s, i)})]
                    ELSE e)
\* mult first: the cache is filled by the query of another site
\* Images of a site within the symmetry precision (r2 + 1/2 squared) are one
\* site at their mean position.  Shapes where nearness is not an equivalence
\* or where the nearest image is ambiguous are not considered.
RedC(d, D) == LET m == d % D IN IF 2 * m > D THEN m - D ELSE m
Red(d, D) == <<RedC(d[1], D[1]), RedC(d[2], D[2]), RedC(d[3], D[3])>>
Shifts == ({-1, 0, 1} \X {-1, 0, 1}) \X {-1, 0, 1}
NearAny(g, d, D, r2) == \E m \in Shifts : Norm2(g, <<d[1] + m[1][1] * D[1], d[2] + m[1][2] * D[2], d[3] + m[2] * D[3]>>) <= r2
DoLoose == \E k \in Pick(1..NSlot), r2 \in Pick({1, 1, 2, 3, 4}) :
    LET s == stru[k] IN
    IF s.k # "crys" \/ s.at = <<>> \/ Jit(s) THEN Skip
    ELSE \E i \in Pick(1..Len(s.at)) :
         LET D == s.D
             Ns == 1..Len(Ops(s))
         IN  \E P \in {[n \in Ns |-> Img(s, i, n)[1]]} :
             \E d \in {[n \in Ns |-> [m \in Ns |-> Red(Sub3(P[m], P[n]), D)]]} :
             \E near \in {[n \in Ns |-> {m \in Ns : Norm2(s.g, d[n][m]) <= r2}]} :
             LET clear == \A n \in Ns : \A m \in Ns :
                            /\ m \in near[n] => (near[m] = near[n] /\ \A q \in I3 : 2 * Abs(d[n][m][q]) < D[q])
                            /\ NearAny(s.g, d[n][m], D, r2) => m \in near[n]
                 first == {n \in Ns : \A m \in near[n] : n <= m}
                 L == FoldSet(LAMBDA x, acc : x * acc, 1, {Cardinality(near[n]) : n \in first})
                 Mean(n) == LET f == L \div Cardinality(near[n]) IN
                    [q \in I3 |-> (L * P[n][q] + f * Sum(LAMBDA m : d[n][m][q], near[n])) % (L * D[q])]
             IN  IF ~clear THEN Skip
                 ELSE UNCHANGED vars /\ Log("loose", <<k, i - 1, r2, L>>,
                        [refused |-> FALSE, mult |-> Cardinality(first), pos |-> Tuples({Mean(n) : n \in first}), was |-> Mult(s, i), total |-> TRUE])
DoTotal == \E k \in Pick(1..NSlot) :
    LET s == stru[k] IN
    /\ UNCHANGED vars
    /\ Log("total", <<k>>, [refused |-> FALSE, occ |-> TotalOcc(s), density |-> IF s.k = "atom" THEN 0 ELSE TotalOcc(s),
                            mults |-> [i \in 1..Len(s.at) |-> Mult(s, i)]])
\* pair counter: bonds from every site to itself and to preceding ones
DoPairCount == \E k \in Pick(1..NSlot), lo \in Pick({-1, 2, 5}), hi \in Pick({4, 9, 14}) :
    LET s == stru[k]
        lo2 == IF Jit(s) THEN Max2(lo, 0) ELSE lo
        Iss == 1..Len(s.at)
    IN  /\ UNCHANGED vars
        /\ Log("paircount", <<k, lo2, hi>>,
               [refused |-> FALSE, count |-> Sum(LAMBDA i : NBonds(s, i, i, lo2, hi), Iss)
                                    + 2 * Sum(LAMBDA i : Sum(LAMBDA j : NBonds(s, i, j, lo2, hi), 1..(i - 1)), Iss)])
\* limits are inclusive, here they are exactly equal to some distances
DoExact == \E k \in Pick(1..NSlot), lo \in Pick(0..2), hi \in Pick(0..3) :
    LET s == stru[k]
        Iss == 1..Len(s.at)
        a == lo * lo - 1
        b == hi * hi
    IN  IF s.k # "atom" \/ s.at = <<>> THEN Skip
        ELSE \E i \in Pick(Iss) : \E one \in {[j \in Iss |-> NBonds(s, i, j, a, b)]} :
             /\ UNCHANGED vars
             /\ Log("exact", <<k, i - 1, lo, hi>>,
                    [refused |-> FALSE, sites |-> one, count |-> 2 * Sum(LAMBDA m : Sum(LAMBDA j : NBonds(s, m, j, a, b), 1..(m - 1)), Iss)])
\* lattice and reflection points
DoPoints == \E k \in Pick(1..NSlot), lo \in Pick({-2, -1, 0, 2, 7}), hi \in Pick({-1, 1, 6, 15, 40}) :
    LET g == stru[k].g
        b == MaxCoord(g, Max2(hi, 0))
        N == {n \in ((-b[1])..b[1]) \X ((-b[2])..b[2]) \X ((-b[3])..b[3]) : hi >= 0 /\ Norm2(g, n) <= hi /\ Norm2(g, n) > lo}
    IN  UNCHANGED vars /\ Log("points", <<Flat(g), lo, hi>>, [refused |-> FALSE, mno |-> Tuples(N)])
AdjM(g) == LET c(a, b, d, e) == g[a][b] * g[d][e] IN
    <<<<c(2, 2, 3, 3) - c(2, 3, 3, 2), c(1, 3, 3, 2) - c(1, 2, 3, 3), c(1, 2, 2, 3) - c(1, 3, 2, 2)>>,
      <<c(2, 3, 3, 1) - c(2, 1, 3, 3), c(1, 1, 3, 3) - c(1, 3, 3, 1), c(1, 3, 2, 1) - c(1, 1, 2, 3)>>,
      <<c(2, 1, 3, 2) - c(2, 2, 3, 1), c(1, 2, 3, 1) - c(1, 1, 3, 2), c(1, 1, 2, 2) - c(1, 2, 2, 1)>>>>
\* 1/d^2 = h adj(g) h / det(g)
DoReflections == \E k \in Pick(1..NSlot), lo \in Pick({-1, 0, 4, 10}), hi \in Pick({1, 9, 20, 35}) :
    LET g == stru[k].g
        a == AdjM(g)
        b == MaxCoord(a, hi)
        N == {n \in ((-b[1])..b[1]) \X ((-b[2])..b[2]) \X ((-b[3])..b[3]) : Norm2(a, n) <= hi /\ Norm2(a, n) > lo}
    IN  UNCHANGED vars /\ Log("reflections", <<Flat(g), Det(g), lo, hi>>, [refused |-> FALSE, mno |-> Tuples(N)])

-----------------------------------------------------------------------------
(* bond generator *)
GS == stru[gen.slot]
Lo(s, lo) == IF Jit(s) THEN Max2(lo, 0) ELSE lo
Visit(g2) == Sum(LAMBDA n : NBonds(GS, g2.anchor, g2.sel[n], g2.lo, g2.hi), 1..Len(g2.sel))
Config(g2, op, a) ==
    /\ gen' = g2
    /\ UNCHANGED stru
    /\ Log(op, a, [refused |-> FALSE, fin |-> g2.left = 0])
DoGen == \E k \in Pick(1..NSlot), hi \in Pick(3..MaxHi) :
    IF stru[k].at = <<>> THEN Skip
    ELSE LET n == Len(stru[k].at)
             g2 == [slot |-> k, anchor |-> 1, sel |-> [i \in 1..n |-> i], lo |-> Lo(stru[k], -1), hi |-> hi, left |-> 0, taken |-> FALSE]
         IN  /\ gen' = g2
             /\ UNCHANGED stru
             \* a new generator is finished and has no lower limit
             /\ Log("generator", <<k, g2.lo, hi>>, [refused |-> FALSE, fin |-> TRUE, start |-> <<TRUE, TRUE>>])
Live(A) == IF gen.slot = 0 THEN DoGen ELSE A
Fin(g2) == [g2 EXCEPT !.left = 0, !.taken = FALSE]
DoAnchor == Live(\E i \in Pick(1..Len(GS.at)) : Config(Fin([gen EXCEPT !.anchor = i]), "anchor", <<i - 1>>))
DoRange == Live(\E i \in Pick(1..(Len(GS.at) + 1)), j \in Pick(1..(Len(GS.at) + 1)) :
    LET a == Min2(i, j)
        b == Max2(i, j)
    IN  Config(Fin([gen EXCEPT !.sel = [n \in 1..(b - a) |-> a + n - 1]]), "range", <<a - 1, b - 1>>))
RECURSIVE RandSel(_)
RandSel(S) == IF S = {} THEN <<>>
              ELSE LET x == RandomElement(S) IN (IF RandomElement(1..3) = 1 THEN <<>> ELSE <<x>>) \o RandSel(S \ {x})
DoSelect == Live(\E sel \in {RandSel(1..Len(GS.at))} :
    Config(Fin([gen EXCEPT !.sel = sel]), "select", <<[n \in 1..Len(sel) |-> sel[n] - 1]>>))
DoLo == Live(\E lo0 \in Pick(LoChoices) : LET lo == Lo(GS, lo0) IN
    Config(IF lo = gen.lo THEN gen ELSE Fin([gen EXCEPT !.lo = lo]), "glo", <<lo>>))
\* lower bound from one end of the choices to the other
DoLoFlip == Live(LET S == {lo \in LoChoices : IF gen.lo > 5 THEN lo <= 2 ELSE lo > 5} IN
    IF S = {} THEN DoLo
    ELSE \E lo0 \in Pick(S) : LET lo == Lo(GS, lo0) IN Config(IF lo = gen.lo THEN gen ELSE Fin([gen EXCEPT !.lo = lo]), "glo", <<lo>>))
DoHi == Live(\E hi \in Pick(0..MaxHi) :
    Config(IF hi = gen.hi THEN gen ELSE Fin([gen EXCEPT !.hi = hi]), "ghi", <<hi>>))
DoRewind == Live(LET n == Visit(gen) IN Config([gen EXCEPT !.left = n, !.taken = FALSE], "rewind", <<>>))
DoTake == Live(\E n \in Pick(1..6) :
    LET m == Min2(n, gen.left) IN
    /\ gen' = [gen EXCEPT !.left = @ - m, !.taken = @ \/ m > 0]
    /\ UNCHANGED stru
    /\ Log("take", <<n>>, [refused |-> FALSE, fin |-> gen.left = m, n |-> m, ok |-> TRUE]))
\* the bonds visited since rewind including those that remain
BondTuples(s, g2) == UNION {{<<g2.sel[n]>> \o b[1] \o <<b[2]>> : b \in Bonds(s, g2.anchor, g2.sel[n], g2.lo, g2.hi)} : n \in 1..Len(g2.sel)}
UTuples(s, g2) == UNION {{<<g2.sel[n]>> \o b[1] \o U6(USite(s, g2.sel[n], Add3(Anchor(s, g2.anchor), b[1]))) : b \in Bonds(s, g2.anchor, g2.sel[n], g2.lo, g2.hi)} : n \in 1..Len(g2.sel)}
DoCollect == Live(
    LET e == [refused |-> FALSE, fin |-> TRUE, ok |-> TRUE, bonds |-> Tuples(BondTuples(GS, gen)), mult |-> Mult(GS, gen.anchor), site0 |-> gen.anchor]
        clear == GS.k # "crys" \/ \A i \in 1..Len(GS.at) : UClear(GS, i)
        u0 == IF GS.k = "crys" THEN UOf(GS, gen.anchor, 1) ELSE GS.at[gen.anchor].u
    IN  /\ UNCHANGED stru
        /\ gen' = [gen EXCEPT !.left = 0, !.taken = FALSE]
        /\ Log(IF gen.left = 0 /\ ~gen.taken THEN "all" ELSE "collect", <<>>,
               IF clear THEN e @@ [us |-> Tuples(UTuples(GS, gen)), u0 |-> U6(u0)] ELSE e))
\* rewind and visit everything
DoAll == Live(
    LET e == [refused |-> FALSE, fin |-> TRUE, ok |-> TRUE, bonds |-> Tuples(BondTuples(GS, gen)), mult |-> Mult(GS, gen.anchor), site0 |-> gen.anchor]
    IN  /\ UNCHANGED stru
        /\ gen' = [gen EXCEPT !.left = 0, !.taken = FALSE]
        /\ Log("all", <<>>, e))

Group2(g) ==
    CASE g = "new" -> DoNew
      [] g = "atom" -> DoAtom
      [] g = "ops" -> DoOps
      [] g = "cell" -> DoCell
      [] g = "precision" -> DoPrecision
      [] g = "badprecision" -> DoBadPrecision
      [] g = "copy" -> DoCopy
      [] g = "equiv" -> DoEquiv
      [] g = "loose" -> DoLoose
      [] g = "total" -> DoTotal
      [] g = "paircount" -> DoPairCount
      [] g = "exact" -> DoExact
      [] g = "points" -> DoPoints
      [] g = "reflections" -> DoReflections
      [] g = "gen" -> DoGen
      [] g = "anchor" -> DoAnchor
      [] g = "range" -> DoRange
      [] g = "select" -> DoSelect
      [] g = "lo" -> DoLo
      [] g = "loflip" -> DoLoFlip
      [] g = "hi" -> DoHi
      [] g = "rewind" -> DoRewind
      [] g = "take" -> DoTake
      [] g = "collect" -> DoCollect
      [] g = "all" -> DoAll
Init ==
    /\ stru = [k \in 1..NSlot |-> NoGeom]
    /\ gen = NoGen
    /\ hist = <<>>
Next ==
    /\ Unfinished
    /\ IF Mode = "gen" /\ Len(hist) < NSlot
       THEN \E kind \in Pick(Kinds) : \E s \in {RandGeom(kind)} : NewStru(Len(hist) + 1, s)
       ELSE \E g \in Pick(1..Len(Weights)) : Group2(Weights[g])
Spec == Init /\ [][Next]_<<vars, hist>>
=============================================================================
