------------------------------ MODULE ObjCryst ------------------------------
(* Crystals and molecules of the ObjCryst library and their conversion to  *)
(* structures.  A crystal is a named space group, a cell, a list of        *)
(* scattering powers and a list of scatterers at rational positions, some  *)
(* are dummies without any scattering power.  A converted structure is a   *)
(* snapshot: it shares nothing with its source and has all properties of   *)
(* the structures in Bonds.                                                *)
EXTENDS Bonds
CONSTANTS NSrc, Groups, SrcKinds, MaxAt
VARIABLE src     \* crystals and molecules
ovars == <<stru, gen, src>>
OView == ovars

-----------------------------------------------------------------------------
(* space groups by their generators *)
M2y == Diag(-1, 1, -1)
M2z == Diag(-1, -1, 1)
Rd == <<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, -1>>>>     \* y, x, -z
Rm == <<<<0, -1, 0>>, <<-1, 0, 0>>, <<0, 0, 1>>>>    \* -y, -x, z
RTm == <<<<0, 1, 0>>, <<1, 0, 0>>, <<0, 0, 1>>>>     \* y, x, z
R4m == <<<<0, 1, 0>>, <<-1, 0, 0>>, <<0, 0, -1>>>>   \* y, -x, -z
InvAt(a, b, c) == Op(Diag(-1, -1, -1), a, b, c)
CenI == Op(IdR, 6, 6, 6)
CenC == Op(IdR, 6, 6, 0)
CenF == {Op(IdR, 0, 6, 6), Op(IdR, 6, 0, 6)}
CenR == Op(IdR, 8, 4, 4)
P3 == Op(RPerm, 0, 0, 0)
Sg(name, sys, gens) == [sg |-> name, sys |-> sys, gens |-> gens]
SgList == <<
    Sg("P 1", "tric", {}),
    Sg("P -1", "tric", {Inv}),
    Sg("P 1 2 1", "mono", {Op(M2y, 0, 0, 0)}),
    Sg("P 1 21 1", "mono", {Op(M2y, 0, 6, 0)}),
    Sg("P 1 21/c 1", "mono", {Op(M2y, 0, 6, 6), Inv}),
    Sg("C 1 2/m 1", "mono", {Op(M2y, 0, 0, 0), Inv, CenC}),
    Sg("C 1 c 1", "mono", {Op(Diag(1, -1, 1), 0, 0, 6), CenC}),
    Sg("P 21 21 21", "orth", {Op(M2z, 6, 0, 6), Op(M2y, 0, 6, 6)}),
    Sg("P n m a", "orth", {Op(M2z, 6, 0, 6), Op(M2y, 0, 6, 0), Inv}),
    Sg("C m c 21", "orth", {Op(M2z, 0, 0, 6), Op(Diag(-1, 1, 1), 0, 0, 0), CenC}),
    Sg("I m m m", "orth", {Op(M2z, 0, 0, 0), Op(M2y, 0, 0, 0), Inv, CenI}),
    Sg("F m m 2", "orth", {Op(M2z, 0, 0, 0), Op(Diag(1, -1, 1), 0, 0, 0)} \cup CenF),
    Sg("P n n n :1", "orth", {Op(M2z, 0, 0, 0), Op(M2y, 0, 0, 0), InvAt(6, 6, 6)}),
    Sg("P n n n :2", "orth", {Op(M2z, 6, 6, 0), Op(M2y, 6, 0, 6), Inv}),
    Sg("F d d d :1", "orth", {Op(M2z, 0, 0, 0), Op(M2y, 0, 0, 0), InvAt(3, 3, 3)} \cup CenF),
    Sg("P 41", "tetr", {Op(R4, 0, 0, 3)}),
    Sg("P 4/m", "tetr", {Op(R4, 0, 0, 0), Inv}),
    Sg("P 4/n :1", "tetr", {Op(R4, 6, 6, 0), InvAt(6, 6, 0)}),
    Sg("P 4/n :2", "tetr", {Op(R4, 6, 0, 0), Inv}),
    Sg("I 41/a :1", "tetr", {Op(R4, 0, 6, 3), InvAt(0, 6, 3), CenI}),
    Sg("I -4", "tetr", {Op(R4m, 0, 0, 0), CenI}),
    Sg("P -4 21 m", "tetr", {Op(R4m, 0, 0, 0), Op(M2y, 6, 6, 0)}),
    Sg("P 31", "hex", {Op(R3f, 0, 0, 4)}),
    Sg("P -3 m 1", "hex", {Op(R3f, 0, 0, 0), Op(Rd, 0, 0, 0), Inv}),
    Sg("R -3 :H", "hex", {Op(R3f, 0, 0, 0), Inv, CenR}),
    Sg("P 61", "hex", {Op(R6, 0, 0, 2)}),
    Sg("P 63/m", "hex", {Op(R6, 0, 0, 6), Inv}),
    Sg("P 6 m m", "hex", {Op(R6, 0, 0, 0), Op(Rm, 0, 0, 0)}),
    Sg("P 2 3", "cub", {P3, Op(M2z, 0, 0, 0)}),
    Sg("P 21 3", "cub", {P3, Op(M2z, 6, 0, 6)}),
    Sg("P a -3", "cub", {P3, Op(M2z, 6, 0, 6), Inv}),
    Sg("P -4 3 m", "cub", {P3, Op(M2z, 0, 0, 0), Op(RTm, 0, 0, 0)}),
    Sg("P n -3 :1", "cub", {P3, Op(M2z, 0, 0, 0), InvAt(6, 6, 6)}),
    Sg("I 2 3", "cub", {P3, Op(M2z, 0, 0, 0), CenI}),
    Sg("I a -3", "cub", {P3, Op(M2z, 6, 0, 6), Inv, CenI}),
    Sg("F 2 3", "cub", {P3, Op(M2z, 0, 0, 0)} \cup CenF) >>
Names == {n \in 1..Len(SgList) : Groups = {} \/ SgList[n].sg \in Groups}
\* all operations, by the number of the group
AllOps == [n \in Names |-> Group(SgList[n].gens)]
OpSeqs == [n \in Names |-> <<Id>> \o SetToSeq(AllOps[n] \ {Id})]

-----------------------------------------------------------------------------
(* sources [k, n, g, D, pw, at]: n is the space group (0 for a molecule),  *)
(* pw the scattering powers [t, iso, b, u], at the scatterers              *)
(* [p, occ, w], w = 0 for a dummy                                          *)
OSkip == UNCHANGED ovars /\ Log("nop", <<>>, NoObs)
Power(n) == [t |-> RandomElement({"C", "Na", "O"}), iso |-> RandomElement(1..2) = 1, b |-> RandomElement(0..3), u |-> RandomElement(USet)]
RECURSIVE Powers(_)
Powers(n) == IF n = 0 THEN <<>> ELSE Append(Powers(n - 1), Power(n))
SAtom(D, np) == [p |-> RandPos(D, RandomElement(1..2) = 1), occ |-> IF RandomElement(1..2) = 1 THEN 4 ELSE RandomElement(GOcc),
                 w |-> IF RandomElement(1..6) = 1 THEN 0 ELSE RandomElement(1..np)]
RECURSIVE SAtoms(_, _, _)
SAtoms(n, D, np) == IF n = 0 THEN <<>> ELSE Append(SAtoms(n - 1, D, np), SAtom(D, np))
NoSrc == [k |-> "mol", n |-> 0, g |-> IdR, D |-> <<6, 6, 6>>, pw |-> <<>>, at |-> <<>>]
RandSrc(k) ==
    LET n == IF k = "mol" THEN 0 ELSE RandomElement(Names)
        g == IF k = "mol" THEN IdR ELSE RandomElement(Grams(SgList[n].sys))
        D == IF k = "mol" THEN <<6, 6, 6>> ELSE FixCell(CellOf(SgList[n].sys), OpSeqs[n])
        np == RandomElement(1..3)
    IN  [k |-> k, n |-> n, g |-> g, D |-> D, pw |-> Powers(np), at |-> SAtoms(RandomElement(0..MaxAt), D, np)]
\* the structure of a source
Real(x) == SelectSeq([i \in 1..Len(x.at) |-> i], LAMBDA i : x.at[i].w # 0)
Site(x, i) ==
    LET a == x.at[i]
        w == x.pw[a.w]
        full == ~w.iso \/ x.k = "mol"
    IN  [t |-> w.t, p |-> a.p, j |-> Zero3, occ |-> a.occ,
         u |-> IF ~w.iso THEN w.u ELSE IF x.k = "mol" THEN Diag(w.b, w.b, w.b) ELSE Diag(0, 0, 0),
         f |-> IF w.iso /\ x.k = "crys" THEN w.b ELSE 0]
Snapshot(x) ==
    LET R == Real(x)
    IN  [k |-> IF x.k = "mol" THEN "atom" ELSE "crys", g |-> x.g, D |-> x.D, tight |-> FALSE,
         ops |-> IF x.k = "mol" THEN <<>> ELSE OpSeqs[x.n],
         at |-> [i \in 1..Len(R) |-> Site(x, R[i])]]
\* what can be seen of a structure right after the conversion
SiteObs(x, i) ==
    LET a == x.at[i]
        w == x.pw[a.w]
    IN  a.p \o <<a.occ>> \o (IF w.iso THEN <<0, w.b>> ELSE <<1>> \o U6(w.u))
ConvertObs(x) ==
    LET R == Real(x)
    IN  [refused |-> FALSE,
         types |-> [i \in 1..Len(R) |-> x.pw[x.at[R[i]].w].t],
         sites |-> [i \in 1..Len(R) |-> SiteObs(x, R[i])],
         ops |-> IF x.k = "mol" THEN <<>> ELSE Tuples({OpArgs(o) : o \in AllOps[x.n]}),
         nops |-> IF x.k = "mol" THEN 0 ELSE Cardinality(AllOps[x.n])]
\* number of pairs in the structure s, every pair twice
PairCount(s, lo, hi) ==
    LET Iss == 1..Len(s.at)
    IN  Sum(LAMBDA i : NBonds(s, i, i, lo, hi), Iss) + 2 * Sum(LAMBDA i : Sum(LAMBDA j : NBonds(s, i, j, lo, hi), 1..(i - 1)), Iss)

-----------------------------------------------------------------------------
PwArgs(w) == <<w.t, IF w.iso THEN 1 ELSE 0, w.b>> \o U6(w.u)
SAtArgs(a) == a.p \o <<a.occ, a.w>>
\* a space in the name is written as underscore
SrcArgs(x) == <<x.k, IF x.n = 0 THEN "P 1" ELSE SgList[x.n].sg, Flat(x.g), x.D, Len(x.pw)>> \o Flat([i \in 1..Len(x.pw) |-> PwArgs(x.pw[i])])
              \o <<Len(x.at)>> \o Flat([i \in 1..Len(x.at) |-> SAtArgs(x.at[i])])
SetSrc(k, x, op, a) == src' = [src EXCEPT ![k] = x] /\ UNCHANGED vars /\ Log(op, <<k>> \o a, NoObs)
DoSrc == \E k \in Pick(1..NSrc), kind \in Pick(SrcKinds) : \E x \in {RandSrc(kind)} : SetSrc(k, x, "src", SrcArgs(x))
DoPower == \E k \in Pick(1..NSrc) :
    LET x == src[k] IN
    IF x.pw = <<>> THEN OSkip
    ELSE \E i \in Pick(1..Len(x.pw)) : \E w \in {[Power(i) EXCEPT !.t = x.pw[i].t]} :
         SetSrc(k, [x EXCEPT !.pw[i] = w], "power", <<i>> \o PwArgs(w))
\* (dummies of a crystal have no parameters, and ObjCryst moves new
\* coordinates towards the first cell)
DoMove == \E k \in Pick(1..NSrc) :
    LET x == src[k] IN
    LET C == {i \in 1..Len(x.at) : x.k = "mol" \/ x.at[i].w # 0} IN
    IF C = {} THEN OSkip
    ELSE \E i \in Pick(C) : \E a \in {[SAtom(x.D, 1) EXCEPT !.w = x.at[i].w, !.p = IF x.k = "mol" THEN @ ELSE Mod3(@, x.D)]} :
         SetSrc(k, [x EXCEPT !.at[i] = a], "move", <<i>> \o SAtArgs(a))
DoAdd == \E k \in Pick(1..NSrc) :
    LET x == src[k] IN
    IF Len(x.at) >= MaxAt \/ x.pw = <<>> THEN OSkip
    ELSE \E a \in {SAtom(x.D, Len(x.pw))} : SetSrc(k, [x EXCEPT !.at = Append(@, a)], "add", SAtArgs(a))
DoRemove == \E k \in Pick(1..NSrc) :
    LET x == src[k] IN
    IF x.at = <<>> THEN OSkip
    ELSE \E i \in Pick(1..Len(x.at)) : SetSrc(k, [x EXCEPT !.at = SeqRemoveAt(@, i)], "remove", <<i>>)
DoConvert == \E j \in Pick(1..NSrc), k \in Pick(1..NSlot) :
    LET x == src[j] IN
    IF x.pw = <<>> THEN OSkip
    ELSE /\ stru' = [stru EXCEPT ![k] = Snapshot(x)]
         /\ gen' = IF gen.slot = k THEN NoGen ELSE gen
         /\ UNCHANGED src
         /\ Log("convert", <<k, j>>, ConvertObs(x))
\* evaluate pairs directly in the source
DoSrcCount == \E j \in Pick(1..NSrc), lo \in Pick({-1, 2, 5}), hi \in Pick({4, 9}) :
    LET x == src[j] IN
    IF x.pw = <<>> THEN OSkip
    ELSE UNCHANGED ovars /\ Log("srccount", <<j, lo, hi>>, [refused |-> FALSE, count |-> PairCount(Snapshot(x), lo, hi)])
OActOf(g) ==
    CASE g = "src" -> DoSrc
      [] g = "power" -> DoPower
      [] g = "move" -> DoMove
      [] g = "add" -> DoAdd
      [] g = "remove" -> DoRemove
      [] g = "convert" -> DoConvert
      [] g = "srccount" -> DoSrcCount
      [] OTHER -> Group2(g) /\ UNCHANGED src
OInit == Init /\ src = [k \in 1..NSrc |-> NoSrc]
ONext == /\ Unfinished
         /\ IF Len(hist) = 0 THEN DoSrc ELSE \E g \in Pick(1..Len(Weights)) : OActOf(Weights[g])
OSpec == OInit /\ [][ONext]_<<ovars, hist>>
\* structures of different sources and of the same source at other times are
\* independent: an edit of a source changes no structure
SnapshotKeeps == [][src' # src => stru' = stru]_<<ovars, hist>>
=============================================================================
