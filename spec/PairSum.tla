------------------------------ MODULE PairSum ------------------------------
(* A calculator that sums a quantity over pairs of sites, the structures   *)
(* it evaluates, its masks, range, evaluator and CPU shares.               *)
(*                                                                         *)
(* The specification has no cache: an evaluation gives the sum over the    *)
(* pairs of the structure as it is at the time of the call.  Whatever      *)
(* evaluator, history of earlier evaluations or split in shares is used    *)
(* must not be visible.                                                    *)
EXTENDS Masks
CONSTANTS Weights,    \* sequence of names of operation groups, repeated ones are more likely
          NSlot,      \* number of structure slots
          Kinds,      \* structure kinds in use, "atom" and "per"
          MinN, MaxN, \* sizes of new structures
          Box,        \* coordinates are in 0..Box
          RChoices,   \* radii r such that r^2 = n + 1/2
          CalcTypes,  \* subset of {"H", "F", "G", "C"}
          EvTypes,    \* evaluator types
          MaxCpu,
          InitStru    \* initial structures

VARIABLES stru,  \* slot -> structure
          calc,  \* configuration of the calculator
          mask,  \* mask record
          cur    \* structure assigned to the calculator, slot number or a private copy
vars == <<stru, calc, mask, cur>>
View == vars

W(t) == CASE t = "A" -> 2 [] t = "B" -> 3 [] t = "c" -> 7 [] OTHER -> 11
TypeNo(t) == CASE t = "A" -> 1 [] t = "B" -> 2 [] t = "c" -> 3 [] OTHER -> 4

-----------------------------------------------------------------------------
(* structures: [k kind, c cell, at atoms, ov range override, bad failure]   *)
Stru(k, c, at) == [k |-> k, c |-> c, at |-> at, ov |-> 0, bad |-> 0]
NoStru == Stru("atom", <<0, 0, 0>>, <<>>)
Types(s) == [i \in 1..Len(s.at) |-> s.at[i].t]
Sq(x) == x * x
\* coordinate differences along one axis for all images that may be in range
Along(s, i, j, q, hi) ==
    LET d == s.at[j].p[q] - s.at[i].p[q] IN
    IF s.k = "atom" THEN {d}
    ELSE {x \in {d + n * s.c[q] : n \in (-4)..4} : x * x <= hi}
D2(v) == v[1] * v[1] + v[2] * v[2] + v[3] * v[3]

\* directed pairs <<i, j, d2, number of images>> that are in range and not masked
PairTerms(s, i, j, lo, hi) ==
    LET V == {v \in Along(s, i, j, 1, hi) \X Along(s, i, j, 2, hi) \X Along(s, i, j, 3, hi) :
                 D2(v) > 0 /\ D2(v) > lo /\ D2(v) <= hi}
    IN  {<<i, j, d, Cardinality({v \in V : D2(v) = d})>> : d \in {D2(v) : v \in V}}
Terms(s, m, lo, hi) ==
    LET I == 1..Len(s.at)
    IN  UNION {IF m.pm[PairOf(i - 1, j - 1)] THEN PairTerms(s, i, j, lo, hi) ELSE {} : i \in I, j \in I}

\* value as a sorted sequence of <<key, value>>
Value(type, s, m, lo, hi) ==
    LET T == Terms(s, m, lo, hi)
        w(t) == W(s.at[t[1]].t) * W(s.at[t[2]].t) * t[4]
        wg(t) == W(s.at[t[2]].t) * t[4]
    IN  CASE type \in {"H", "F"} ->
               SortedTuples({<<d, Sum(w, {t \in T : t[3] = d})>> : d \in {t[3] : t \in T}})
          [] type = "G" ->
               SortedTuples({<<id[1], id[2], Sum(wg, {t \in T : t[1] = id[1] /\ t[3] = id[2]})>>
                                 : id \in {<<t[1], t[3]>> : t \in T}})
          [] type = "C" -> <<Sum(LAMBDA t : t[4], T)>>

-----------------------------------------------------------------------------
Flat3(s) == Flat([i \in 1..Len(s.at) |-> <<TypeNo(s.at[i].t)>> \o s.at[i].p])
NewArgs(k, s) == <<k, s.k, s.c, Flat3(s), s.ov, s.bad>>

RandAtom(x) == [t |-> RandomElement(MaskTypes), p |-> <<RandomElement(0..Box), RandomElement(0..Box), RandomElement(0..Box)>>]
RECURSIVE RandAtoms(_)
RandAtoms(n) == IF n = 0 THEN <<>> ELSE Append(RandAtoms(n - 1), RandAtom(n))
RandCell(k) == IF k = "atom" THEN <<0, 0, 0>> ELSE <<RandomElement(4..6), RandomElement(4..6), RandomElement(4..6)>>
\* TLC evaluates these definitions again for each use, bind the result once.
RandStru(kinds) ==
    CHOOSE s \in {LET k == RandomElement(kinds) IN
        [k |-> k, c |-> RandCell(k), at |-> RandAtoms(RandomElement(MinN..MaxN)),
         ov |-> 0, bad |-> 0]} : TRUE

CurStru == IF cur.slot = 0 THEN cur.own ELSE stru[cur.slot]
\* keep the old object when slot k gets a new one
Detach(k) == IF cur.slot = k THEN [slot |-> 0, own |-> stru[k], ok |-> cur.ok] ELSE cur

-----------------------------------------------------------------------------
(* structure operations *)
NewStru(k, s) ==
    /\ stru' = [stru EXCEPT ![k] = s]
    /\ cur' = Detach(k)
    /\ UNCHANGED <<calc, mask>>
    /\ Log("new", NewArgs(k, s), NoObs)
\* edits in place keep the kind of the structure
Edit(k, s, op, a) ==
    /\ stru' = [stru EXCEPT ![k] = s]
    /\ UNCHANGED <<calc, mask, cur>>
    /\ Log(op, <<k>> \o a, NoObs)
Skip == UNCHANGED vars /\ Log("nop", <<>>, NoObs)

DoNew == \E k \in Pick(1..NSlot) : \E s \in {RandStru(Kinds)} : NewStru(k, s)
\* new object with mostly the same content as another slot
DoVariant ==
    \E k \in Pick(1..NSlot), j \in Pick(1..NSlot) :
    LET s == stru[j]
        n == Len(s.at)
    IN  IF n = 0 THEN Skip
        ELSE \E i \in Pick(1..n), i2 \in Pick(1..n), w \in Pick({"same", "same", "move", "drop", "add", "swap", "rev", "two"}) :
             \E x \in {RandAtom(0)} :
             LET at == CASE w = "same" -> s.at
                         [] w = "move" -> [s.at EXCEPT ![i] = x]
                         [] w = "two" -> [s.at EXCEPT ![i] = x, ![i2] = [t |-> x.t, p |-> <<x.p[2], x.p[3], x.p[1]>>]]
                         [] w = "drop" -> IF n > MinN THEN SeqRemoveAt(s.at, i) ELSE s.at
                         [] w = "add" -> IF n < MaxN THEN SeqInsertAt(s.at, i, x) ELSE s.at
                         [] w = "swap" -> [s.at EXCEPT ![i] = s.at[i2], ![i2] = s.at[i]]
                         [] w = "rev" -> [q \in 1..n |-> s.at[n + 1 - q]]
             IN  NewStru(k, [s EXCEPT !.at = at, !.bad = 0])
DoEdit ==
    \E k \in Pick(1..NSlot), w \in Pick({"atom", "atom", "typ", "erase", "insert", "append", "swap", "assign", "clear"}) :
    LET s == stru[k]
        n == Len(s.at)
        w2 == IF w = "clear" /\ n % 3 # 0 THEN "atom" ELSE w
    IN  CASE w2 = "atom" -> IF n = 0 THEN Skip ELSE \E i \in Pick(1..n) : \E x \in {RandAtom(0)} :
                  Edit(k, [s EXCEPT !.at[i] = x], "atom", <<i - 1, TypeNo(x.t)>> \o x.p)
          [] w2 = "typ" -> IF n = 0 THEN Skip ELSE \E i \in Pick(1..n), t \in Pick(MaskTypes) :
                  Edit(k, [s EXCEPT !.at[i].t = t], "typ", <<i - 1, TypeNo(t)>>)
          [] w2 = "erase" -> IF n <= MinN THEN Skip ELSE \E i \in Pick(1..n) :
                  Edit(k, [s EXCEPT !.at = SeqRemoveAt(s.at, i)], "erase", <<i - 1>>)
          [] w2 = "insert" -> IF n >= MaxN THEN Skip ELSE \E i \in Pick(1..(n + 1)) : \E x \in {RandAtom(0)} :
                  Edit(k, [s EXCEPT !.at = SeqInsertAt(s.at, i, x)], "insert", <<i - 1, TypeNo(x.t)>> \o x.p)
          [] w2 = "append" -> IF n >= MaxN THEN Skip ELSE \E x \in {RandAtom(0)} :
                  Edit(k, [s EXCEPT !.at = Append(s.at, x)], "append", <<TypeNo(x.t)>> \o x.p)
          [] w2 = "swap" -> IF n < 2 THEN Skip ELSE \E i \in Pick(1..n), j \in Pick(1..n) :
                  Edit(k, [s EXCEPT !.at[i] = s.at[j], !.at[j] = s.at[i]], "swap", <<i - 1, j - 1>>)
          [] w2 = "assign" -> \E a \in {RandAtoms(RandomElement(MinN..MaxN))} :
                  Edit(k, [s EXCEPT !.at = a], "assign", <<Flat3([s EXCEPT !.at = a])>>)
          [] w2 = "clear" -> Edit(k, [s EXCEPT !.at = <<>>], "clear", <<>>)
DoCell == \E k \in Pick(1..NSlot) :
    IF stru[k].k # "per" THEN Skip
    ELSE \E c \in {RandCell("per")} : Edit(k, [stru[k] EXCEPT !.c = c], "cell", <<c>>)
\* a structure that customizes the calculator when it is assigned
DoOverride == \E k \in Pick(1..NSlot), r \in Pick(RChoices \cup {0}) :
    Edit(k, [stru[k] EXCEPT !.ov = r], "override", <<r>>)
\* a structure that fails, 1 in the customization, 2 when its bonds are generated
DoBad == \E k \in Pick(1..NSlot), b \in Pick(0..2) :
    Edit(k, [stru[k] EXCEPT !.bad = b], "bad", <<b>>)

-----------------------------------------------------------------------------
(* configuration *)
Config(c, m, op, a, e) == /\ calc' = c /\ mask' = m /\ UNCHANGED <<stru, cur>> /\ Log(op, a, e)
MaskE(m) == IF m.fresh THEN [refused |-> FALSE, pm |-> MaskObs(m), tm |-> TMaskObs(m)]
            ELSE [refused |-> FALSE, tm |-> TMaskObs(m)]
DoRmin == \E r \in Pick(RChoices \cup {-1}) : Config([calc EXCEPT !.lo = r], mask, "rmin", <<r>>, NoObs)
DoRmax == \E r \in Pick(RChoices) : Config([calc EXCEPT !.hi = r], mask, "rmax", <<r>>, NoObs)
DoEvaluator == \E t \in Pick(EvTypes) :
    IF t = calc.ev \/ calc.type # "C" \/ t = "BASIC"
    THEN Config([calc EXCEPT !.ev = t], mask, "evaluator", <<t>>, [refused |-> FALSE, evt |-> t])
    ELSE Config(calc, mask, "evaluator", <<t>>, [refused |-> TRUE, evt |-> calc.ev])
MaxIdx == IF Mode = "gen" THEN MaxI ELSE 2
Cnt == Len(CurStru.at)
ConfigMask(m, op, a) == IF cur.ok THEN Config(calc, m, op, a, MaskE(m)) ELSE Skip
DoMaskAll == \E v \in Pick(BOOLEAN) : LET m == MaskAll(mask, v) IN Config(calc, m, "maskall", <<v>>, MaskE(m))
DoInvert == LET m == MaskInvert(mask) IN Config(calc, m, "invert", <<>>, MaskE(m))
DoPairMask == \E i \in Pick(0..MaxIdx), j \in Pick(0..MaxIdx), v \in Pick(BOOLEAN) :
    ConfigMask(SetPairMask(mask, i, j, v, Cnt), "pairmask", <<i, j, v>>)
DoSiteMask == \E i \in Pick(0..MaxIdx), v \in Pick(BOOLEAN), left \in Pick(BOOLEAN), neg \in Pick({-1, -2}) :
    ConfigMask(SetPairMask(mask, i, -1, v, Cnt), "pairmask", IF left THEN <<i, neg, v>> ELSE <<neg, i, v>>)
DoTypeMask == \E s \in Pick(MaskTypes), t \in Pick(MaskTypes), v \in Pick(BOOLEAN) :
    LET m == SetTypeMask(mask, s, t, v) IN Config(calc, m, "typemask", <<s, t, v>>, MaskE(m))
DoTypeAllMask == \E s \in Pick(MaskTypes \cup {ALL}), v \in Pick(BOOLEAN), left \in Pick(BOOLEAN), all \in Pick({ALL, "ALL"}) :
    LET m == SetTypeMask(mask, s, ALL, v) IN
    Config(calc, m, "typemask", IF left THEN <<s, all, v>> ELSE <<all, s, v>>, MaskE(m))

-----------------------------------------------------------------------------
(* evaluation *)
Assigned(s) == [calc EXCEPT !.hi = IF s.ov > 0 THEN s.ov ELSE calc.hi]
ValueOf(s, m, c) == Value(c.type, s, m, c.lo, c.hi)
\* assign structure s, c2 is where the calculator keeps it, then evaluate
EvalStru(s, c2, op, a) ==
    IF s.bad # 0
    THEN \* the assignment is cut short by the exception and so are later masks,
         \* only a new structure makes the state certain again
         /\ calc' = IF s.bad = 1 THEN calc ELSE Assigned(s)
         /\ mask' = IF s.bad = 1 THEN mask ELSE MaskResolve(mask, Types(s))
         /\ cur' = [c2 EXCEPT !.ok = FALSE]
         /\ UNCHANGED stru
         /\ Log(op, a, Refused)
    ELSE LET m == MaskResolve(mask, Types(s))
             c == Assigned(s)
         IN  /\ calc' = c
             /\ mask' = m
             /\ cur' = [c2 EXCEPT !.ok = TRUE]
             /\ UNCHANGED stru
             /\ Log(op, a, IF c.par THEN NoObs
                           ELSE [refused |-> FALSE, value |-> ValueOf(s, m, c), pm |-> MaskObs(m)])
DoEval == \E k \in Pick(1..NSlot) : EvalStru(stru[k], [slot |-> k, own |-> NoStru, ok |-> TRUE], "eval", <<k>>)
DoEvalSame == IF ~cur.ok THEN Skip ELSE EvalStru(CurStru, cur, "evalsame", <<>>)
\* evaluate, then merge the result once more: it doubles, but does not spoil what follows
DoAbsorb == IF ~cur.ok \/ calc.par \/ calc.type = "C" \/ CurStru.bad # 0 THEN Skip
            ELSE LET s == CurStru
                     m == MaskResolve(mask, Types(s))
                     c == Assigned(s)
                 IN  /\ calc' = c
                     /\ mask' = m
                     /\ UNCHANGED <<stru, cur>>
                     /\ Log("absorb", <<>>, [refused |-> FALSE, value |-> ValueOf(s, m, c), doubled |-> TRUE, pm |-> MaskObs(m)])
\* explicit assignment zeroes the value
DoAssign == \E k \in Pick(1..NSlot) :
    LET s == stru[k]
        m == MaskResolve(mask, Types(s))
        c2 == [slot |-> k, own |-> NoStru, ok |-> s.bad # 1]
    IN  /\ UNCHANGED stru
        /\ cur' = c2
        /\ IF s.bad = 1
           THEN UNCHANGED <<calc, mask>> /\ Log("setstru", <<k>>, Refused)
           ELSE /\ calc' = Assigned(s)
                /\ mask' = m
                /\ Log("setstru", <<k>>, [refused |-> FALSE, pm |-> MaskObs(m),
                                          value |-> IF calc.type = "C" THEN <<0>> ELSE <<>>])
\* evaluation as one of several shares, value is a part of the total
DoShare == \E n \in Pick(2..MaxCpu) : \E i \in Pick(0..(n - 1)) :
    Config([calc EXCEPT !.par = TRUE], mask, "share", <<i, n>>, NoObs)
DoUnshare == IF calc.par THEN Config([calc EXCEPT !.par = FALSE], mask, "share", <<0, 1>>, NoObs) ELSE Skip
DoBadShare == \E n \in Pick({0, -1}) : Config(calc, mask, "share", <<0, n>>, Refused)
\* start n worker calculators as copies of the calculator
DoWorkers == IF calc.par \/ calc.type = "C" THEN Skip
             ELSE \E n \in Pick(2..MaxCpu) : Config([calc EXCEPT !.nw = n], mask, "workers", <<n>>, NoObs)
\* every worker evaluates its share, the calculator merges them in an order
\* given by rotation and direction.  One more share is refused and so is a
\* share of different size.
DoMerge == \E k \in Pick(1..NSlot) :
    LET s == stru[k]
        m == MaskResolve(mask, Types(s))
        c == Assigned(s)
    IN  IF calc.par \/ calc.nw = 0 \/ s.bad # 0 THEN Skip
        ELSE \E rot \in Pick(0..(calc.nw - 1)), rev \in Pick(BOOLEAN), bad \in Pick(BOOLEAN) :
             \* number of merged shares when the calculator is replaced by a restored copy, and if workers are replaced too
             \E sv \in Pick(IF calc.type = "C" THEN {-1} ELSE {-1, calc.nw \div 2, calc.nw - 1}), svw \in Pick(IF calc.type = "C" THEN {FALSE} ELSE BOOLEAN) :
             /\ UNCHANGED stru
             /\ calc' = c
             /\ mask' = m
             /\ cur' = IF sv < 0 THEN [slot |-> k, own |-> NoStru, ok |-> TRUE] ELSE [slot |-> 0, own |-> s, ok |-> TRUE]
             /\ Log("merge", <<k, rot, rev, bad, sv, svw>>,
                    [refused |-> FALSE, surplus |-> TRUE, badsize |-> TRUE, value |-> ValueOf(s, m, c), pm |-> MaskObs(m)])
\* replace the calculator and its workers with restored copies
DoSave == IF calc.type = "C" THEN Skip ELSE
    /\ cur' = [slot |-> 0, own |-> CurStru, ok |-> cur.ok]
    /\ UNCHANGED <<stru, calc, mask>>
    /\ Log("save", <<>>, [refused |-> FALSE, pm |-> MaskObs(mask), tm |-> TMaskObs(mask), evt |-> calc.ev])
\* everything is saved in one archive, in either order, and another process carries on
DoHandover == IF calc.type = "C" THEN Skip ELSE \E first \in Pick(BOOLEAN) :
    UNCHANGED vars /\ Log("handover", <<first>>, [refused |-> FALSE, pm |-> MaskObs(mask), tm |-> TMaskObs(mask), evt |-> calc.ev])
\* requests that must be refused without any effect
DoRefused == \E w \in Pick({"badevaluator", "badcpu", "badmerge"}) :
    Config(calc, mask, w, <<>>, IF mask.fresh THEN [refused |-> TRUE, pm |-> MaskObs(mask), tm |-> TMaskObs(mask), evt |-> calc.ev]
                                ELSE [refused |-> TRUE, tm |-> TMaskObs(mask), evt |-> calc.ev])

Group(g) ==
    CASE g = "new" -> DoNew
      [] g = "variant" -> DoVariant
      [] g = "edit" -> DoEdit
      [] g = "cell" -> DoCell
      [] g = "override" -> DoOverride
      [] g = "bad" -> DoBad
      [] g = "rmin" -> DoRmin
      [] g = "rmax" -> DoRmax
      [] g = "evaluator" -> DoEvaluator
      [] g = "maskall" -> DoMaskAll
      [] g = "invert" -> DoInvert
      [] g = "pairmask" -> DoPairMask
      [] g = "sitemask" -> DoSiteMask
      [] g = "typemask" -> DoTypeMask
      [] g = "typeallmask" -> DoTypeAllMask
      [] g = "eval" -> DoEval
      [] g = "evalsame" -> DoEvalSame
      [] g = "absorb" -> DoAbsorb
      [] g = "assign" -> DoAssign
      [] g = "share" -> DoShare
      [] g = "unshare" -> DoUnshare
      [] g = "badshare" -> DoBadShare
      [] g = "workers" -> DoWorkers
      [] g = "merge" -> DoMerge
      [] g = "save" -> DoSave
      [] g = "handover" -> DoHandover
      [] g = "refuse" -> DoRefused

CalcInit(type) == [type |-> type, lo |-> -1, hi |-> 24, ev |-> "BASIC", par |-> FALSE, nw |-> 0]
Init ==
    /\ stru = InitStru
    /\ mask = MaskInit
    /\ cur = [slot |-> 0, own |-> NoStru, ok |-> TRUE]
    /\ \E t \in CalcTypes, e \in EvTypes :
       /\ t = "C" => e = "BASIC"
       /\ calc = [CalcInit(t) EXCEPT !.ev = e]
       /\ hist = IF Mode = "gen" THEN <<[op |-> "calc", a |-> <<t, e, 24>>, e |-> NoObs]>>
                 ELSE <<[op |-> "calc", a |-> <<t, e, 24>>, e |-> NoObs]>>
                      \o [k \in 1..NSlot |-> [op |-> "new", a |-> NewArgs(k, InitStru[k]), e |-> NoObs]]
Next ==
    /\ Unfinished
    /\ IF Mode = "gen" /\ Len(hist) <= NSlot
       THEN \E s \in {RandStru(Kinds)} : NewStru(Len(hist), s)
       ELSE \E g \in Pick(1..Len(Weights)) : Group(Weights[g])
Spec == Init /\ [][Next]_<<vars, hist>>
=============================================================================
