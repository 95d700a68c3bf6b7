------------------------------- MODULE Masks -------------------------------
(* Rules that select pairs for summation (PairQuantity masks) as pure      *)
(* operators on a mask record                                              *)
(*   def    value for pairs that have no rule,                             *)
(*   pm     value of every pair of indices,                                *)
(*   all    whole-site rules that extend to sites that appear later,       *)
(*   typ    rules for pairs of types; while there are some, they decide    *)
(*          about every pair at the next structure assignment,             *)
(*   fresh  pm is up to date with the type rules.                          *)
EXTENDS Common
CONSTANTS MaxI,       \* largest site index in use
          MaskTypes   \* atom types as strings

ALL == "all"
IPairs == {p \in (0..MaxI) \X (0..MaxI) : p[1] <= p[2]}
PairOf(i, j) == IF i <= j THEN <<i, j>> ELSE <<j, i>>
\* unordered pairs of types are sets
TPair(s, t) == {s, t}

MaskInit == [def |-> TRUE, pm |-> [p \in IPairs |-> TRUE], all |-> EmptyFn, typ |-> EmptyFn, fresh |-> TRUE]
MaskAll(m, v) == [def |-> v, pm |-> [p \in IPairs |-> v], all |-> EmptyFn, typ |-> EmptyFn, fresh |-> TRUE]
MaskInvert(m) ==
    [def |-> ~m.def, pm |-> [p \in IPairs |-> ~m.pm[p]],
     all |-> [k \in DOMAIN m.all |-> ~m.all[k]],
     typ |-> [k \in DOMAIN m.typ |-> ~m.typ[k]], fresh |-> m.fresh]

\* cnt is the number of sites in the current structure
MaskSite(m, k, v, cnt) ==
    LET all2 == With(m.all, k, v)
        L == {l \in 0..MaxI : l < cnt} \cup DOMAIN all2
    IN  [def |-> m.def, typ |-> EmptyFn, all |-> all2, fresh |-> TRUE,
         pm |-> [p \in IPairs |-> IF \E l \in L : p = PairOf(k, l) THEN v ELSE m.pm[p]]]
MaskPair(m, i, j, v) ==
    LET gone == {k \in {i, j} : k \in DOMAIN m.all /\ m.all[k] # v}
    IN  [def |-> m.def, typ |-> EmptyFn, all |-> Without(m.all, gone), fresh |-> TRUE,
         pm |-> [m.pm EXCEPT ![PairOf(i, j)] = v]]
\* setPairMask with negative index for all sites
SetPairMask(m, i, j, v, cnt) ==
    IF i < 0 /\ j < 0 THEN MaskAll(m, v)
    ELSE IF i < 0 THEN MaskSite(m, j, v, cnt)
    ELSE IF j < 0 THEN MaskSite(m, i, v, cnt)
    ELSE MaskPair(m, i, j, v)

\* type rules, s or t may be ALL.  The latest applicable call decides.
SetTypeMask(m, s, t, v) ==
    IF s = ALL /\ t = ALL THEN MaskAll(m, v)
    ELSE LET key == TPair(s, t)
             k == IF s # ALL THEN s ELSE t
             \* a rule with all types replaces other rules for that type
             kept == IF ALL \in key
                     THEN Without(m.typ, {q \in DOMAIN m.typ : k \in q /\ q # key})
                     ELSE m.typ
             \* and decides about pairs that have also an opposite rule for the other type
             opposite == IF ALL \in key
                         THEN {q \in DOMAIN kept : ALL \in q /\ q # key /\ kept[q] # v}
                         ELSE {}
             explicit == {TPair(k, CHOOSE u \in q : u # ALL) : q \in opposite}
             typ2 == [q \in (DOMAIN kept) \cup explicit \cup {key} |->
                        IF q \in explicit \/ q = key THEN v ELSE kept[q]]
         IN  [m EXCEPT !.all = EmptyFn, !.typ = typ2, !.fresh = FALSE]
GetTypeMask(m, s, t) ==
    LET d == DOMAIN m.typ IN
    IF TPair(s, t) \in d THEN m.typ[TPair(s, t)]
    ELSE IF TPair(s, ALL) \in d THEN m.typ[TPair(s, ALL)]
    ELSE IF TPair(t, ALL) \in d THEN m.typ[TPair(t, ALL)]
    ELSE m.def

\* rules applied to a structure with types ts (sequence, 1-based)
MaskResolve(m, ts) ==
    LET cnt == Len(ts)
        R == DOMAIN m.all
        rule(p) == IF p[1] \in R /\ (p[2] \notin R \/ p[1] = p[2]) /\ p[2] < cnt THEN {p[1]}
                   ELSE IF p[2] \in R /\ p[1] \notin R /\ p[1] < cnt THEN {p[2]} ELSE {}
    IN  IF m.typ = EmptyFn
        THEN [m EXCEPT !.pm = [p \in IPairs |->
                 IF rule(p) # {} THEN m.all[CHOOSE k \in rule(p) : TRUE] ELSE m.pm[p]]]
        ELSE [m EXCEPT !.fresh = TRUE, !.pm = [p \in IPairs |->
                 IF p[2] < cnt THEN GetTypeMask(m, ts[p[1] + 1], ts[p[2] + 1]) ELSE m.def]]

\* observation of the pair table and of the type table
IPairSeq == SortedTuples(IPairs)
MaskObs(m) == [k \in 1..Len(IPairSeq) |-> m.pm[IPairSeq[k]]]
TPairSeq == LET ts == <<"A", "B", "c", ALL>> IN Flat([i \in 1..Len(ts) |-> [j \in 1..Len(ts) |-> <<ts[i], ts[j]>>]])
TMaskObs(m) == [k \in 1..Len(TPairSeq) |-> GetTypeMask(m, TPairSeq[k][1], TPairSeq[k][2])]
=============================================================================
