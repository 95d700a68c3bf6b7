---------------------------- MODULE MaskDesign ----------------------------
(* The mask rules give the pairs of the latest applicable call.            *)
(* want is the value for every pair of indices stated declaratively: each  *)
(* call overwrites the pairs it is about, also for sites that appear later.*)
(* Index calls that contradict a whole-site rule cancel that rule, which   *)
(* makes the pairs with sites that appear later and the pairs with other    *)
(* whole-site rules uncertain (known).                                      *)
EXTENDS Masks
CONSTANTS Sizes
VARIABLES mask, cnt, want, known
vars == <<mask, cnt, want, known>>
View == vars
TypesOf(n) == [i \in 1..n |-> IF i % 2 = 1 THEN "A" ELSE "B"]
Init == /\ mask = MaskInit /\ cnt \in Sizes /\ hist = <<>>
        /\ want = [p \in IPairs |-> TRUE]
        /\ known = [p \in IPairs |-> TRUE]
Keep == UNCHANGED hist
Index == mask.typ = EmptyFn
All(v) == /\ mask' = MaskAll(mask, v) /\ want' = [p \in IPairs |-> v] /\ known' = [p \in IPairs |-> TRUE] /\ UNCHANGED cnt
Invert == /\ mask' = MaskInvert(mask) /\ want' = [p \in IPairs |-> ~want[p]] /\ UNCHANGED <<cnt, known>>
Site(k, v) ==
    /\ Index
    /\ mask' = MaskSite(mask, k, v, cnt)
    /\ want' = [p \in IPairs |-> IF k \in {p[1], p[2]} THEN v ELSE want[p]]
    /\ known' = [p \in IPairs |-> IF k \in {p[1], p[2]} THEN TRUE ELSE known[p]]
    /\ UNCHANGED cnt
Pair(i, j, v) ==
    /\ Index
    /\ mask' = MaskPair(mask, i, j, v)
    /\ want' = [want EXCEPT ![PairOf(i, j)] = v]
    \* pairs of a cancelled whole-site rule with sites that do not exist yet
    /\ known' = [p \in IPairs |->
                  IF p = PairOf(i, j) THEN TRUE
                  ELSE IF \E k \in {i, j} : k \in {p[1], p[2]} /\ k \in DOMAIN mask.all /\ mask.all[k] # v
                               /\ (p[2] >= cnt \/ \E l \in {p[1], p[2]} : l # k /\ l \in DOMAIN mask.all)
                  THEN FALSE ELSE known[p]]
    /\ UNCHANGED cnt
Assign(n) == /\ cnt' = n /\ mask' = MaskResolve(mask, TypesOf(n)) /\ UNCHANGED <<want, known>>
Next == /\ Keep
        /\ \/ \E v \in BOOLEAN : All(v)
           \/ Invert
           \/ \E k \in 0..MaxI, v \in BOOLEAN : Site(k, v)
           \/ \E i \in 0..MaxI, j \in 0..MaxI, v \in BOOLEAN : Pair(i, j, v)
           \/ \E n \in Sizes : Assign(n)
Spec == Init /\ [][Next]_<<vars, hist>>
\* what would be used by the next evaluation of n sites
Used(n) == MaskResolve(mask, TypesOf(n)).pm
LatestWins == \A n \in Sizes : \A p \in IPairs : (p[2] < n /\ known[p]) => Used(n)[p] = want[p]
Stable == \A n \in Sizes : LET m == MaskResolve(mask, TypesOf(n)) IN MaskResolve(m, TypesOf(n)) = m
=============================================================================
