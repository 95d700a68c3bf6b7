----------------------------- MODULE EvalCache -----------------------------
(* Design of the evaluator that updates the last value (PQEvaluatorOptimized) *)
(* The value is a bag of pairs of atoms.  An evaluation of a structure that  *)
(* differs little from the last one removes pairs of the popped atoms and    *)
(* adds pairs of the new ones.  The design is correct when every successful  *)
(* evaluation gives the bag of pairs of the structure under the current      *)
(* configuration.                                                            *)
(*                                                                           *)
(* ForgetOnReset and ForgetOnFailure describe the repaired code; with FALSE  *)
(* TLC finds the histories that gave wrong values before the repair.         *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Atoms, MaxLen, Slots, Cfgs, ForgetOnReset, ForgetOnFailure
VARIABLES obj,    \* slot -> content of the structure object
          cfg,    \* configuration that matters for the value
          newcfg, \* configuration changed after the last evaluation (ticker)
          last,   \* last structure or "none"
          site,   \* site data cached at the last structure assignment
          val,    \* bag of pairs
          ok,     \* last call was a successful evaluation of slot which
          which,
          crash
vars == <<obj, cfg, newcfg, last, site, val, ok, which, crash>>

Strus == UNION {[1..n -> Atoms] : n \in 0..MaxLen}
Keys == {<<{x, y}, c>> : x \in Atoms, y \in Atoms, c \in Cfgs}
None == <<"none">>
ZeroBag == [k \in Keys |-> 0]
\* bag of pairs (i, j) of structure s, the site data t decide what is added
Bag(pairs, t, c) == [k \in Keys |-> Cardinality({p \in pairs : k = <<{t[p[1]], t[p[2]]}, c>>})]
AllPairs(s) == {p \in (1..Len(s)) \X (1..Len(s)) : p[1] < p[2]}
Fresh(s) == Bag(AllPairs(s), s, cfg)
Plus(a, b) == [k \in Keys |-> a[k] + b[k]]
Minus(a, b) == [k \in Keys |-> a[k] - b[k]]
Popped(s, t) == {i \in 1..Len(s) : i > Len(t) \/ s[i] # t[i]}
Touching(s, I) == {p \in AllPairs(s) : p[1] \in I \/ p[2] \in I}

Init ==
    /\ obj \in [Slots -> {<<>>}]
    /\ cfg \in Cfgs /\ newcfg = TRUE
    /\ last = None /\ site = <<>> /\ val = ZeroBag
    /\ ok = FALSE /\ which = (CHOOSE k \in Slots : TRUE) /\ crash = FALSE

Edit(k, s) == obj' = [obj EXCEPT ![k] = s] /\ ok' = FALSE /\ UNCHANGED <<cfg, newcfg, last, site, val, which, crash>>
Configure(c) ==
    /\ c # cfg
    /\ cfg' = c /\ newcfg' = TRUE /\ ok' = FALSE
    /\ UNCHANGED <<obj, last, site, val, which, crash>>
\* setStructure zeroes the value
Assign(k) ==
    /\ site' = obj[k] /\ val' = ZeroBag /\ ok' = FALSE
    /\ last' = IF ForgetOnReset THEN None ELSE last
    /\ UNCHANGED <<obj, cfg, newcfg, which, crash>>
Complete(k) ==
    /\ site' = obj[k] /\ val' = Fresh(obj[k]) /\ last' = obj[k]
    /\ newcfg' = FALSE /\ ok' = TRUE /\ which' = k
    /\ UNCHANGED <<obj, cfg, crash>>
\* complete evaluation that fails in the middle
CompleteFails(k) ==
    \E s \in {AllPairs(obj[k]), {}} :
    /\ site' = obj[k] /\ val' = Bag(s, obj[k], cfg)
    /\ last' = IF ForgetOnFailure THEN None ELSE last
    /\ ok' = FALSE
    /\ UNCHANGED <<obj, cfg, newcfg, which, crash>>
CanUpdate == last # None /\ ~newcfg
InRange(pairs) == \A p \in pairs : p[1] <= Len(site) /\ p[2] <= Len(site)
FastFails(k, stage) ==
    /\ CanUpdate
    /\ LET pop == Popped(last, obj[k])
           out == Touching(last, pop)
           v1 == IF InRange(out) THEN Minus(val, Bag(out, site, cfg)) ELSE val
       IN  /\ val' = IF stage = 1 THEN v1 ELSE IF stage = 2 THEN ZeroBag ELSE v1
           /\ site' = IF stage = 1 THEN site ELSE obj[k]
           /\ last' = IF ForgetOnFailure THEN None ELSE last
           /\ ok' = FALSE
           /\ UNCHANGED <<obj, cfg, newcfg, which, crash>>
Fast(k) ==
    /\ CanUpdate
    /\ LET pop == Popped(last, obj[k])
           add == Popped(obj[k], last)
           out == Touching(last, pop)
           inn == Touching(obj[k], add)
       IN  IF ~InRange(out) THEN crash' = TRUE /\ UNCHANGED <<obj, cfg, newcfg, last, site, val, ok, which>>
           ELSE /\ val' = Plus(Minus(val, Bag(out, site, cfg)), Bag(inn, obj[k], cfg))
                /\ site' = obj[k] /\ last' = obj[k]
                /\ ok' = TRUE /\ which' = k
                /\ UNCHANGED <<obj, cfg, newcfg, crash>>
Next ==
    \/ \E k \in Slots, s \in Strus : Edit(k, s)
    \/ \E c \in Cfgs : Configure(c)
    \/ \E k \in Slots : Assign(k)
    \/ \E k \in Slots : Complete(k)
    \/ \E k \in Slots : CompleteFails(k)
    \/ \E k \in Slots : Fast(k)
    \/ \E k \in Slots, n \in 1..3 : FastFails(k, n)
Spec == Init /\ [][Next]_vars

TypeOK == /\ last = None \/ last \in Strus
          /\ site \in Strus
Correct == ok => val = Fresh(obj[which])
NeverCrashes == ~crash
\* a remembered structure always describes the value it goes with
CacheInv == (last # None /\ ~newcfg) => (val = Fresh(last) /\ site = last)
=============================================================================
