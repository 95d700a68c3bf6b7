---------------------------- MODULE ShareSplit ----------------------------
(* Split of the double loop over anchors and their bonds among CPUs        *)
(* (PQEvaluatorBasic::updateValue and the two loops of the fast update).   *)
(* Every process counts loop steps from its CPU index and takes the steps  *)
(* whose count is a multiple of ncpu, either for anchors or for bonds.     *)
EXTENDS Integers, FiniteSets, TLC
CONSTANTS MaxSites, MaxBonds, MaxCpu
VARIABLES cnt, bonds, ncpu, loop2, cpu, i0, b, n, taken, pc
vars == <<cnt, bonds, ncpu, loop2, cpu, i0, b, n, taken, pc>>
\* mncpu <= (cntsites - 1) * 0.1 + 1
Outer == 10 * ncpu <= cnt - 1 + 10
Steps == {<<i, q>> : i \in 1..cnt, q \in 1..MaxBonds}
Init ==
    /\ cnt \in 0..MaxSites
    /\ bonds \in [1..MaxSites -> 0..MaxBonds]
    /\ \A i \in 1..MaxSites : i > cnt => bonds[i] = 0
    /\ ncpu \in 1..MaxCpu
    /\ loop2 \in BOOLEAN   \* fast update splits anchors only
    /\ cpu = 0 /\ i0 = 1 /\ b = 0 /\ n = 0
    /\ taken = [s \in (1..MaxSites) \X (1..MaxBonds) |-> 0]
    /\ pc = "anchor"
chopOuter == ncpu > 1 /\ (Outer \/ loop2)
chopInner == ncpu > 1 /\ ~chopOuter
Const == UNCHANGED <<cnt, bonds, ncpu, loop2>>
Anchor ==
    /\ pc = "anchor" /\ Const /\ UNCHANGED taken
    /\ IF i0 > cnt
       THEN /\ pc' = IF cpu + 1 < ncpu THEN "anchor" ELSE "done"
            /\ cpu' = cpu + 1 /\ i0' = 1 /\ b' = 0 /\ n' = cpu + 1
       ELSE /\ UNCHANGED cpu
            /\ n' = IF chopOuter THEN n + 1 ELSE n
            /\ IF chopOuter /\ n % ncpu # 0
               THEN i0' = i0 + 1 /\ b' = 0 /\ pc' = "anchor"
               ELSE i0' = i0 /\ b' = 1 /\ pc' = "bond"
Bond ==
    /\ pc = "bond" /\ Const /\ UNCHANGED cpu
    /\ IF b > bonds[i0]
       THEN i0' = i0 + 1 /\ b' = 0 /\ pc' = "anchor" /\ UNCHANGED <<n, taken>>
       ELSE /\ n' = IF chopInner THEN n + 1 ELSE n
            /\ b' = b + 1 /\ UNCHANGED <<i0, pc>>
            /\ taken' = IF chopInner /\ n % ncpu # 0 THEN taken
                        ELSE [taken EXCEPT ![<<i0, b>>] = @ + 1]
Next == Anchor \/ Bond
Spec == Init /\ [][Next]_vars
\* each bond is processed by exactly one CPU
Partition == pc = "done" => \A s \in DOMAIN taken : taken[s] = IF s[2] <= bonds[s[1]] THEN 1 ELSE 0
AtMostOnce == \A s \in DOMAIN taken : taken[s] <= 1
=============================================================================
