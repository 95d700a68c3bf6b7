-------------------------- MODULE TypeMaskDesign --------------------------
(* The same for type rules: the latest call about a pair of types, by      *)
(* itself or with all types, decides.                                      *)
EXTENDS Masks
VARIABLES mask, want
vars == <<mask, want>>
View == vars
TP == {{s, t} : s \in MaskTypes, t \in MaskTypes}
\* a structure with one more type that never appears in a rule
Ts == SetToSeq(MaskTypes)
Init == mask = MaskInit /\ want = [p \in TP |-> TRUE] /\ hist = <<>>
Set(s, t, v) ==
    /\ mask' = SetTypeMask(mask, s, t, v)
    /\ want' = [p \in TP |->
        IF (s = ALL /\ t = ALL) \/ p = {s, t} \/ (s = ALL /\ t \in p) \/ (t = ALL /\ s \in p) THEN v ELSE want[p]]
Invert == mask' = MaskInvert(mask) /\ want' = [p \in TP |-> ~want[p]]
Next == /\ UNCHANGED hist
        /\ \/ \E s \in MaskTypes \cup {ALL}, t \in MaskTypes \cup {ALL}, v \in BOOLEAN : Set(s, t, v)
           \/ Invert
Spec == Init /\ [][Next]_<<vars, hist>>
LatestWins == \A s \in MaskTypes, t \in MaskTypes : GetTypeMask(mask, s, t) = want[{s, t}]
Symmetric == \A s \in MaskTypes \cup {ALL}, t \in MaskTypes \cup {ALL} : GetTypeMask(mask, s, t) = GetTypeMask(mask, t, s)
Resolved == LET m == MaskResolve(mask, Ts) IN
    \A i \in 1..Len(Ts), j \in 1..Len(Ts) : i <= j => m.pm[<<i - 1, j - 1>>] = want[{Ts[i], Ts[j]}]
=============================================================================
