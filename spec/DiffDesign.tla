---------------------------- MODULE DiffDesign ----------------------------
(* Both forms of the structure difference turn the old sequence of atoms   *)
(* into the new one.                                                       *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, FiniteSetsExt
CONSTANTS Atoms, MaxLen
VARIABLES old, new

Seqs == UNION {[1..n -> Atoms] : n \in 0..MaxLen}
Init == old \in Seqs /\ new \in Seqs
Next == UNCHANGED <<old, new>>
Spec == Init /\ [][Next]_<<old, new>>

Least(a, b) == IF a < b THEN a ELSE b
\* side by side
Differ == {i \in 1..Least(Len(old), Len(new)) : old[i] # new[i]}
SPop == Differ \cup ((Least(Len(old), Len(new)) + 1)..Len(old))
SAdd == Differ \cup ((Least(Len(old), Len(new)) + 1)..Len(new))
\* sorted
Count(s, x, n) == Cardinality({i \in 1..n : s[i] = x})
Extra(s, z) == {i \in 1..Len(s) : Count(s, s[i], i) > Count(z, s[i], Len(z))}
MPop == Extra(old, new)
MAdd == Extra(new, old)

Rest(s, D, x) == Cardinality({i \in (1..Len(s)) \ D : s[i] = x})
Balanced(P, A) == \A x \in Atoms : Rest(old, P, x) = Rest(new, A, x)
SideBySideBalanced == Balanced(SPop, SAdd)
SortedBalanced == Balanced(MPop, MAdd)
KeepsIndices == \A i \in (1..Len(old)) \ SPop : i <= Len(new) /\ i \notin SAdd /\ old[i] = new[i]
\* the sorted form is the shortest one
Shortest == Cardinality(MPop) <= Cardinality(SPop) /\ Cardinality(MAdd) <= Cardinality(SAdd)
EmptyIsEqual == (SPop = {} /\ SAdd = {}) = (old = new)
=============================================================================
