------------------------------ MODULE Common ------------------------------
(* Parts shared by all specifications: generation of behaviours and their  *)
(* output.  Mode is                                                        *)
(*   "mc"    exhaustive check, no history,                                 *)
(*   "tour"  exhaustive check, every transition is written as a behaviour  *)
(*           that starts in the initial state (the history is hidden from  *)
(*           the state identity by VIEW),                                  *)
(*   "gen"   random behaviours of length Depth (tlc -simulate).            *)
(* A behaviour is a sequence of steps [op, a, e] where op and a are the    *)
(* operation and its arguments and e are the expected observations.        *)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, SequencesExt, FiniteSetsExt, Functions
CONSTANTS Mode, Depth
VARIABLE hist

\* all elements in exhaustive modes, one random element otherwise.
\* The reference to hist prevents TLC from evaluating this just once.
Pick(S) == IF Mode = "gen"
           THEN {x \in {RandomElement(S)} : Len(hist) >= 0}
           ELSE S

Log(op, a, e) ==
    hist' = IF Mode = "mc" THEN hist
            ELSE Append(hist, [op |-> op, a |-> a, e |-> e])

Unfinished == Mode # "gen" \/ Len(hist) < Depth

Emit == (Mode = "gen" /\ Len(hist) = Depth) => PrintT(ToJson(hist))
EmitTransition == (Mode = "tour" /\ hist' # hist) => PrintT(ToJson(hist'))

NoObs == [refused |-> FALSE]
Refused == [refused |-> TRUE]
EmptyFn == <<>>
\* function without the keys in the set K
Without(f, K) == [x \in (DOMAIN f) \ K |-> f[x]]
\* function f with f[x] = v, x does not need to be in the domain
With(f, x, v) == [y \in (DOMAIN f) \cup {x} |-> IF y = x THEN v ELSE f[y]]
Get(f, x, default) == IF x \in DOMAIN f THEN f[x] ELSE default
\* a sorted sequence from a set of integers
Sorted(S) == SetToSortSeq(S, <)
\* lexicographic order of sequences of integers
LexLess(s, t) ==
    \/ \E k \in 1..Len(s) : k <= Len(t) /\ s[k] < t[k] /\ \A j \in 1..(k-1) : s[j] = t[j]
    \/ Len(s) < Len(t) /\ \A j \in 1..Len(s) : s[j] = t[j]
SortedTuples(S) == SetToSortSeq(S, LexLess)
Sum(f(_), S) == FoldSet(LAMBDA x, acc : f(x) + acc, 0, S)
Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b
Abs(x) == IF x < 0 THEN -x ELSE x
RECURSIVE RandSeqOf(_, _)
\* n random elements of S, repetition allowed
RandSeqOf(S, n) == IF n = 0 THEN <<>> ELSE Append(RandSeqOf(S, n - 1), RandomElement(S))
SeqRemoveAt(s, i) == [k \in 1..(Len(s) - 1) |-> IF k < i THEN s[k] ELSE s[k + 1]]
SeqInsertAt(s, i, x) == [k \in 1..(Len(s) + 1) |-> IF k < i THEN s[k] ELSE IF k = i THEN x ELSE s[k - 1]]
Flat(ss) == FoldLeft(LAMBDA acc, x : acc \o x, <<>>, ss)
=============================================================================
