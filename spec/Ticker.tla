------------------------------- MODULE Ticker -------------------------------
(* Event tickers: a click is later than all earlier events of the program,   *)
(* copies and saved tickers keep their time, and tickers that are restored   *)
(* in another process keep their order and are older than its later events.  *)
EXTENDS Common
CONSTANTS Weights, N
VARIABLE t      \* ticker -> rank of its time, 0 for no event
vars == t
Ids == 1..N
\* ranks without gaps
Dense(f) == LET R == Range(f) \ {0} IN [i \in DOMAIN f |-> Cardinality({r \in R : r <= f[i]})]
View == t
Sign(a, b) == IF a < b THEN 99 ELSE IF a = b THEN 154 ELSE 44
Seen(f) == [refused |-> FALSE, order |-> [i \in Ids |-> [j \in Ids |-> Sign(f[i], f[j])]]]
To(f, op, a) == t' = Dense(f) /\ Log(op, a, Seen(f))
Top == Cardinality(Range(t)) + 1
DoClick == \E i \in Pick(Ids) : To([t EXCEPT ![i] = Top], "click", <<i>>)
DoNew == \E i \in Pick(Ids) : To([t EXCEPT ![i] = 0], "new", <<i>>)
DoCopy == \E i \in Pick(Ids), j \in Pick(Ids), op \in Pick({"copy", "save"}) : To([t EXCEPT ![i] = t[j]], op, <<i, j>>)
DoUpdate == \E i \in Pick(Ids), j \in Pick(Ids) : To([t EXCEPT ![i] = IF t[j] > t[i] THEN t[j] ELSE t[i]], "update", <<i, j>>)
DoOthers == \E n \in Pick({1, 50, 3000}) : To(t, "others", <<n>>)
DoHandover == \E n \in Pick({0, 1, 40, 5000}), m \in Pick({0, 1, 20, 500}) : To(t, "handover", <<n, m>>)
ActOf(g) == CASE g = "click" -> DoClick
              [] g = "new" -> DoNew
              [] g = "copy" -> DoCopy
              [] g = "update" -> DoUpdate
              [] g = "others" -> DoOthers
              [] g = "handover" -> DoHandover
Init == /\ t = [i \in Ids |-> 0]
        /\ hist = <<[op |-> "start", a |-> <<N>>, e |-> Seen(t)]>>
Next == Unfinished /\ \E g \in Pick(1..Len(Weights)) : ActOf(Weights[g])
Spec == Init /\ [][Next]_<<vars, hist>>
\* an event makes its ticker later than all others, an update never goes back
Recently == hist'[Len(hist')]
Latest == [][Recently.op = "click" => \A j \in Ids \ {Recently.a[1]} : t'[j] < t'[Recently.a[1]]]_<<vars, hist>>
Forward == [][Recently.op = "update" => t'[Recently.a[1]] >= t'[Recently.a[2]]]_<<vars, hist>>
\* what is not touched keeps its order
Kept == [][\A i, j \in Ids : (Recently.op \in {"others", "handover"} \/ ~(Recently.a[1] \in {i, j})) => (t[i] < t[j] <=> t'[i] < t'[j])]_<<vars, hist>>
=============================================================================
