------------------------------- MODULE Attrs --------------------------------
(* Named attributes of objects that pass requests to their components.       *)
(* Every object has registered names, each bound to one of its own numbers   *)
(* with or without a way to set it, and components that may have components  *)
(* of their own.  A name is usable when exactly one reached object has it.   *)
EXTENDS Common
CONSTANTS Weights, N, Names, Values, Ways
VARIABLE node
vars == node
Ids == 1..N
Slots == 1..3
View == node
New == [reg |-> EmptyFn, v |-> [s \in Slots |-> 0], kids |-> <<>>]
\* objects reached from i in the order of visits, shared ones are repeated
RECURSIVE Reached(_, _)
Reached(f, i) == <<i>> \o Flat([k \in 1..Len(f[i].kids) |-> Reached(f, f[i].kids[k])])
Having(f, i, a) == SelectSeq(Reached(f, i), LAMBDA j : a \in DOMAIN f[j].reg)
NamesOf(f, i) == UNION {DOMAIN f[j].reg : j \in Range(Reached(f, i))}
WritableOf(f, i) == {a \in NamesOf(f, i) : \E j \in Range(Having(f, i, a)) : f[j].reg[a].set # "no"}
ValueOf(f, i, a) == LET h == Having(f, i, a) IN
    IF Len(h) = 0 THEN "none" ELSE IF Len(h) > 1 THEN "duplicate" ELSE ToString(f[h[1]].v[f[h[1]].reg[a].s])
Seen(f) == [refused |-> FALSE, nodes |-> [i \in Ids |->
    [names |-> [bag |-> SetToSeq(NamesOf(f, i))], writable |-> [bag |-> SetToSeq(WritableOf(f, i))],
     get |-> [a \in Names |-> ValueOf(f, i, a)], has |-> [a \in Names |-> a \in NamesOf(f, i)]]]]
To(f, op, a) == \E g \in {f} : node' = g /\ Log(op, a, Seen(g))
Refuse(op, a, exc, kind) == UNCHANGED node /\ Log(op, a, [refused |-> TRUE, exc |-> exc, kind |-> kind] @@ Seen(node))
Skip == UNCHANGED vars /\ Log("nop", <<>>, NoObs)

DoRegister == \E i \in Pick(Ids), a \in Pick(Names), s \in Pick(Slots), g \in Pick(Ways), w \in Pick(Ways \cup {"no"}) :
    To([node EXCEPT ![i].reg = With(@, a, [s |-> s, set |-> w])], "register", <<i, a, s, g, w>>)
DoSet == \E i \in Pick(Ids), a \in Pick(Names), x \in Pick(Values) :
    LET h == Having(node, i, a) IN
    IF Len(h) = 0 THEN Refuse("set", <<i, a, x>>, "runtime_error", "DoubleAttributeError")
    ELSE IF Len(h) > 1 THEN Refuse("set", <<i, a, x>>, "logic_error", "")
    ELSE LET e == node[h[1]].reg[a] IN
         IF e.set = "no" THEN Refuse("set", <<i, a, x>>, "runtime_error", "DoubleAttributeError")
         ELSE To([node EXCEPT ![h[1]].v[e.s] = x], "set", <<i, a, x>>)
DoNumber == \E i \in Pick(Ids), s \in Pick(Slots), x \in Pick(Values) : To([node EXCEPT ![i].v[s] = x], "number", <<i, s, x>>)
\* components come later in the order of objects
DoLink == IF N = 1 THEN Skip ELSE \E i \in Pick(1..(N - 1)) : \E j \in Pick((i + 1)..N) :
    IF Len(node[i].kids) >= 3 THEN Skip ELSE To([node EXCEPT ![i].kids = Append(@, j)], "link", <<i, j>>)
DoUnlink == \E i \in Pick(Ids) : To([node EXCEPT ![i].kids = <<>>], "unlink", <<i>>)
\* an assigned object takes over numbers and components, its names are kept
\* and refer to its own numbers; a copy takes the names too
DoAssign == \E i \in Pick(Ids), j \in Pick(Ids), op \in Pick({"assign", "copy"}) :
    IF i = j \/ \E c \in Range(node[j].kids) : c <= i THEN Skip
    ELSE To([node EXCEPT ![i] = [reg |-> IF op = "copy" THEN node[j].reg ELSE @.reg, v |-> node[j].v, kids |-> node[j].kids]], op, <<i, j>>)
ActOf(g) == CASE g = "register" -> DoRegister
              [] g = "set" -> DoSet
              [] g = "number" -> DoNumber
              [] g = "link" -> DoLink
              [] g = "unlink" -> DoUnlink
              [] g = "assign" -> DoAssign
Init == /\ node = [i \in Ids |-> New]
        /\ hist = <<[op |-> "start", a |-> <<N, SetToSeq(Names)>>, e |-> Seen(node)]>>
Next == Unfinished /\ \E g \in Pick(1..Len(Weights)) : ActOf(Weights[g])
Spec == Init /\ [][Next]_<<vars, hist>>

\* what can be set is an attribute, and a usable one has one place
Sane == \A i \in Ids : WritableOf(node, i) \subseteq NamesOf(node, i) /\ \A a \in Names : (ValueOf(node, i, a) = "none") = (a \notin NamesOf(node, i))
Recently == hist'[Len(hist')]
\* a successful set is seen by the same request and by at most one number
SetSeen == [][(Recently.op = "set" /\ ~Recently.e.refused) => ValueOf(node', Recently.a[1], Recently.a[2]) = ToString(Recently.a[3])]_<<vars, hist>>
OneNumber == [][(Recently.op = "set") => Cardinality({<<i, s>> \in Ids \X Slots : node[i].v[s] # node'[i].v[s]}) <= 1]_<<vars, hist>>
=============================================================================
