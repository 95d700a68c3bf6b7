------------------------------ MODULE Registry ------------------------------
(* Registries of prototypes.  There is one registry per abstract class, a     *)
(* registry maps names to types.  The type is registered under its own name   *)
(* and any number of aliases.  Objects are created by name, they are          *)
(* independent of the registered prototype and of each other.                 *)
EXTENDS Common
CONSTANTS Weights, NSlot, Regs, Extra
VARIABLES reg,  \* registry -> (name -> type)
          obj   \* slot -> [r, t, v]
vars == <<reg, obj>>
View == vars
Skip == UNCHANGED vars /\ Log("nop", <<>>, NoObs)
Slots == 1..NSlot

\* types in the order of their registration
Types(r) == CASE r = "dummy" -> {"ta", "tb", "tc"}
              [] r = "radii" -> {"constant"}
              [] r = "factors" -> {"xray", "neutron", "electron", "electronnumber"}
              [] r = "baseline" -> {"linear", "zero"}
              [] r = "envelope" -> {"scale", "qresolution", "sphericalshape", "stepcut"}
              [] r = "profile" -> {"gaussian", "croppedgaussian"}
              [] r = "width" -> {"constant", "debye-waller", "jeong"}
\* scattering factor tables are also known by the type of radiation
Radiation == [xray |-> "X", neutron |-> "N", electron |-> "E", electronnumber |-> "EN"]
Standard(r) == [t \in Types(r) |-> t] @@ (IF r = "factors" THEN [n \in {"X", "N", "E", "EN"} |-> CHOOSE t \in Types(r) : Radiation[t] = n] ELSE EmptyFn)
Default(r, t) == IF t = "scale" THEN 1000 ELSE 0
\* types with an adjustable value
HasValue(r, t) == ~(t \in {"zero", "debye-waller"})
\* all names in use
Names(r) == Types(r) \cup Extra

-----------------------------------------------------------------------------
Registered(r) == {reg[r][n] : n \in DOMAIN reg[r]}
SetOf(S) == [bag |-> SetToSeq(S)]
Listing(g) == [r \in Regs |-> [types |-> SetOf({g[r][n] : n \in DOMAIN g[r]}),
                               aliases |-> SetOf({<<n, g[r][n]>> : n \in {m \in DOMAIN g[r] : g[r][m] # m}}),
                               made |-> SetOf({<<n, g[r][n], Default(r, g[r][n])>> : n \in DOMAIN g[r]})]]
Values(o) == [k \in Slots |-> <<o[k].t, o[k].v>>]
Put(g, o, op, a, e) == reg' = g /\ obj' = o /\ Log(op, a, e @@ [refused |-> FALSE, all |-> Listing(g), objs |-> Values(o)])
Refuse(op, a) == UNCHANGED vars /\ Log(op, a, Refused @@ [all |-> Listing(reg), objs |-> Values(obj)])

-----------------------------------------------------------------------------
\* register the type of an object or of a new one, a type name that is used as an alias is not available
CanRegister(r, t) == ~(t \in DOMAIN reg[r]) /\ (r = "factors" => ~(Radiation[t] \in DOMAIN reg[r]))
WithType(g, r, t) == LET own == With(g, t, t) IN IF r = "factors" THEN With(own, Radiation[t], t) ELSE own
DoRegister == \E r \in Pick(Regs) : \E t \in Pick(Types(r)) :
    IF CanRegister(r, t) THEN Put([reg EXCEPT ![r] = WithType(@, r, t)], obj, "register", <<r, t>>, EmptyFn)
    ELSE Refuse("register", <<r, t>>)
\* register a type that is missing
DoAgain == \E r \in Pick(Regs) :
    LET miss == {t \in Types(r) : ~(t \in Registered(r))} IN
    IF miss = {} THEN Skip ELSE \E t \in Pick(miss) :
    IF CanRegister(r, t) THEN Put([reg EXCEPT ![r] = WithType(@, r, t)], obj, "register", <<r, t>>, EmptyFn)
    ELSE Refuse("register", <<r, t>>)
\* an adjusted object as prototype
DoRegisterObject == \E k \in Pick(Slots) :
    LET r == obj[k].r
        t == obj[k].t
    IN  IF t = "" THEN Skip
        ELSE IF CanRegister(r, t) THEN Put([reg EXCEPT ![r] = WithType(@, r, t)], obj, "registerobj", <<k>>, EmptyFn)
        ELSE Refuse("registerobj", <<k>>)
DoAlias == \E r \in Pick(Regs) : \E n \in Pick(Names(r)), al \in Pick(Names(r)) :
    LET g == reg[r] IN
    IF n \in DOMAIN g /\ (al \in DOMAIN g => g[al] = g[n])
    THEN Put([reg EXCEPT ![r] = With(@, al, g[n])], obj, "alias", <<r, n, al>>, EmptyFn)
    ELSE Refuse("alias", <<r, n, al>>)
\* alias of a name that is registered
DoAliasKnown == \E r \in Pick(Regs) :
    LET g == reg[r] IN
    IF g = EmptyFn THEN Skip ELSE \E n \in Pick(DOMAIN g), al \in Pick(Names(r)) :
    IF al \in DOMAIN g /\ g[al] # g[n] THEN Refuse("alias", <<r, n, al>>)
    ELSE Put([reg EXCEPT ![r] = With(@, al, g[n])], obj, "alias", <<r, n, al>>, EmptyFn)
DoDeregister == \E r \in Pick(Regs) : \E n \in Pick(Names(r)) :
    LET g == reg[r]
        gone == IF n \in DOMAIN g THEN {m \in DOMAIN g : g[m] = g[n]} ELSE {}
    IN  Put([reg EXCEPT ![r] = Without(@, gone)], obj, "deregister", <<r, n>>, [count |-> Cardinality(gone)])
DoCreate == \E r \in Pick(Regs), k \in Pick(Slots) : \E n \in Pick(Names(r) \cup DOMAIN reg[r]) :
    LET g == reg[r] IN
    IF n \in DOMAIN g THEN Put(reg, [obj EXCEPT ![k] = [r |-> r, t |-> g[n], v |-> Default(r, g[n])]], "create", <<k, r, n>>, EmptyFn)
    ELSE Refuse("create", <<k, r, n>>)
DoKnown == \E r \in Pick(Regs) : \E n \in Pick(Names(r) \cup DOMAIN reg[r]) : Put(reg, obj, "known", <<r, n>>, [known |-> n \in DOMAIN reg[r]])
DoSet == \E k \in Pick(Slots), v \in Pick({0, 125, 250, 375}) :
    LET o == obj[k] IN
    IF o.t = "" \/ ~HasValue(o.r, o.t) \/ (v = 0 /\ o.r \in {"profile", "factors"}) THEN Skip
    ELSE Put(reg, [obj EXCEPT ![k].v = v], "set", <<k, v>>, EmptyFn)
\* copies with the value, new objects of the same type
DoClone == \E k \in Pick(Slots), j \in Pick(Slots), op \in Pick({"clone", "save", "fresh"}) :
    LET o == obj[j] IN
    IF o.t = "" \/ (o.r = "dummy" /\ op = "save") THEN Skip
    ELSE Put(reg, [obj EXCEPT ![k] = IF op = "fresh" THEN [o EXCEPT !.v = Default(o.r, o.t)] ELSE o], op, <<k, j>>, EmptyFn)

ActOf(g) == CASE g = "register" -> DoRegister
              [] g = "again" -> DoAgain
              [] g = "registerobj" -> DoRegisterObject
              [] g = "alias" -> DoAlias
              [] g = "aliasknown" -> DoAliasKnown
              [] g = "deregister" -> DoDeregister
              [] g = "create" -> DoCreate
              [] g = "known" -> DoKnown
              [] g = "set" -> DoSet
              [] g = "clone" -> DoClone
Init == /\ reg = [r \in Regs |-> Standard(r)]
        /\ obj = [k \in Slots |-> [r |-> "dummy", t |-> "", v |-> 0]]
        /\ hist = <<[op |-> "start", a |-> <<NSlot, SetToSeq(Regs)>>, e |-> [all |-> Listing(reg), objs |-> Values(obj)]]>>
Next == Unfinished /\ \E g \in Pick(1..Len(Weights)) : ActOf(Weights[g])
Spec == Init /\ [][Next]_<<vars, hist>>

\* a name stays with its type until that is removed, and each type with a name is registered under the own name
Sane == \A r \in Regs : \A n \in DOMAIN reg[r] : reg[r][n] \in DOMAIN reg[r] /\ reg[r][reg[r][n]] = reg[r][n]
NoRedirect == [][\A r \in Regs : \A n \in DOMAIN reg[r] \cap DOMAIN reg'[r] : reg'[r][n] = reg[r][n]]_vars
=============================================================================
