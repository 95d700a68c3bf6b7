----------------------------- MODULE DataPath -----------------------------
(* Location of data files and loading of standard tables.  The directory is *)
(* named by an environment variable or, when that is unset or empty, found  *)
(* next to the library or in its source tree.  It is determined again when  *)
(* the text of the variable changes.  A table is loaded by its first lookup *)
(* that succeeds and stays for the life of the process; a lookup that fails *)
(* for missing or malformed files has no effect on later lookups.           *)
EXTENDS Common
CONSTANTS Weights, Names, Forms     \* directories in the scratch directory, forms of the text with one name
VARIABLES fs,      \* place -> [k, to, c]  k is none, dir, file, link; c contents of a directory
          env,     \* text of the variable
          cache,   \* [text, dir] the latest value that was resolved
          lib,     \* directory that was found near the library
          how,     \* how the program was started
          data     \* table -> kind of data that were loaded
vars == <<fs, env, cache, lib, how, data>>
View == <<fs, env, cache, lib, how, data>>

Inst == "i"                        \* in place relative to installed library
Src == "s"                         \* in place relative to library in the source tree
Places == Names \cup {Inst, Src}
None == [k |-> "none", to |-> "a", c |-> <<>>]
Files == {"xray", "ions", "neutron", "valence"}
Kinds == <<"good", "good", "other", "other", "none", "bad1", "bad2", "bad3", "bad4", "bad5", "bad6">>
Good == [f \in Files |-> "good"]

\* the place of the directory at the end of links
RECURSIVE Res(_, _)
Res(p, n) == IF n = 0 THEN "" ELSE
    CASE fs[p].k = "dir" -> p
      [] fs[p].k = "link" -> Res(fs[p].to, n - 1)
      [] OTHER -> ""
Resolve(p) == Res(p, 8)

\* [f, x, y]: form of the text and names in it
Unset == [f |-> "unset", x |-> "a", y |-> "a"]
Texts == {[Unset EXCEPT !.f = f] : f \in {"unset", "empty", "root", "roots"} \cap Forms}
         \cup [f : Forms \ {"unset", "empty", "root", "roots", "dotdot"}, x : Names, y : {"a"}] \cup [f : {"dotdot"} \cap Forms, x : Names, y : Names]
Target(t) ==
    CASE t.f \in {"root", "roots"} -> "/"
      [] t.f \in {"below", "missing"} -> ""
      [] t.f = "dotdot" -> IF Resolve(t.x) = "" THEN "" ELSE Resolve(t.y)
      [] OTHER -> Resolve(t.x)
ByEnv == env.f \notin {"unset", "empty"}
\* the text is the same although directories were changed
Uncertain == IF ByEnv THEN cache.text = env /\ Target(env) # cache.dir ELSE lib # "" /\ fs[lib].k # "dir"
ByLib == CASE lib # "" -> lib
           [] how # "src" /\ Resolve(Inst) # "" -> Resolve(Inst)
           [] how \in {"src", "linked"} -> Resolve(Src)
           [] OTHER -> ""
Found == IF ByEnv THEN IF cache.text = env THEN cache.dir ELSE Target(env) ELSE ByLib
\* effect of looking for the directory
Look == LET d == Found IN
    /\ cache' = IF ByEnv THEN IF d = "" THEN [text |-> Unset, dir |-> ""] ELSE [text |-> env, dir |-> d] ELSE cache
    /\ lib' = IF ByEnv THEN lib ELSE d

Quiet(op, a) == Log(op, a, NoObs)
Skip == UNCHANGED vars /\ Quiet("nop", <<>>)
ContArgs(c) == [k \in 1..4 |-> c[(<<"xray", "ions", "neutron", "valence">>)[k]]]

DoEnv == \E t \in Pick(Texts) :
    /\ env' = t
    /\ UNCHANGED <<fs, cache, lib, how, data>>
    /\ Quiet("env", <<t.f, t.x, t.y>>)
DoQuery == IF Uncertain THEN Skip ELSE \E f \in Pick({"", "data.txt"}) :
    /\ Look
    /\ UNCHANGED <<fs, env, how, data>>
    /\ Log("query", <<f>>, IF Found = "" THEN Refused ELSE [refused |-> FALSE, place |-> Found, file |-> f])
\* the place where the library data were found remains
Put(p, x, op, a) == IF lib # "" /\ p \in {Inst, Src} THEN Skip
    ELSE fs' = [fs EXCEPT ![p] = x] /\ UNCHANGED <<env, cache, lib, how, data>> /\ Quiet(op, a)
DoDir == \E p \in Pick(Places) : \E c \in {[f \in Files |-> Kinds[RandomElement(1..Len(Kinds))]]} :
    Put(p, [None EXCEPT !.k = "dir", !.c = c], "dir", <<p>> \o ContArgs(c))
DoGoodDir == \E p \in Pick(Places) : Put(p, [None EXCEPT !.k = "dir", !.c = Good], "dir", <<p>> \o ContArgs(Good))
DoFile == \E p \in Pick(Places) : Put(p, [None EXCEPT !.k = "file"], "file", <<p>>)
DoRemove == \E p \in Pick(Places) : Put(p, None, "remove", <<p>>)
DoLink == \E p \in Pick(Places), q \in Pick(Names) : Put(p, [None EXCEPT !.k = "link", !.to = q], "link", <<p, q>>)

\* values of one item
Values == [xray |-> [good |-> 5997198, other |-> 3500000], ions |-> [good |-> 6, other |-> 7],
           neutron |-> [good |-> 66484, other |-> 12500], valence |-> [good |-> 2240, other |-> 3125]]
DoLookup == IF Uncertain THEN Skip ELSE \E t \in Pick(Files) :
    LET f == t IN
    IF data[f] # "" THEN UNCHANGED vars /\ Log("lookup", <<t>>, [refused |-> FALSE, value |-> Values[t][data[f]]])
    ELSE LET k == IF Found \in {"", "/"} THEN "none" ELSE fs[Found].c[f]
             ok == k \in {"good", "other"}
         IN  /\ Look
             /\ data' = IF ok THEN [data EXCEPT ![f] = k] ELSE data
             /\ UNCHANGED <<fs, env, how>>
             /\ Log("lookup", <<t>>, IF ok THEN [refused |-> FALSE, value |-> Values[t][k]] ELSE Refused)

ActOf(g) ==
    CASE g = "env" -> DoEnv
      [] g = "query" -> DoQuery
      [] g = "dir" -> DoDir
      [] g = "gooddir" -> DoGoodDir
      [] g = "file" -> DoFile
      [] g = "remove" -> DoRemove
      [] g = "link" -> DoLink
      [] g = "lookup" -> DoLookup

Init ==
    /\ fs = [p \in Places |-> None]
    /\ env = Unset
    /\ cache = [text |-> Unset, dir |-> ""]
    /\ lib = ""
    /\ data = [f \in Files |-> ""]
    /\ how \in {"inst", "src", "linked", "rel"}
    /\ hist = <<[op |-> "handover", a |-> <<how>>, e |-> NoObs]>>
Next == Unfinished /\ \E g \in Pick(1..Len(Weights)) : ActOf(Weights[g])
Spec == Init /\ [][Next]_<<vars, hist>>
=============================================================================
