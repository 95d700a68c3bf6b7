------------------------------ MODULE Struct ------------------------------
(* Structures as containers of atoms, structure wrappers and structure     *)
(* differences.                                                            *)
(* Base structures hold the atoms.  A handle is what users pass to         *)
(* calculators: a base under a chain of wrappers.  Handles may share their *)
(* base, then an edit of the base is visible in all of them.               *)
EXTENDS Geom
CONSTANTS Weights, Kinds, NSlot, MaxN
VARIABLES base,  \* id -> structure with field custom
          hand,  \* slot -> [w, b], w is the sequence of wrappers, outermost first
          nid    \* identifier of the next base
vars == <<base, hand, nid>>
View == vars

Skip == UNCHANGED vars /\ Log("nop", <<>>, NoObs)
Empty == [custom |-> FALSE] @@ NoGeom
Slots == 1..NSlot
Lim(i) == Min2(i, MaxN)

\* a wrapper over itself changes nothing
Wrap(w, chain) == IF chain # <<>> /\ chain[1] = w THEN chain ELSE <<w>> \o chain
Has(h, w) == \E n \in 1..Len(h.w) : h.w[n] = w
NoSym(h) == Has(h, "nosym")

-----------------------------------------------------------------------------
(* what is seen through a handle *)
Bs(h) == base[h.b]
\* atoms have a flag of anisotropy, by default it is set for any displacements
Aniso(x) == (x.u # Diag(0, 0, 0)) # (x.f = 1)
DataOf(w, s) ==
    LET nosym == \E n \in 1..Len(w) : w[n] = "nosym"
        N == 1..Len(s.at)
    IN  [refused |-> FALSE, n |-> Len(s.at), t |-> [i \in N |-> s.at[i].t], p |-> [i \in N |-> s.at[i].p \o s.at[i].j],
         m |-> [i \in N |-> IF nosym THEN 1 ELSE Mult(s, i)], occ |-> [i \in N |-> s.at[i].occ],
         an |-> [i \in N |-> Aniso(s.at[i])], u |-> [i \in N |-> U6(s.at[i].u)]]
DataX(h, b2) == DataOf(h.w, b2[h.b])

-----------------------------------------------------------------------------
(* life of handles *)
\* drop bases that are not used
Keep(b2, h2) == [i \in {0} \cup {h2[k].b : k \in Slots} |-> b2[i]]
Put(k, s, op, a) ==
    LET h2 == [hand EXCEPT ![k] = [w |-> <<>>, b |-> nid]]
        b2 == With(base, nid, s)
    IN  /\ hand' = h2
        /\ base' = Keep(b2, h2)
        /\ nid' = nid + 1
        /\ Log(op, <<k>> \o a, DataX(h2[k], b2))
New(k, s) == Put(k, s, "new", <<IF s.custom THEN 1 ELSE 0>> \o GeomArgs(s) \o <<[i \in 1..Len(s.at) |-> s.at[i].f]>>)
WithCustom(s) == [custom |-> RandomElement(1..4) = 1] @@ s
DoNew == \E k \in Pick(Slots), kind \in Pick(Kinds) : \E s \in {WithCustom(RandGeom(kind))} : New(k, s)
NewAtom(s) == GAtom(s.D, Jit(s), s.k # "atom")
\* few changes of the atoms
ChangedAt(s, w) ==
    LET n == Len(s.at)
        i == RandomElement(1..n)
        i2 == RandomElement(1..n)
        x == NewAtom(s)
    IN  CASE w = "same" -> s.at
          [] w = "move" -> [s.at EXCEPT ![i].p = x.p]
          [] w = "j" -> [s.at EXCEPT ![i].j = x.j]
          [] w = "occ" -> [s.at EXCEPT ![i].occ = (@ % 4) + 1]
          [] w = "u" -> [s.at EXCEPT ![i].u = x.u]
          [] w = "type" -> [s.at EXCEPT ![i].t = x.t]
          [] w = "flag" -> [s.at EXCEPT ![i].f = 1 - @]
          [] w = "drop" -> SeqRemoveAt(s.at, i)
          [] w = "dropdup" -> SeqRemoveAt([s.at EXCEPT ![i2] = s.at[i]], i)
          [] w = "last" -> SubSeq(s.at, 1, n - 1)
          [] w = "add" -> IF n < MaxN THEN SeqInsertAt(s.at, i, x) ELSE s.at
          [] w = "dup" -> IF n < MaxN THEN SeqInsertAt(s.at, i, s.at[i2]) ELSE s.at
          [] w = "append" -> IF n < MaxN THEN Append(s.at, x) ELSE s.at
          [] w = "swap" -> [s.at EXCEPT ![i] = s.at[i2], ![i2] = s.at[i]]
          [] w = "copy" -> [s.at EXCEPT ![i] = s.at[i2]]
          [] w = "rev" -> [q \in 1..n |-> s.at[n + 1 - q]]
          [] w = "rot" -> SubSeq(s.at, 2, n) \o <<s.at[1]>>
          [] w = "clear" -> <<>>
RECURSIVE Changed(_, _)
Changed(s, n) == IF n = 0 \/ s.at = <<>> THEN s
                 ELSE Changed([s EXCEPT !.at = ChangedAt(s, RandomElement({"same", "move", "j", "occ", "u", "type", "flag", "drop", "last", "dropdup", "add", "dup",
                                                                           "append", "swap", "copy", "rev", "rot"}))], n - 1)
\* a structure that differs in few sites or only in its lattice or symmetry
Variant(s) ==
    LET w == RandomElement({"at", "at", "at", "at", "at", "op", "tight", "cell", "kind"})
        n == RandomElement(0..3)
        D2 == [q \in I3 |-> 2 * s.D[q]]
        x == Changed(s, n)
    IN  CASE w = "at" \/ s.k = "atom" -> x
          [] w = "op" /\ s.k = "crys" -> IF s.ops = <<>> THEN x ELSE [s EXCEPT !.ops = Append(SubSeq(s.ops, 2, Len(s.ops)), s.ops[1])]
          [] w = "tight" /\ s.k = "crys" -> [s EXCEPT !.tight = ~s.tight]
          [] w = "cell" /\ FitOps([s EXCEPT !.D = D2], s.ops) -> [s EXCEPT !.D = D2]
          [] w = "kind" /\ s.k = "crys" -> [s EXCEPT !.k = "per", !.ops = <<>>]
          [] w = "kind" /\ s.k = "per" -> [s EXCEPT !.k = "crys"]
          [] OTHER -> x
DoVariant == \E k \in Pick(Slots), j \in Pick(Slots) :
    IF k = j \/ hand[j].b = 0 THEN DoNew
    ELSE \E s \in {Variant([Bs(hand[j]) EXCEPT !.custom = RandomElement(1..5) = 1])} : New(k, s)
\* how: function or class
DoWrap == \E k \in Pick(Slots), j \in Pick(Slots), w \in Pick({"nometa", "nosym"}), how \in Pick({"fun", "class"}) :
    LET h2 == [hand EXCEPT ![k] = [w |-> Wrap(w, hand[j].w), b |-> hand[j].b]]
    IN  IF Len(h2[k].w) > 4 THEN Skip
        ELSE /\ hand' = h2
             /\ base' = Keep(base, h2)
             /\ UNCHANGED nid
             /\ Log("wrap", <<k, j, w, how>>, DataX(h2[k], base))
\* wrappers of the null pointer hold the empty structure
DoWrapNull == \E k \in Pick(Slots), w \in Pick({"nometa", "nosym"}), how \in Pick({"fun", "class"}) :
    LET h2 == [hand EXCEPT ![k] = [w |-> <<w>>, b |-> 0]]
    IN  /\ hand' = h2
        /\ base' = Keep(base, h2)
        /\ UNCHANGED nid
        /\ Log("wrapnull", <<k, w, how>>, DataX(h2[k], base))
DoEmpty == \E k \in Pick(Slots) :
    LET h2 == [hand EXCEPT ![k] = [w |-> <<>>, b |-> 0]]
    IN  /\ hand' = h2
        /\ base' = Keep(base, h2)
        /\ UNCHANGED nid
        /\ Log("empty", <<k>>, DataX(h2[k], base))
\* the same object in another slot
DoShare == \E k \in Pick(Slots), j \in Pick(Slots) :
    LET h2 == [hand EXCEPT ![k] = hand[j]]
    IN  /\ hand' = h2
        /\ base' = Keep(base, h2)
        /\ UNCHANGED nid
        /\ Log("share", <<k, j>>, DataX(h2[k], base))
\* independent copy, there is just one empty structure
DoCopy == \E k \in Pick(Slots), j \in Pick(Slots), op \in Pick({"clone", "clone", "save"}) :
    LET h == hand[j]
        h2 == [hand EXCEPT ![k] = IF h.b = 0 THEN h ELSE [w |-> h.w, b |-> nid]]
        b2 == IF h.b = 0 THEN base ELSE With(base, nid, base[h.b])
    IN  IF op = "save" /\ (h.b = 0 \/ Bs(h).custom) THEN Skip
        ELSE /\ hand' = h2
             /\ base' = Keep(b2, h2)
             /\ nid' = nid + 1
             /\ Log(op, <<k, j>>, DataX(h2[k], b2))

-----------------------------------------------------------------------------
(* edits of the base, all handles of that base change *)
SetBase(k, s, op, a) ==
    LET b2 == [base EXCEPT ![hand[k].b] = s]
    IN  /\ base' = b2
        /\ UNCHANGED <<hand, nid>>
        /\ Log(op, <<k>> \o a, [it |-> ""] @@ DataX(hand[k], b2))
At(k, at, op, a) == SetBase(k, [Bs(hand[k]) EXCEPT !.at = at], op, a)
CutOut(at, i, j) == SubSeq(at, 1, i) \o SubSeq(at, j + 1, Len(at))
SpliceIn(at, i, x) == SubSeq(at, 1, i) \o x \o SubSeq(at, i + 1, Len(at))
RECURSIVE RandIdx(_, _)
RandIdx(N, n) == IF n = 0 THEN <<>> ELSE Append(RandIdx(N, n - 1), RandomElement(1..N))
Compatible(s, z) == s.k = z.k /\ s.g = z.g /\ s.D = z.D
\* index pairs i <= j in 0..n
EditKinds == {"append", "insert", "insertit", "insertrange", "erase", "eraseit", "eraserange", "clear", "reserve", "pick", "assignfrom", "assignn",
              "atom", "atomref", "swap", "copyatom", "field", "flag"}
DoEdit == \E k \in Pick(Slots) :
    LET s == Bs(hand[k])
        at == s.at
        n == Len(at)
    IN  IF hand[k].b = 0 THEN Skip
        ELSE \E w \in Pick(EditKinds), x \in {NewAtom(s)}, a \in Pick(0..n), b \in Pick(0..n), j \in Pick(Slots) :
             LET i == Min2(a, b)
                 l == Max2(a, b)
                 z == Bs(hand[j])
                 m == Len(z.at)
                 i0 == Min2(i, n - 1)
                 l0 == Min2(l, n - 1)
             IN  CASE w \in {"append", "insert", "insertit"} /\ n >= MaxN -> Skip
                   [] w = "append" -> At(k, Append(at, x), "append", AtomArgs(x))
                   [] w \in {"insert", "insertit"} -> At(k, SpliceIn(at, a, <<x>>), w, <<a>> \o AtomArgs(x))
                   [] w = "insertrange" -> IF hand[j].b = 0 \/ ~Compatible(s, z) \/ m = 0 THEN Skip
                                           ELSE \E f \in Pick(0..m), c \in Pick(0..2) :
                                                LET e == Min2(f + c, m) IN
                                                IF n + e - f > MaxN THEN Skip
                                                ELSE At(k, SpliceIn(at, a, SubSeq(z.at, f + 1, e)), w, <<a, j, f, e>>)
                   [] w = "eraserange" -> At(k, CutOut(at, i, l), w, <<i, l>>)
                   [] w = "clear" -> At(k, <<>>, w, <<>>)
                   [] w = "reserve" -> At(k, at, w, <<4 * a>>)
                   [] w = "assignfrom" -> IF hand[j].b = 0 \/ ~Compatible(s, z) THEN Skip ELSE At(k, z.at, w, <<j>>)
                   [] w = "assignn" -> \E c \in Pick(0..3) : At(k, [q \in 1..c |-> x], w, <<c>> \o AtomArgs(x))
                   [] n = 0 -> Skip
                   [] w \in {"erase", "eraseit"} -> At(k, CutOut(at, i0, i0 + 1), w, <<i0>>)
                   [] w = "pick" -> \E c \in Pick(1..n) : \E idx \in {RandIdx(n, c)} :
                                    At(k, [q \in 1..c |-> at[idx[q]]], w, <<[q \in 1..c |-> idx[q] - 1]>>)
                   [] w \in {"atom", "atomref"} -> At(k, [at EXCEPT ![i0 + 1] = x], w, <<i0>> \o AtomArgs(x))
                   [] w = "swap" -> At(k, [at EXCEPT ![i0 + 1] = at[l0 + 1], ![l0 + 1] = at[i0 + 1]], w, <<i0, l0>>)
                   [] w = "copyatom" -> At(k, [at EXCEPT ![i0 + 1] = at[l0 + 1]], w, <<i0, l0>>)
                   [] w = "flag" -> At(k, [at EXCEPT ![i0 + 1].f = 1 - @], w, <<i0>>)
                   [] w = "field" -> \E o \in Pick(1..4) : \E y \in {[at[i0 + 1] EXCEPT !.t = x.t, !.occ = o]} : At(k, [at EXCEPT ![i0 + 1] = y], w, <<i0, x.t, o>>)
SameSys(s) == {sys \in {"tric", "mono", "orth", "tetr", "hex", "cub"} : s.g \in Grams(sys)}
DoOps == \E k \in Pick(Slots), w \in Pick({"set", "add", "clear", "precision"}) :
    LET s == Bs(hand[k]) IN
    IF s.k # "crys" \/ SameSys(s) = {} THEN Skip
    ELSE \E sys \in Pick(SameSys(s)) :
         LET mix == \/ sys \in {"hex", "tetr"} /\ s.D[1] # s.D[2]
                    \/ sys = "cub" /\ (s.D[1] # s.D[2] \/ s.D[1] # s.D[3])
         IN  IF mix THEN Skip
             ELSE CASE w = "set" -> \E ops \in {RandOps(sys)} : IF FitOps(s, ops) THEN SetBase(k, [s EXCEPT !.ops = ops], "setops", <<Flat([n \in 1..Len(ops) |-> OpArgs(ops[n])])>>) ELSE Skip
                    [] w = "add" -> \E o \in Pick(Gens(sys)) : IF FitOps(s, <<o>>) /\ Len(s.ops) < 24 THEN SetBase(k, [s EXCEPT !.ops = Append(s.ops, o)], "addop", <<OpArgs(o)>>) ELSE Skip
                    [] w = "clear" -> SetBase(k, [s EXCEPT !.ops = <<>>], "setops", <<<<>>>>)
                    [] w = "precision" -> SetBase(k, [s EXCEPT !.tight = ~@], "precision", <<IF s.tight THEN 0 ELSE 1>>)
DoCell == \E k \in Pick(Slots), f \in Pick({<<1, 2>>, <<2, 1>>, <<1, 1>>}) :
    LET s == Bs(hand[k])
        D2 == [q \in I3 |-> (s.D[q] * f[1]) \div f[2]]
    IN  IF s.k = "atom" \/ (\E q \in I3 : (s.D[q] * f[1]) % f[2] # 0 \/ D2[q] > 12 \/ D2[q] < 1 \/ (s.k = "crys" /\ D2[q] < 3)) \/ ~FitOps([s EXCEPT !.D = D2], s.ops) THEN Skip
        ELSE SetBase(k, [s EXCEPT !.D = D2], "cell", <<D2>>)

-----------------------------------------------------------------------------
(* queries *)
Query(op, a, e) == UNCHANGED vars /\ Log(op, a, [refused |-> FALSE] @@ e)
DoData == \E k \in Pick(Slots) : Query("data", <<k>>, DataX(hand[k], base))
Dv(a, b) == [fn |-> "div", x |-> <<a, b>>]
Sq(a) == [fn |-> "sqrt", x |-> <<a>>]
\* sum of occupancies and number density, in quarters and steps
DoTotals == \E k \in Pick(Slots) :
    LET h == hand[k]
        s == Bs(h)
        occ == IF NoSym(h) THEN Sum(LAMBDA i : s.at[i].occ, 1..Len(s.at)) ELSE TotalOcc(s)
        cell == s.D[1] * s.D[2] * s.D[3]
        U == {s.at[i].u[q][q] : i \in 1..Len(s.at), q \in I3} \cup {0}
        e == [occ |-> occ,
              density |-> IF NoSym(h) \/ s.k = "atom" \/ occ = 0 THEN Dv(0, 1) ELSE Dv(occ, [fn |-> "mul", x |-> <<4 * cell, Sq(Det(s.g))>>])]
    IN  Query("totals", <<k>>, IF s.k = "atom" THEN e @@ [maxuii |-> Max(U)] ELSE e)
\* types of selected sites
DoTypes == \E k \in Pick(Slots) :
    LET s == Bs(hand[k])
        n == Len(s.at)
    IN  IF n = 0 THEN Skip
        ELSE \E c \in Pick(0..4) : \E idx \in {RandIdx(n, c)} :
             Query("types", <<k, [q \in 1..c |-> idx[q] - 1]>>, [t |-> [q \in 1..c |-> s.at[idx[q]].t]])
\* bonds of all sites with the site i, a structure without symmetry is finite
Seen(h) == IF NoSym(h) THEN [Bs(h) EXCEPT !.k = "atom", !.ops = <<>>] ELSE Bs(h)
DoBonds == \E k \in Pick(Slots) :
    LET s == Seen(hand[k])
        n == Len(s.at)
    IN  IF n = 0 THEN Skip
        ELSE \E i \in Pick(1..n), lo0 \in Pick({-1, 0, 2, 5}), hi \in Pick({3, 6, 9, 14}) :
             LET lo == IF Jit(s) THEN Max2(lo0, 0) ELSE lo0
                 T == UNION {{<<q>> \o b[1] \o <<b[2]>> : b \in Bonds(s, i, q, lo, hi)} : q \in 1..n}
             IN  Query("bonds", <<k, i - 1, lo, hi>>, [bonds |-> SortedTuples(T), mult |-> Mult(s, i)])
\* does the structure customize a calculator
DoConfig == \E k \in Pick(Slots), how \in Pick({"set", "eval", "direct"}) :
    Query("config", <<k, how>>, [called |-> Bs(hand[k]).custom /\ ~Has(hand[k], "nometa")])
\* equality of the bases
SameCell(s, z) == s.k = "atom" \/ (s.g = z.g /\ s.D = z.D)
DoEq == \E k \in Pick(Slots), j \in Pick(Slots) :
    LET s == Bs(hand[k])
        z == Bs(hand[j])
    IN  IF hand[k].b = 0 \/ hand[j].b = 0 \/ s.k # z.k \/ s.tight # z.tight THEN Skip
        ELSE Query("eq", <<k, j>>, [eq |-> s.at = z.at /\ SameCell(s, z) /\ s.ops = z.ops])
\* Fractional coordinates.  Displacements are relative to the lattice
\* vectors divided by the lengths of the reciprocal ones.
DoFrac == \E k \in Pick(Slots) :
    LET s == Bs(hand[k])
        n == Len(s.at)
        a == Adj(s.g)
        UE(x) == IF x[3] = 0 THEN Dv(0, 1) ELSE Dv(x[3] * Det(s.g), Sq(a[x[1]] * a[x[2]]))
    IN  IF s.k = "atom" \/ n = 0 \/ Jit(s) THEN Skip
        ELSE \E i \in Pick(1..n) :
             LET u == s.at[i].u IN
             Query("frac", <<k, i - 1>>, [an |-> Aniso(s.at[i]), x |-> [q \in I3 |-> Dv(s.at[i].p[q], s.D[q])],
                                          u |-> <<UE(<<1, 1, u[1][1]>>), UE(<<2, 2, u[2][2]>>), UE(<<3, 3, u[3][3]>>),
                                                  UE(<<1, 2, u[1][2]>>), UE(<<1, 3, u[1][3]>>), UE(<<2, 3, u[2][3]>>)>>,
                                          back |-> TRUE])

-----------------------------------------------------------------------------
(* structure difference *)
RECURSIVE Peel(_, _)
Peel(v, w) == IF v = <<>> \/ w = <<>> \/ v[1] # w[1] THEN <<v, w>> ELSE Peel(Tail(v), Tail(w))
Idx(n) == [i \in 1..n |-> i - 1]
Pick1(S) == [i \in 1..Len(S) |-> S[i] - 1]
SideBySide(s, z) ==
    LET n == Min2(Len(s), Len(z))
        D == {i \in 1..n : s[i] # z[i]}
    IN  <<Sorted(D \cup ((n + 1)..Len(s))), Sorted(D \cup ((n + 1)..Len(z)))>>
\* members of s that are not in z, each as many times as there are extra ones
Count(s, x, n) == Cardinality({i \in 1..n : s[i] = x})
Extra(s, z) == SelectSeq([i \in 1..Len(s) |-> <<i, s[i]>>], LAMBDA e : Count(s, e[2], e[1]) > Count(z, e[2], Len(z)))
Key(x) == <<x.t>> \o x.p \o x.j \o <<x.occ, IF Aniso(x) THEN 1 ELSE 0>> \o U6(x.u)
Bag(ex) == [bag |-> [i \in 1..Len(ex) |-> Key(ex[i][2])]]
Complete(s, z) == [method |-> 0, pop |-> Idx(Len(s.at)), add |-> Idx(Len(z.at))]
\* v and w are wrappers
DiffOf(h, h2) ==
    LET p == Peel(h.w, h2.w)
        s == Bs(h)
        z == Bs(h2)
    IN  IF h = h2 /\ h.b = h2.b THEN [method |-> 1, pop |-> <<>>, add |-> <<>>]
        ELSE IF p # <<<<>>, <<>>>> THEN Complete(s, z)
        ELSE IF h.b = 0 \/ h2.b = 0 \/ s.k # z.k \/ ~SameCell(s, z) \/ s.ops # z.ops \/ (s.k = "crys" /\ s.tight # z.tight) THEN Complete(s, z)
        ELSE LET sbs == SideBySide(s.at, z.at)
             IN  [oneof |-> <<[method |-> 1, pop |-> Pick1(sbs[1]), add |-> Pick1(sbs[2])],
                              [method |-> 2, popbag |-> Bag(Extra(s.at, z.at)), addbag |-> Bag(Extra(z.at, s.at))]>>]
\* pairs of similar structures are preferred
Similar == {kj \in Slots \X Slots : LET h == hand[kj[1]]
                                       h2 == hand[kj[2]]
                                   IN  h.w = h2.w /\ h.b # h2.b /\ Bs(h).k = Bs(h2).k /\ SameCell(Bs(h), Bs(h2))}
DoDiff == \E w \in Pick(1..3) : \E kj \in Pick(IF w = 1 \/ Similar = {} THEN Slots \X Slots ELSE Similar) :
    Query("diff", kj, [ok |-> TRUE] @@ DiffOf(hand[kj[1]], hand[kj[2]]))
\* null pointers are empty structures
DoDiffNull == \E k \in Pick(Slots), w \in Pick(1..3) :
    LET n == Idx(Len(Bs(hand[k]).at)) IN
    CASE w = 1 -> Query("diffnull", <<k, w>>, [ok |-> TRUE, method |-> 0, pop |-> n, add |-> <<>>])
      [] w = 2 -> Query("diffnull", <<k, w>>, [ok |-> TRUE, method |-> 0, pop |-> <<>>, add |-> n])
      [] w = 3 -> Query("diffnull", <<k, w>>, [ok |-> TRUE, method |-> 0, pop |-> <<>>, add |-> <<>>])

-----------------------------------------------------------------------------
Group2(g) ==
    CASE g = "new" -> DoNew
      [] g = "variant" -> DoVariant
      [] g = "wrap" -> DoWrap
      [] g = "wrapnull" -> DoWrapNull
      [] g = "empty" -> DoEmpty
      [] g = "share" -> DoShare
      [] g = "copy" -> DoCopy
      [] g = "edit" -> DoEdit
      [] g = "ops" -> DoOps
      [] g = "cell" -> DoCell
      [] g = "data" -> DoData
      [] g = "totals" -> DoTotals
      [] g = "types" -> DoTypes
      [] g = "bonds" -> DoBonds
      [] g = "config" -> DoConfig
      [] g = "eq" -> DoEq
      [] g = "frac" -> DoFrac
      [] g = "diff" -> DoDiff
      [] g = "diffnull" -> DoDiffNull
Init ==
    /\ base = (0 :> Empty)
    /\ hand = [k \in Slots |-> [w |-> <<>>, b |-> 0]]
    /\ nid = 1
    /\ hist = <<>>
Next ==
    /\ Unfinished
    /\ IF Mode = "gen" /\ Len(hist) < NSlot - 1
       THEN \E kind \in Pick(Kinds) : \E s \in {WithCustom(RandGeom(kind))} : New(Len(hist) + 1, s)
       ELSE \E g \in Pick(1..Len(Weights)) : Group2(Weights[g])
Spec == Init /\ [][Next]_<<vars, hist>>
=============================================================================
