------------------------------ MODULE Tables ------------------------------
(* Tables of constants: bond valence parameters, scattering factors and     *)
(* atom radii.  The standard data are read from TableData.json, which holds *)
(* the distributed data files as integers.  Custom entries shadow them.     *)
EXTENDS Common
CONSTANTS Weights, NSlot, SFTypes
VARIABLES bv,  \* slot -> [cust, vals]
          sf,  \* slot -> [tp, cust]
          ra   \* slot -> [cust, def]
vars == <<bv, sf, ra>>
View == vars
Skip == UNCHANGED vars /\ Log("nop", <<>>, NoObs)
Slots == 1..NSlot
X(op, args) == [fn |-> op, x |-> args]
Div(a, b) == X("div", <<a, b>>)
Data == JsonDeserialize("TableData.json")

-----------------------------------------------------------------------------
(* symbols of atoms, isotopes and ions *)
Ch(s, i) == SubSeq(s, i, i)
RECURSIVE LStrip(_, _), RStrip(_, _)
LStrip(s, C) == IF Len(s) > 0 /\ Ch(s, 1) \in C THEN LStrip(SubSeq(s, 2, Len(s)), C) ELSE s
RStrip(s, C) == IF Len(s) > 0 /\ Ch(s, Len(s)) \in C THEN RStrip(SubSeq(s, 1, Len(s) - 1), C) ELSE s
Blank == {" ", "\t"}
Digits == {"0", "1", "2", "3", "4", "5", "6", "7", "8", "9"}
ChargeMarks == (Digits \ {"9"}) \cup {"+", "-"} \cup Blank
NoCharge(s) == RStrip(s, ChargeMarks)
BareSymbol(s) == LStrip(NoCharge(s), Digits \cup {"-"} \cup Blank)
DigitVal(c) == CASE c = "0" -> 0 [] c = "1" -> 1 [] c = "2" -> 2 [] c = "3" -> 3 [] c = "4" -> 4 [] c = "5" -> 5 [] c = "6" -> 6 [] c = "7" -> 7 [] c = "8" -> 8
AtomValence(s) ==
    LET t == RStrip(s, Blank)
        c == Ch(t, Len(t))
        sign == IF t = "" THEN 0 ELSE IF c = "+" THEN 1 ELSE IF c = "-" THEN -1 ELSE 0
        u == RStrip(SubSeq(t, 1, Len(t) - 1), Blank)
        d == Ch(u, Len(u))
    IN  IF sign = 0 THEN 0
        ELSE IF u # "" /\ d \in (Digits \ {"9"}) THEN sign * DigitVal(d) ELSE sign
Chars == "0123456789ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz"
Ord == [c \in {Ch(Chars, i) : i \in 1..Len(Chars)} |-> CHOOSE i \in 1..Len(Chars) : Ch(Chars, i) = c]
RECURSIVE StrLess(_, _)
StrLess(s, t) == IF t = "" THEN FALSE ELSE IF s = "" THEN TRUE
                 ELSE IF Ch(s, 1) # Ch(t, 1) THEN Ord[Ch(s, 1)] < Ord[Ch(t, 1)]
                 ELSE StrLess(SubSeq(s, 2, Len(s)), SubSeq(t, 2, Len(t)))

SuffixTexts == {"", "", "", "", "+", "-", "1+", "1-", "2+", "2-", "3+", "4+", " 2 -", " 3+ ", "0+", "9-", " ", "+-", "12-", "\t", "3 +"}
PrefixTexts == {"", "", "", "", "", "1-", "12-", " ", "0", "3 "}
\* a symbol written in an unusual way
Decorated(s) == LET p == RandomElement(1..3)
                    pre == RandomElement(PrefixTexts)
                    suf == RandomElement(SuffixTexts)
                IN  IF p = 1 THEN s ELSE IF p = 2 THEN pre \o s \o suf ELSE pre \o BareSymbol(s) \o suf

-----------------------------------------------------------------------------
(* bond valence parameters, a row is <<atom0, valence0, atom1, valence1, Ro, B, reference>> in units of 0.0001 *)
BvStd == Data.bv
BvNames == DOMAIN BvStd
NoRow == <<"", 0, "", 0, 0, 0, "">>
\* the atom of higher valence goes first
Ordered(a, v, b, w) == IF v < w \/ (v = w /\ StrLess(b, a)) THEN <<b, w, a, v>> ELSE <<a, v, b, w>>
Key(k) == k[1] \o " " \o ToString(k[2]) \o " " \o k[3] \o " " \o ToString(k[4])
BvLookup(t, k) ==
    LET x == Key(k)
        y == Key(<<k[1], 9, k[3], k[4]>>)
    IN  IF x \in DOMAIN t.cust THEN t.cust[x]
        ELSE IF x \in BvNames THEN BvStd[x]
        ELSE IF k[2] <= 0 THEN NoRow
        ELSE IF y \in DOMAIN t.cust THEN t.cust[y]
        ELSE IF y \in BvNames THEN BvStd[y]
        ELSE NoRow
BvValence(t, s) == Get(t.vals, s, AtomValence(s))
BvTextKey(t, r, s) == Ordered(BareSymbol(r), BvValence(t, r), BareSymbol(s), BvValence(t, s))
Rows(t) == [bag |-> SetToSeq({t.cust[x] : x \in DOMAIN t.cust})]
NewBv == [cust |-> EmptyFn, vals |-> EmptyFn]
BvPut(k, t, op, a, e) == /\ bv' = [bv EXCEPT ![k] = t]
                         /\ UNCHANGED <<sf, ra>>
                         /\ Log(op, <<k>> \o a, e @@ [refused |-> FALSE, cust |-> Rows(t)])
BvSame(k, op, a, e) == UNCHANGED vars /\ Log(op, <<k>> \o a, e @@ [refused |-> FALSE, cust |-> Rows(bv[k])])
\* few pairs that are likely to repeat, pairs from the standard table and their variants
FewAtoms == {"Na", "Cl", "Fe", "O", "Xa"}
FewVals == {-2, -1, 0, 1, 2, 3, 9}
RandPair(n) ==
    LET
        r == BvStd[RandomElement(BvNames)]
        a == RandomElement(FewAtoms)
        b == RandomElement(FewAtoms)
        v == RandomElement(FewVals)
        w == RandomElement(FewVals)
        dv == RandomElement({1, 2, 9})
    IN  CASE n <= 4 -> <<a, v, b, w>>
          [] n = 5 -> <<r[1], r[2], r[3], r[4]>>
          [] n = 6 -> <<r[3], r[4], r[1], r[2]>>
          [] n = 7 -> <<r[1], dv, r[3], r[4]>>
          [] n = 8 -> <<r[3], r[4], r[1], dv>>
\* custom pairs of this table are preferred
RandKey(t) == LET x == RandomElement(DOMAIN t.cust)
                  k == SubSeq(t.cust[x], 1, 4)
                  c == RandomElement(1..5)
                  v == RandomElement({1, 2, 3, 9})
              IN
              IF t.cust # EmptyFn /\ c = 1 THEN k
              ELSE IF t.cust # EmptyFn /\ c = 2 THEN [k EXCEPT ![2] = v]
              ELSE IF t.cust # EmptyFn /\ c = 3 THEN <<k[3], k[4], k[1], k[2]>>
              ELSE RandPair(RandomElement(1..8))
Hows == {"args", "param"}
DoBvSet == \E k \in Pick(Slots), ro \in Pick({15000, 15003, 20000, 21330, 0}), b \in Pick({3700, 3700, 4000, 3701, 0}), ref \in Pick({"", "me", "b"}), how \in Pick(Hows) : \E p \in {RandKey(bv[k])} :
    LET key == Ordered(p[1], p[2], p[3], p[4])
        row == key \o <<ro, b, ref>>
    IN  BvPut(k, [bv[k] EXCEPT !.cust = With(@, Key(key), row)], "bvset", p \o <<ro, b, ref, how>>, [row |-> row])
\* an entry found in a table is made custom in the same or other table
DoBvCopy == \E k \in Pick(Slots), j \in Pick(Slots) : \E p \in {RandKey(bv[j])} :
    LET row == BvLookup(bv[j], Ordered(p[1], p[2], p[3], p[4]))
    IN  IF row = NoRow THEN Skip
        ELSE BvPut(k, [bv[k] EXCEPT !.cust = With(@, Key(row), row)], "bvcopy", <<j>> \o p, [row |-> row])
DoBvReset == \E k \in Pick(Slots), how \in Pick(Hows) : \E p \in {RandKey(bv[k])} :
    BvPut(k, [bv[k] EXCEPT !.cust = Without(@, {Key(Ordered(p[1], p[2], p[3], p[4]))})], "bvreset", p \o <<how>>, EmptyFn)
DoBvResetAll == \E k \in Pick(Slots) : BvPut(k, [bv[k] EXCEPT !.cust = EmptyFn], "bvresetall", <<>>, EmptyFn)
RandBvText(p) == LET s == RandomElement(SuffixTexts)
                     c == RandomElement(1..3)
                     q == RandomElement(PrefixTexts)
                     v == p[2]
                     ion == IF v = 0 THEN "" ELSE (IF Abs(v) = 1 THEN "" ELSE ToString(Abs(v))) \o (IF v > 0 THEN "+" ELSE "-")
                 IN  IF c = 1 THEN q \o p[1] \o s ELSE IF v = 9 THEN p[1] ELSE p[1] \o ion
FewTexts == {"Na", "Na+", "O", "O2-", "Cl-", "Fe", "Fe3+", "Xa", "Xa2+"}
DoBvValence == \E k \in Pick(Slots), s \in Pick(FewTexts), v \in Pick(FewVals) :
    BvPut(k, [bv[k] EXCEPT !.vals = With(@, s, v)], "bvval", <<s, v>>, EmptyFn)
DoBvNoValences == \E k \in Pick(Slots) : BvPut(k, [bv[k] EXCEPT !.vals = EmptyFn], "bvnoval", <<>>, EmptyFn)
DoBvGetValence == \E k \in Pick(Slots) : \E p \in {RandKey(bv[k])} : \E s \in {RandBvText(p)}, few \in Pick(FewTexts), c \in Pick(BOOLEAN) :
    LET x == IF c THEN few ELSE s IN BvSame(k, "bvgetval", <<x>>, [v |-> BvValence(bv[k], x)])
\* valence of a bond of length d / 100 and length of a bond of valence v / 10
BondValence(r, d) == IF r[6] <= 0 THEN 0 ELSE X("exp", <<Div(r[5] - 100 * d, r[6])>>)
BondLength(r, v) == X("sub", <<Div(r[5], 10000), X("mul", <<Div(r[6], 10000), X("log", <<Div(v, 10)>>)>>)>>)
DoBvLookup == \E k \in Pick(Slots), how \in Pick(Hows), d \in Pick({0, 150, 215, 300}), v \in Pick({1, 5, 10, 40}) : \E p \in {RandKey(bv[k])} :
    BvSame(k, "bvlookup", p \o <<how, d, v>>, [valence |-> BondValence(BvLookup(bv[k], Ordered(p[1], p[2], p[3], p[4])), d),
                                           length |-> BondLength(BvLookup(bv[k], Ordered(p[1], p[2], p[3], p[4])), v), row |-> BvLookup(bv[k], Ordered(p[1], p[2], p[3], p[4])), rev |-> BvLookup(bv[k], Ordered(p[1], p[2], p[3], p[4]))])
\* symbols and valences of arbitrary texts
RECURSIVE RandText(_, _)
RandText(n, C) == IF n = 0 THEN "" ELSE RandomElement(C) \o RandText(n - 1, C)
DoSymbol == \E l \in {RandText(RandomElement({0, 0, 1, 2, 3}), {"1", "2", "0", "9", "-", " ", "\t"})}, m \in {RandText(RandomElement(1..3), {"C", "l", "S", "e", "9"})},
               r \in {RandText(RandomElement(0..4), {"1", "2", "4", "8", "0", "+", "-", "+", "-", " ", "\t"})}, c \in Pick(1..8) :
    LET x == IF c = 1 THEN r ELSE l \o "X" \o m \o r
    IN  UNCHANGED vars /\ Log("symbol", <<x>>, [refused |-> FALSE, bare |-> BareSymbol(x), valence |-> AtomValence(x)])
DoBvText == \E k \in Pick(Slots) : \E p \in {RandKey(bv[k])} : \E r \in {RandBvText(p)}, s \in {RandBvText(<<p[3], p[4]>>)}, few \in Pick(FewTexts), few2 \in Pick(FewTexts), c \in Pick(1..3) :
    LET x == IF c = 1 THEN few ELSE r
        y == IF c = 1 THEN few2 ELSE s
    IN  BvSame(k, "bvtext", <<x, y>>, [row |-> BvLookup(bv[k], BvTextKey(bv[k], x, y)), rev |-> BvLookup(bv[k], BvTextKey(bv[k], x, y))])
\* entries of both tables, custom ones shadow the standard ones
DoBvAll == \E k \in Pick(Slots) :
    BvSame(k, "bvall", <<>>, [n |-> Cardinality(BvNames \cup DOMAIN bv[k].cust), shadow |-> Rows(bv[k])])
DoBvStd == \E k \in Pick(Slots) :
    LET t == bv[k] IN
    BvSame(k, "bvrows", <<>>, [rows |-> [bag |-> SetToSeq({IF x \in DOMAIN t.cust THEN t.cust[x] ELSE BvStd[x] : x \in BvNames \cup DOMAIN t.cust})]])
\* entries are equal when all their items are, those of the same bond have equal keys
DoBvEq == \E k \in Pick(Slots), j \in Pick(Slots), c \in Pick(BOOLEAN) : \E p \in {RandKey(bv[k])} : \E q \in {IF c THEN p ELSE RandKey(bv[j])} :
    LET x == BvLookup(bv[k], Ordered(p[1], p[2], p[3], p[4]))
        y == BvLookup(bv[j], Ordered(q[1], q[2], q[3], q[4]))
    IN  BvSame(k, "bveq", <<j>> \o p \o q, [eq |-> x = y, ne |-> x # y, bond |-> SubSeq(x, 1, 4) = SubSeq(y, 1, 4), hash |-> TRUE])
DoBvNew == \E k \in Pick(Slots) : BvPut(k, NewBv, "bvnew", <<>>, EmptyFn)
DoBvCopyTable == \E k \in Pick(Slots), j \in Pick(Slots), op \in Pick({"bvclone", "bvsave"}) : BvPut(k, bv[j], op, <<j>>, EmptyFn)
\* lines of the data file
DoBvParse == \E cut \in Pick({0, 0, 0, 1, 2, 5, 7}), bad \in Pick({0, 0, 0, 2, 4, 5, 6}), more \in Pick({0, 1}) : \E p \in {RandPair(RandomElement(1..8))} :
    LET words0 == <<p[1], ToString(p[2]), p[3], ToString(p[4]), "1.967", "0.37", "a">>
        words1 == IF bad = 0 THEN words0 ELSE [words0 EXCEPT ![bad] = "x" \o @]
        words == SubSeq(words1, 1, 7 - cut) \o (IF more = 1 /\ cut = 0 THEN <<"etc", "1">> ELSE <<>>)
        ok == cut = 0 /\ bad = 0
    IN  UNCHANGED vars /\ Log("bvparse", <<words>>, [refused |-> ~ok, row |-> IF ok THEN Ordered(p[1], p[2], p[3], p[4]) \o <<19670, 3700, "a">>
                                                                              ELSE <<"Qa", 1, "Qb", 0, 10000, 5000, "q">>])

-----------------------------------------------------------------------------
(* scattering factors, types are X-ray, neutron, electron and number of electrons *)
SfStd(tp) == CASE tp = "N" -> Data.neutron [] tp = "EN" -> Data.en [] OTHER -> Data.xray
SfNames(tp) == DOMAIN SfStd(tp)
\* the standard symbol or "" when there is none
Resolve(tp, s) ==
    LET v == AtomValence(s)
        t == CASE tp = "N" -> NoCharge(s)
               [] tp = "EN" -> BareSymbol(s) \o (IF v = 0 THEN "" ELSE ToString(Abs(v)) \o (IF v > 0 THEN "+" ELSE "-"))
               [] OTHER -> IF v = 0 THEN BareSymbol(s) ELSE IF Abs(v) = 1 THEN BareSymbol(s) \o (IF v > 0 THEN "1+" ELSE "1-") ELSE ""
    IN  IF s \in SfNames(tp) THEN s ELSE IF t \in SfNames(tp) THEN t ELSE ""
Mega(n) == Div(n, 1000000)
\* (Q / 4 pi)^2 for Q in tenths
Stol2(q) == Div(q * q, X("mul", <<1600, X("pi", <<>>), X("pi", <<>>)>>))
FX(r, q) == X("add", <<Mega(r[6])>> \o [i \in 1..5 |-> X("mul", <<Mega(r[i]), X("exp", <<X("mul", <<Mega(-r[6 + i]), Stol2(q)>>)>>)>>)])
NElectrons(r) == (r[1] + r[2] + r[3] + r[4] + r[5] + r[6] + 500000) \div 1000000
\* standard factor of a standard symbol
SfValue(tp, s, q) ==
    LET r == SfStd(tp)[s] IN
    CASE tp = "N" -> Div(r, 100000)
      [] tp = "EN" -> r
      [] tp = "X" -> FX(r, q)
      [] tp = "E" -> Div(X("mul", <<Mega(23934), X("sub", <<NElectrons(r), FX(r, q)>>)>>), Stol2(q))
\* a custom entry is [src, q, v], standard values of src are scaled to v at q, no scaling if q < 0
SfEntry(t, s) == Get(t.cust, s, [src |-> s, q |-> -1, v |-> 0])
SfLookup(t, s, q) ==
    LET e == SfEntry(t, s)
        r == Resolve(t.tp, e.src)
    IN  IF r = "" THEN Refused
        ELSE IF t.tp = "E" /\ q = 0 THEN EmptyFn
        ELSE IF e.q < 0 THEN [refused |-> FALSE, f |-> SfValue(t.tp, r, q)]
        ELSE IF t.tp = "E" /\ e.q = 0 THEN EmptyFn
        ELSE IF e.q = q THEN [refused |-> FALSE, f |-> Div(e.v, 4)]
        ELSE [refused |-> FALSE, f |-> Div(X("mul", <<SfValue(t.tp, r, q), e.v>>), X("mul", <<4, SfValue(t.tp, r, e.q)>>))]
Symbols(t) == [bag |-> SetToSeq(DOMAIN t.cust)]
NewSf(tp) == [tp |-> tp, cust |-> EmptyFn]
SfState(t) == [symbols |-> Symbols(t), tp |-> t.tp, others |-> FALSE]
SfPut(k, t, op, a, e) == /\ sf' = [sf EXCEPT ![k] = t]
                         /\ UNCHANGED <<bv, ra>>
                         /\ Log(op, <<k>> \o a, e @@ [refused |-> FALSE] @@ SfState(t))
SfSame(k, op, a, e) == UNCHANGED vars /\ Log(op, <<k>> \o a, e @@ SfState(sf[k]))
\* curve of an entry, equal curves give equal factors for any Q
\* (neutron and electron number factors do not depend on Q)
Const(tp, r, e) == IF e.q >= 0 THEN e.v * 25000 ELSE IF tp = "N" THEN SfStd(tp)[r] ELSE SfStd(tp)[r] * 100000
Curve(tp, e) == LET r == Resolve(tp, e.src) IN
    IF r = "" THEN <<"">>
    ELSE IF tp \in {"N", "EN"} THEN <<ToString(Const(tp, r, e))>>
    ELSE <<r, ToString(e.q), ToString(e.v)>>
\* the ticker must advance when factors change and must not when the same request is repeated
Ticked(tp, old, new, same) == IF same THEN [tick |-> FALSE] ELSE IF Curve(tp, old) # Curve(tp, new) THEN [tick |-> TRUE] ELSE EmptyFn
FewSyms == {"C", "Na", "Na+", "O2-", "Cl-", "Fe", "A", "B"}
RandSym(tp) == LET c == RandomElement(1..3)
                   f == RandomElement(FewSyms)
                   u == RandomElement({"Xx", "", "C9+", "Q", "Na11", "c"})
                   s == Decorated(RandomElement(SfNames(tp)))
                   w == RandomElement(1..12)
               IN  IF w = 1 THEN u ELSE IF c = 1 THEN s ELSE f
RandSource(tp) == LET c == RandomElement(1..4)
                      s == Decorated(RandomElement(SfNames(tp)))
                      r == RandSym(tp)
                  IN  IF c = 1 THEN r ELSE s
Qs == {0, 5, 13, 40, 120}
RandCustom(t) == LET c == RandomElement(1..4)
                     s == RandomElement(DOMAIN t.cust)
                     r == RandSym(t.tp)
                 IN  IF c > 1 /\ t.cust # EmptyFn THEN s ELSE r
\* source for a custom entry, often the one in use
SourceFor(t, s) == LET c == RandomElement(1..5)
                       r == RandSource(t.tp)
                   IN  IF c = 1 THEN s ELSE IF c < 4 /\ s \in DOMAIN t.cust THEN t.cust[s].src ELSE r
SymbolFor(t) == LET c == RandomElement(1..2)
                    s == RandCustom(t)
                    r == RandSym(t.tp)
                IN  IF c = 1 THEN s ELSE r
ZeroFactor(tp, s) == (tp = "EN" /\ Data.en[s] = 0) \/ (tp = "N" /\ Data.neutron[s] = 0)
DoSfAs == \E k \in Pick(Slots) : \E s \in {SymbolFor(sf[k])} : \E r \in {SourceFor(sf[k], s)} :
    LET t == sf[k]
        e == [src |-> r, q |-> -1, v |-> 0]
    IN  SfPut(k, [t EXCEPT !.cust = With(@, s, e)], "sfas", <<s, r>>, Ticked(t.tp, SfEntry(t, s), e, s \in DOMAIN t.cust /\ t.cust[s] = e))
\* value in quarters
DoSfValue == \E k \in Pick(Slots), q \in Pick(Qs), v \in Pick({1, 4, 6, -10, 50}) : \E s \in {SymbolFor(sf[k])} : \E r \in {SourceFor(sf[k], s)} :
    LET t == sf[k]
        e == [src |-> r, q |-> q, v |-> v]
        z == Resolve(t.tp, r)
    IN  IF z = "" THEN SfSame(k, "sfvalue", <<s, r, q, v>>, [refused |-> TRUE, tick |-> FALSE])
        ELSE IF ZeroFactor(t.tp, z) THEN Skip
        ELSE SfPut(k, [t EXCEPT !.cust = With(@, s, e)], "sfvalue", <<s, r, q, v>>, Ticked(t.tp, SfEntry(t, s), e, s \in DOMAIN t.cust /\ t.cust[s] = e))
\* repeat of a request
DoSfRepeat == \E k \in Pick(Slots) :
    LET t == sf[k] IN
    IF t.cust = EmptyFn THEN Skip ELSE \E s \in Pick(DOMAIN t.cust) :
    LET e == t.cust[s] IN
    IF e.q < 0 THEN SfSame(k, "sfas", <<s, e.src>>, [refused |-> FALSE, tick |-> FALSE])
    ELSE SfSame(k, "sfvalue", <<s, e.src, e.q, e.v>>, [refused |-> FALSE, tick |-> FALSE])
DoSfReset == \E k \in Pick(Slots) : \E s \in {RandCustom(sf[k])} :
    LET t == sf[k] IN
    SfPut(k, [t EXCEPT !.cust = Without(@, {s})], "sfreset", <<s>>, Ticked(t.tp, SfEntry(t, s), [src |-> s, q |-> -1, v |-> 0], s \notin DOMAIN t.cust))
DoSfResetAll == \E k \in Pick(Slots) :
    LET t == sf[k]
        changed == \E s \in DOMAIN t.cust : Curve(t.tp, t.cust[s]) # Curve(t.tp, [src |-> s, q |-> -1, v |-> 0])
    IN  SfPut(k, [t EXCEPT !.cust = EmptyFn], "sfresetall", <<>>, IF t.cust = EmptyFn THEN [tick |-> FALSE] ELSE IF changed THEN [tick |-> TRUE] ELSE EmptyFn)
DoSfLookup == \E k \in Pick(Slots), q \in Pick(Qs) : \E s \in {RandCustom(sf[k])} : SfSame(k, "sflookup", <<s, q>>, SfLookup(sf[k], s, q) @@ [tick |-> FALSE])
\* standard factors of symbols in any notation, they do not depend on custom entries
DoSfStd == \E k \in Pick(Slots), q \in Pick(Qs) : \E s \in {RandSource(sf[k].tp)} : SfSame(k, "sfstd", <<s, q>>, SfLookup(NewSf(sf[k].tp), s, q) @@ [tick |-> FALSE])
DoSfNew == \E k \in Pick(Slots), tp \in Pick(SFTypes), al \in Pick(BOOLEAN) : SfPut(k, NewSf(tp), "sfnew", <<tp, al>>, EmptyFn)
DoSfCopy == \E k \in Pick(Slots), j \in Pick(Slots), op \in Pick({"sfclone", "sfsave"}) : SfPut(k, sf[j], op, <<j>>, EmptyFn)
\* a new table of the same type is created from a customized one
DoSfCreate == \E k \in Pick(Slots), j \in Pick(Slots) : SfPut(k, NewSf(sf[j].tp), "sfcreate", <<j>>, EmptyFn)

-----------------------------------------------------------------------------
(* atom radii in units of 0.001 *)
RaSyms == <<"", "A", "B1+", "Ca", "Ca2+", "O2-", "a">>
RaSym == {RaSyms[i] : i \in 2..Len(RaSyms)}
\* texts of numbers and their values
Numbers == {<<"1", 1000>>, <<"1.0", 1000>>, <<"01.50", 1500>>, <<"+1.5", 1500>>, <<".5", 500>>, <<"5e-1", 500>>, <<"25E-2", 250>>, <<"0.25", 250>>,
            <<"2.", 2000>>, <<"20e-1", 2000>>, <<"0", 0>>, <<"-0.125", -125>>, <<"1.974", 1974>>, <<"12", 12000>>, <<"1.2e1", 12000>>, <<"0.008", 8>>}
Shown == [v \in {n[2] : n \in Numbers} |->
    CASE v = 1000 -> "1" [] v = 1500 -> "1.5" [] v = 500 -> "0.5" [] v = 250 -> "0.25" [] v = 2000 -> "2" [] v = 0 -> "0" [] v = -125 -> "-0.125"
      [] v = 1974 -> "1.974" [] v = 12000 -> "12" [] v = 8 -> "0.008"]
BadItems == {"A", "A:", "A:x", "Ca", "A:1x", "A:1:2", "A:1;B1+:2", "A:--1", "A:1.2.3", "A:1e", ":", "A:0x1", "A:1,5:", "Ca2+:1 a:2"}
NewRa == [cust |-> EmptyFn, def |-> 0]
RaState(t) == [radii |-> [bag |-> SetToSeq({<<s, t.cust[s]>> : s \in DOMAIN t.cust})], def |-> t.def]
RaPut(k, t, op, a, e) == /\ ra' = [ra EXCEPT ![k] = t]
                         /\ UNCHANGED <<bv, sf>>
                         /\ Log(op, <<k>> \o a, e @@ [refused |-> FALSE] @@ RaState(t))
RaSame(k, op, a, e) == UNCHANGED vars /\ Log(op, <<k>> \o a, e @@ [refused |-> FALSE] @@ RaState(ra[k]))
DoRaSet == \E k \in Pick(Slots), s \in Pick(RaSym), n \in Pick(Numbers) : RaPut(k, [ra[k] EXCEPT !.cust = With(@, s, n[2])], "raset", <<s, n[2]>>, EmptyFn)
DoRaReset == \E k \in Pick(Slots), s \in Pick(RaSym) : RaPut(k, [ra[k] EXCEPT !.cust = Without(@, {s})], "rareset", <<s>>, EmptyFn)
DoRaResetAll == \E k \in Pick(Slots) : RaPut(k, [ra[k] EXCEPT !.cust = EmptyFn], "raresetall", <<>>, EmptyFn)
DoRaDefault == \E k \in Pick(Slots), n \in Pick(Numbers) : RaPut(k, [ra[k] EXCEPT !.def = n[2]], "radef", <<n[2]>>, EmptyFn)
DoRaLookup == \E k \in Pick(Slots), s \in Pick(RaSym) : RaSame(k, "ralookup", <<s>>, [r |-> Get(ra[k].cust, s, ra[k].def), std |-> ra[k].def])
\* items of a radii text, <<text, symbol, value, valid>>
Gap == {"", "", " ", "  ", "\t", "\n"}
RandItem(bads) ==
    LET s == RandomElement(RaSym)
        n == RandomElement(Numbers)
        g1 == RandomElement(Gap)
        g2 == RandomElement(Gap)
        g3 == RandomElement(Gap)
        g4 == RandomElement(Gap)
        b == RandomElement(BadItems)
        c == RandomElement(1..6)
    IN  IF bads /\ c = 1 THEN <<g1 \o b \o g2, "", 0, FALSE>> ELSE <<g1 \o s \o g2 \o ":" \o g3 \o n[1] \o g4, s, n[2], TRUE>>
RECURSIVE RandItems(_, _)
RandItems(n, bads) == IF n = 0 THEN <<>> ELSE Append(RandItems(n - 1, bads), RandItem(bads))
RECURSIVE Assigned(_, _), Joined(_, _)
Assigned(f, items) == IF items = <<>> THEN f ELSE Assigned(With(f, items[1][2], items[1][3]), Tail(items))
Joined(items, sep) == IF items = <<>> THEN "" ELSE IF Len(items) = 1 THEN items[1][1] ELSE items[1][1] \o sep \o Joined(Tail(items), sep)
DoRaText == \E k \in Pick(Slots), n \in Pick(0..4), bads \in Pick(BOOLEAN), sep \in Pick({",", ",", ",,", ", ,"}), pre \in Pick({"", "", ",", " "}), post \in Pick({"", "", ",", " \n"}) :
    \E items \in {RandItems(n, bads)} :
    LET text == pre \o Joined(items, sep) \o post IN
    IF \E i \in 1..n : ~items[i][4] THEN RaSame(k, "ratext", <<text>>, Refused)
    ELSE RaPut(k, [ra[k] EXCEPT !.cust = Assigned(@, items)], "ratext", <<text>>, EmptyFn)
RaSorted(t) == SelectSeq(RaSyms, LAMBDA s : s \in DOMAIN t.cust)
RaText(t, sep) == LET q == RaSorted(t) IN Joined([i \in 1..Len(q) |-> <<q[i] \o ":" \o Shown[t.cust[q[i]]]>>], sep)
DoRaShow == \E k \in Pick(Slots), sep \in Pick({",", ", ", "; ", "", "::"}) : RaSame(k, "rashow", <<sep>>, [text |-> RaText(ra[k], sep)])
\* the written text restores the custom radii
DoRaTrip == \E k \in Pick(Slots), j \in Pick(Slots), sep \in Pick({",", ", ", " , ", ",\n"}) :
    IF k = j THEN Skip ELSE RaPut(k, [ra[k] EXCEPT !.cust = ra[j].cust @@ @], "ratrip", <<j, sep>>, EmptyFn)
DoRaNew == \E k \in Pick(Slots) : RaPut(k, NewRa, "ranew", <<>>, EmptyFn)
DoRaCopy == \E k \in Pick(Slots), j \in Pick(Slots), op \in Pick({"raclone", "rasave"}) : RaPut(k, ra[j], op, <<j>>, EmptyFn)
DoRaCreate == \E k \in Pick(Slots), j \in Pick(Slots) : RaPut(k, NewRa, "racreate", <<j>>, EmptyFn)

ActOf(g) ==
    CASE g = "bvset" -> DoBvSet
      [] g = "bvcopy" -> DoBvCopy
      [] g = "bvreset" -> DoBvReset
      [] g = "bvresetall" -> DoBvResetAll
      [] g = "bvval" -> DoBvValence
      [] g = "bvnoval" -> DoBvNoValences
      [] g = "bvgetval" -> DoBvGetValence
      [] g = "symbol" -> DoSymbol
      [] g = "bvlookup" -> DoBvLookup
      [] g = "bvtext" -> DoBvText
      [] g = "bvall" -> DoBvAll
      [] g = "bvrows" -> DoBvStd
      [] g = "bveq" -> DoBvEq
      [] g = "bvnew" -> DoBvNew
      [] g = "bvcopytable" -> DoBvCopyTable
      [] g = "bvparse" -> DoBvParse
      [] g = "sfas" -> DoSfAs
      [] g = "sfvalue" -> DoSfValue
      [] g = "sfrepeat" -> DoSfRepeat
      [] g = "sfreset" -> DoSfReset
      [] g = "sfresetall" -> DoSfResetAll
      [] g = "sflookup" -> DoSfLookup
      [] g = "sfstd" -> DoSfStd
      [] g = "sfnew" -> DoSfNew
      [] g = "sfcopy" -> DoSfCopy
      [] g = "sfcreate" -> DoSfCreate
      [] g = "raset" -> DoRaSet
      [] g = "rareset" -> DoRaReset
      [] g = "raresetall" -> DoRaResetAll
      [] g = "radef" -> DoRaDefault
      [] g = "ralookup" -> DoRaLookup
      [] g = "ratext" -> DoRaText
      [] g = "rashow" -> DoRaShow
      [] g = "ratrip" -> DoRaTrip
      [] g = "ranew" -> DoRaNew
      [] g = "racopy" -> DoRaCopy
      [] g = "racreate" -> DoRaCreate

Init ==
    /\ bv = [k \in Slots |-> NewBv]
    /\ ra = [k \in Slots |-> NewRa]
    /\ \E tp \in SFTypes :
       /\ sf = [k \in Slots |-> NewSf(tp)]
       /\ hist = <<[op |-> "tables", a |-> <<NSlot, tp>>, e |-> NoObs]>>
Next == Unfinished /\ \E g \in Pick(1..Len(Weights)) : ActOf(Weights[g])
Spec == Init /\ [][Next]_<<vars, hist>>
=============================================================================
