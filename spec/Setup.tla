------------------------------- MODULE Setup -------------------------------
(* Configuration of calculators: own attributes, owned components (peak       *)
(* width, profile, baseline, envelopes, scattering factors) which may be      *)
(* shared by several calculators, named attributes that reach them, refusals, *)
(* tickers, and the composition of the PDF on the result grids.               *)
(* Numbers are integers in units of Unit(attribute).                          *)
EXTENDS Common
CONSTANTS Weights, NSlot, Kinds
VARIABLES comp,  \* id -> [t, v] components, a value is <<how it was set, number>>
          sft,   \* id -> [t, c] scattering factor tables with custom values
          calc   \* slot -> calculator
vars == <<comp, sft, calc>>
View == vars
Skip == UNCHANGED vars /\ Log("nop", <<>>, NoObs)
Slots == 1..NSlot
Whatever == [any |-> 1]

X(op, args) == [fn |-> op, x |-> args]
Mul(a, b) == X("mul", <<a, b>>)
Div(a, b) == X("div", <<a, b>>)
Add(a, b) == X("add", <<a, b>>)
Sub(a, b) == X("sub", <<a, b>>)
Sq(a) == Mul(a, a)
Sqrt(a) == X("sqrt", <<a>>)
If(c, a, b) == X("if", <<c, a, b>>)
Lt(a, b) == X("lt", <<a, b>>)
Le(a, b) == X("le", <<a, b>>)
Eq(a, b) == X("eq", <<a, b>>)
And(s) == X("and", s)
XMax(a, b) == X("max", <<a, b>>)
XMin(a, b) == X("min", <<a, b>>)
Neg(a) == Sub(0, a)
PI == X("pi", <<>>)
ObsAt(path) == [fn |-> "obs", x |-> path]
Milli(n) == Div(n, 1000)
LN2 == X("log", <<2>>)

-----------------------------------------------------------------------------
\* kinds of calculators and their own attributes
RW(k) == CASE k = "pdf" -> {"qmin", "qmax", "rmin", "rmax", "rstep", "maxextension"}
           [] k = "debye" -> {"debyeprecision", "qmin", "qmax", "qstep", "rmin", "rmax", "rstep", "maxextension"}
           [] k = "sum" -> {"debyeprecision", "rmin", "rmax"}
           [] k = "overlap" -> {"rmin", "rmax"}
           [] k = "bvs" -> {"valenceprecision", "rmin", "rmax"}
           [] OTHER -> {"rmin", "rmax"}
RO(k) == CASE k = "pdf" -> {"qstep", "extendedrmin", "extendedrmax"}
           [] k = "debye" -> {"extendedrmin", "extendedrmax"}
           [] k \in {"overlap", "bvs"} -> {"rmaxused"}
           [] OTHER -> {}
\* values that have setters but no attributes
Hidden(k) == IF k = "sum" THEN {"qmin", "qmax", "qstep"} ELSE {}
HasWidth(k) == k \in {"pdf", "debye", "sum"}
HasEnv(k) == k \in {"pdf", "debye"}
HasSf(k) == k \in {"pdf", "debye"}
Strict(k) == k \in {"pdf", "debye"}

WTypes == {"constant", "debye-waller", "jeong"}
PTypes == {"gaussian", "croppedgaussian"}
BTypes == {"linear", "zero"}
EnvOrder == <<"qresolution", "scale", "sphericalshape", "stepcut">>
ETypes == Range(EnvOrder)
STypes == {"xray", "neutron", "electron", "electronnumber"}
CAttrs(t) == CASE t = "constant" -> {"width", "uisowidth", "bisowidth"}
               [] t = "jeong" -> {"delta1", "delta2", "qbroad", "qbroad_seperable"}
               [] t \in PTypes -> {"peakprecision"}
               [] t = "linear" -> {"slope"}
               [] t = "scale" -> {"scale"}
               [] t = "qresolution" -> {"qdamp"}
               [] t = "sphericalshape" -> {"spdiameter"}
               [] t = "stepcut" -> {"stepcut"}
               [] OTHER -> {}
Absent == {"nosuch", "", "Rmax", "rmaxx", "width ", "value"}
AllNames == UNION {RW(k) \cup RO(k) : k \in {"pdf", "debye", "sum", "overlap", "bvs"}}
            \cup UNION {CAttrs(t) : t \in WTypes \cup PTypes \cup BTypes \cup ETypes} \cup Absent
UnitDen(a) == CASE a = "debyeprecision" -> 1000000
                [] a = "peakprecision" -> 100000000
                [] a = "valenceprecision" -> 100000
                [] OTHER -> 1000
Val(a, n) == Div(n, UnitDen(a))

NumbersOf(a) == CASE a = "rmin" -> {0, 290, 580, 500, 1000, 2500, 3005, 1160, 2150, 900, -1}
                [] a = "rmax" -> {0, 3000, 5000, 10000, 12345, 20100, 15300, -500}
                [] a = "rstep" -> {0, -10, 10, 20, 50, 100, 60, 30}
                [] a = "qmin" -> {0, 0, 500, 1250, -1}
                [] a = "qmax" -> {0, 1000, 12500, 25000, 20000, -1}
                [] a = "qstep" -> {0, -10, 10, 20, 100000}
                [] a = "maxextension" -> {0, 30, 2000, 10000, 15500, -1}
                [] a = "debyeprecision" -> {1, 100, 1000}
                [] a = "valenceprecision" -> {1, 10, 100, 0, -10}
                [] a = "peakprecision" -> {-5, 0, 333, 1000, 100000, 10000000, 100000000, 150000000}
                [] a = "width" -> {-200, 0, 100, 250}
                [] a = "uisowidth" -> {-4, 0, 3, 5}
                [] a = "bisowidth" -> {-200, 0, 400}
                [] a = "delta1" -> {0, 300, 1000, -500}
                [] a = "delta2" -> {0, 400, 2000}
                [] a = "qbroad" -> {0, 20, 50}
                [] a = "qbroad_seperable" -> {0, 10, 30}
                [] a = "slope" -> {0, 100, -300}
                [] a = "scale" -> {0, 1000, 500, -2000}
                [] a = "qdamp" -> {0, 40, 100, -50}
                [] a = "spdiameter" -> {0, 6003, 15003, -1000}
                [] a = "stepcut" -> {0, 3007, 7007, -1000}
                [] OTHER -> {0, 1000}

-----------------------------------------------------------------------------
\* fixed structures: largest displacement in 0.0001, density in 0.000001
Strus == 0..3
MaxU(j) == CASE j \in {0, 4, 5} -> 0 [] j = 1 -> 50 [] j = 2 -> 30 [] j = 3 -> 100
Rho(j) == CASE j \in {0, 1} -> 0 [] j = 2 -> 15625 [] j = 3 -> 15000
\* a pair of sites: distance in 0.001 and mean square displacement in 0.0001
PairDist(j) == CASE j \in {1, 5} -> 1500 [] j = 2 -> 4000
PairMsd(j) == CASE j = 1 -> 100 [] j = 2 -> 60 [] j = 5 -> -30

\* pairs of sites and their weights from occupancies
SiteTypes(j) == CASE j = 1 -> <<"C", "C">> [] j = 2 -> <<"Ni">> [] j = 3 -> <<"C", "O">> [] OTHER -> <<>>
PairWeights(j) == CASE j = 2 -> ({0} :> 4) [] j = 3 -> ({0} :> 4) @@ ({1} :> 1) @@ ({0, 1} :> 4) [] OTHER -> EmptyFn
TotalPairs(j) == FoldSet(LAMBDA q, acc : acc + PairWeights(j)[q], 0, DOMAIN PairWeights(j))
\* pairs that are included by a mask
Included(m, j, q) == LET ts == {SiteTypes(j)[i + 1] : i \in q} IN
    IF m.tm # EmptyFn THEN Get(m.tm, ts, m.d) ELSE IF q \in m.inv THEN ~m.d ELSE m.d
ActivePairs(m, j) == FoldSet(LAMBDA q, acc : acc + IF Included(m, j, q) THEN PairWeights(j)[q] ELSE 0, 0, DOMAIN PairWeights(j))

\* values of component attributes
FWHM == Mul(2, Sqrt(Mul(2, LN2)))     \* of a gaussian in units of sigma
Signed(n, e) == IF n < 0 THEN Neg(e) ELSE e
UisoOf(w) == CASE w[1] = "uisowidth" -> Milli(w[2])
               [] w[1] = "bisowidth" -> Div(Milli(w[2]), Mul(8, Sq(PI)))
               [] OTHER -> Signed(w[2], Div(Sq(Div(Milli(w[2]), FWHM)), 2))
WidthOf(w) == IF w[1] = "set" THEN Milli(w[2]) ELSE Signed(w[2], Mul(FWHM, Sqrt(Mul(2, X("abs", <<UisoOf(w)>>)))))
SlopeOf(w) == IF w[1] = "rho" THEN Mul(Mul(-4, PI), Div(Rho(w[2]) * w[3], 1000000 * TotalPairs(w[2]))) ELSE Milli(w[2])
PrecOf(w) == IF w[2] <= 0 THEN X("pow", <<2, -52>>) ELSE Val("peakprecision", w[2])
ValueOf(c, a) == CASE a = "width" -> WidthOf(c.v["width"])
                   [] a = "uisowidth" -> UisoOf(c.v["width"])
                   [] a = "bisowidth" -> Mul(Mul(8, Sq(PI)), UisoOf(c.v["width"]))
                   [] a = "slope" -> SlopeOf(c.v[a])
                   [] a = "peakprecision" -> PrecOf(c.v[a])
                   [] OTHER -> Milli(c.v[a][2])
\* as observed in units
CompValue(c, a) == IF a \in {"width", "uisowidth", "bisowidth", "slope", "peakprecision"} THEN Mul(ValueOf(c, a), UnitDen(a)) ELSE c.v[a][2]
CompAttrs(c) == [a \in CAttrs(c.t) |-> CompValue(c, a)]
Stored(t) == IF t = "constant" THEN {"width"} ELSE CAttrs(t)
NewComp(t) == [t |-> t, v |-> [a \in Stored(t) |-> <<"set", IF a = "scale" THEN 1000 ELSE 0>>]]
SetComp(c, a, n) ==
    CASE a \in {"width", "uisowidth", "bisowidth"} -> [c EXCEPT !.v["width"] = <<IF n = 0 \/ a = "width" THEN "set" ELSE a, n>>]
      [] a = "peakprecision" -> [c EXCEPT !.v[a] = <<"set", Max2(n, 0)>>]
      [] OTHER -> [c EXCEPT !.v[a] = <<"set", n>>]

-----------------------------------------------------------------------------
\* own values, 0 means no limit for qmax of a PDF and the optimum for qstep
Default(k, a) == CASE a = "rmax" -> IF k \in {"pdf", "debye"} THEN 10000 ELSE IF k = "bond" THEN 5000 ELSE IF k \in {"overlap", "bvs"} THEN 100000 ELSE 0
                   [] a = "rstep" -> 10
                   [] a = "maxextension" -> 10000
                   [] a = "qmax" -> IF k = "debye" THEN 25000 ELSE IF k = "sum" THEN 10000 ELSE 0
                   [] a = "qstep" -> IF k = "sum" THEN 50 ELSE 0
                   [] a = "debyeprecision" -> 1
                   [] a = "valenceprecision" -> 1
                   [] OTHER -> 0
Nothing == [k |-> "none", v |-> EmptyFn, w |-> 0, p |-> 0, b |-> 0, e |-> EmptyFn, s |-> 0, m |-> <<>>, cones |-> 0, j |-> 0, stale |-> FALSE, old |-> FALSE]
NewMask == [d |-> TRUE, inv |-> {}, tm |-> EmptyFn]
\* components of a new calculator in the order of their creation
Fresh(k, n, ns) ==
    [Nothing EXCEPT !.k = k, !.m = NewMask,
        !.v = [a \in RW(k) \cup Hidden(k) |-> Default(k, a)],
        !.w = IF HasWidth(k) THEN n + 1 ELSE 0,
        !.p = IF k = "pdf" THEN n + 2 ELSE 0,
        !.b = IF k = "pdf" THEN n + 3 ELSE 0,
        !.e = CASE k = "pdf" -> ("scale" :> (n + 4)) @@ ("qresolution" :> (n + 5))
                [] k = "debye" -> ("scale" :> (n + 2)) @@ ("qresolution" :> (n + 3))
                [] OTHER -> EmptyFn,
        !.s = IF HasSf(k) THEN ns + 1 ELSE 0]
FreshComps(k) ==
    CASE k = "pdf" -> <<NewComp("jeong"), SetComp(NewComp("gaussian"), "peakprecision", 333), NewComp("linear"), NewComp("scale"), NewComp("qresolution")>>
      [] k = "debye" -> <<NewComp("jeong"), NewComp("scale"), NewComp("qresolution")>>
      [] k = "sum" -> <<NewComp("jeong")>>
      [] OTHER -> <<>>
FreshSfs(k) == IF HasSf(k) THEN <<[t |-> "xray", c |-> EmptyFn]>> ELSE <<>>

\* components with attributes of the calculator
Reached(c) == IF c.k = "sum" THEN {} ELSE ({c.w, c.p, c.b} \ {0}) \cup Range(c.e)
Installed(c) == ({c.w, c.p, c.b} \ {0}) \cup Range(c.e)
\* component that owns the attribute, 0 for the calculator
OwnerOf(c, cs, a) == IF \E i \in Reached(c) : a \in CAttrs(cs[i].t) THEN CHOOSE i \in Reached(c) : a \in CAttrs(cs[i].t) ELSE 0
NamesOf(c, cs) == RW(c.k) \cup RO(c.k) \cup UNION {CAttrs(cs[i].t) : i \in Reached(c)}
WritableOf(c, cs) == NamesOf(c, cs) \ RO(c.k)

\* qmax above the Nyquist limit of rstep
NoQmax(v) == v["qmax"] = 0 \/ v["qmax"] * v["rstep"] > 3141592
QmaxOf(v) == IF NoQmax(v) THEN Div(PI, Milli(v["rstep"])) ELSE Milli(v["qmax"])
OwnValue(c, a) ==
    CASE a = "qmax" /\ c.k = "pdf" -> Mul(1000, QmaxOf(c.v))
      [] a = "qstep" /\ c.k = "debye" /\ c.v[a] = 0 -> Whatever
      [] a \in RO(c.k) -> Whatever
      [] OTHER -> c.v[a]

-----------------------------------------------------------------------------
AnyTick == 2
\* observations of all calculators, path of the values of a calculator
AttrsExp(k, c, cs) == [a \in NamesOf(c, cs) |->
    LET o == OwnerOf(c, cs, a) IN
    IF o # 0 THEN CompValue(cs[o], a)
    ELSE IF a \in RO(c.k) \/ (a = "qstep" /\ c.k = "debye") THEN ObsAt(<<"calcs", k - 1, "get", a>>) ELSE OwnValue(c, a)]
GettersExp(c) == [a \in RW(c.k) \cup RO(c.k) \cup Hidden(c.k) |-> OwnValue(c, a)]
Bag(S) == [bag |-> SetToSeq(S)]
TypeAt(i, cs) == IF i = 0 THEN "" ELSE cs[i].t
Radiation(t) == CASE t = "xray" -> "X" [] t = "neutron" -> "N" [] t = "electron" -> "E" [] t = "electronnumber" -> "EN"
CalcExp(k, c, cs, ss, tick) ==
    IF c.k = "none" THEN [kind |-> "none"]
    ELSE [kind |-> c.k, attrs |-> AttrsExp(k, c, cs), get |-> GettersExp(c), names |-> Bag(NamesOf(c, cs)),
          writable |-> Bag(WritableOf(c, cs)), has |-> Bag(NamesOf(c, cs)), tick |-> IF tick = AnyTick THEN Whatever ELSE tick,
          types |-> <<TypeAt(c.w, cs), TypeAt(c.p, cs), TypeAt(c.b, cs), IF c.s = 0 THEN "" ELSE ss[c.s].t, IF c.s = 0 THEN "" ELSE Radiation(ss[c.s].t)>>,
          env |-> Bag({<<t, c.e[t]>> : t \in DOMAIN c.e}), optimum |-> IF c.k = "debye" THEN c.v["qstep"] = 0 ELSE FALSE]

\* the part of the configuration that decides about results
OwnEffect(c) == [a \in (RW(c.k) \cup Hidden(c.k)) \ (IF c.k \in {"pdf", "debye"} THEN {"qmin", "qmax", "rstep"} ELSE {"valenceprecision"}) |-> c.v[a]]
RstepEffect(c) == IF c.k = "pdf" THEN c.v["rstep"] ELSE 0
QmaxEffect(c) == IF c.k = "debye" THEN c.v["qmax"] ELSE 0
Effect(c, cs, ss) == <<OwnEffect(c), RstepEffect(c), QmaxEffect(c), IF c.w = 0 THEN 0 ELSE cs[c.w],
                       IF c.p = 0 THEN 0 ELSE cs[c.p], IF c.s = 0 THEN 0 ELSE ss[c.s], c.m, c.cones>>
QmaxLess(c, d) == c.k = "pdf" /\ ~NoQmax(d.v) /\ (NoQmax(c.v) \/ d.v["qmax"] < c.v["qmax"])
\* the same objects and numbers
Quiet(c, d) == c.v = d.v \/ (c.k \in {"pdf", "debye"} /\ [c.v EXCEPT !["qmin"] = 0] = [d.v EXCEPT !["qmin"] = 0])
Identical(c, d) == Quiet(c, d) /\ <<c.w, c.p, c.s, c.m, c.cones>> = <<d.w, d.p, d.s, d.m, d.cones>>
\* 1 the ticker must move, 0 it must stay, 2 either
Tick(c, cs, ss, d, cs2, ss2) ==
    IF c.k = "none" \/ c.k # d.k THEN AnyTick
    ELSE IF QmaxLess(c, d) \/ Effect(c, cs, ss) # Effect(d, cs2, ss2) THEN 1
    ELSE IF Identical(c, d) THEN 0 ELSE AnyTick
Stale(c, cs, ss, d, cs2, ss2) == d.stale \/ c.k # d.k \/ c.v # d.v \/ Effect(c, cs, ss) # Effect(d, cs2, ss2)
\* changes other than those of envelopes, baseline, qmin and of the grid of the debye PDF,
\* which appear in the results without another evaluation
Lasting(c) == IF c.k = "pdf" THEN [c.v EXCEPT !["qmin"] = 0] ELSE IF c.k = "debye" THEN [c.v EXCEPT !["qmin"] = 0, !["rstep"] = 0] ELSE c.v
Old(c, cs, ss, d, cs2, ss2) == d.old \/ c.k # d.k \/ Lasting(c) # Lasting(d) \/ Effect(c, cs, ss) # Effect(d, cs2, ss2)

\* apply changes.  S are calculators where the ticker may move without a reason.
Put(cs0, ss0, cc0, S, op, a, e) == \E cs \in {cs0}, ss \in {ss0}, cc \in {cc0} :
    LET cc2 == [k \in Slots |-> [cc[k] EXCEPT !.stale = Stale(calc[k], comp, sft, cc[k], cs, ss), !.old = Old(calc[k], comp, sft, cc[k], cs, ss)]]
        \* setters that update the limits
        tick(k) == LET t == Tick(calc[k], comp, sft, cc[k], cs, ss) IN IF k \in S /\ (t = 0 \/ op \in {"new", "copy", "handover"}) THEN AnyTick ELSE t
    IN  /\ comp' = cs
        /\ sft' = ss
        /\ calc' = cc2
        /\ Log(op, a, e @@ [refused |-> FALSE, calcs |-> [k \in Slots |-> CalcExp(k, cc[k], cs, ss, tick(k))]])
Refuse(op, a, exc) == /\ UNCHANGED vars
                      /\ Log(op, a, Refused @@ [exc |-> exc, calcs |-> [k \in Slots |-> CalcExp(k, calc[k], comp, sft, 0)]])

-----------------------------------------------------------------------------
\* closed functions of components
Jeong(c, r) == LET a(n) == Milli(c.v[n][2]) IN
    IF c.t # "jeong" THEN 1 ELSE Add(Sub(Sub(1, Div(a("delta1"), r)), Div(a("delta2"), Sq(r))), Sq(Mul(a("qbroad"), r)))
Broad(c, r) == IF c.t # "jeong" THEN 0 ELSE Sq(Mul(Milli(c.v["qbroad_seperable"][2]), r))
WidthAt(c, r, msd) == IF c.t = "constant" THEN WidthOf(c.v["width"])
    ELSE LET corr == Jeong(c, r) IN If(Le(corr, 0), 0, Add(Mul(Sqrt(corr), Mul(FWHM, Sqrt(XMax(0, msd)))), Broad(c, r)))
Ratio(c, n) == IF n = 0 THEN 0 ELSE Jeong(c, Milli(n))
MaxWidth(c, j, rmin, rmax) == IF c.t = "constant" THEN WidthOf(c.v["width"])
    ELSE Add(Mul(Mul(FWHM, Sqrt(Div(2 * MaxU(j), 10000))), Sqrt(XMax(1, XMax(Ratio(c, rmin), Ratio(c, rmax))))), Broad(c, Milli(rmax)))
\* relative half-width of a profile of given precision
HalfRel(prec) == If(Lt(prec, 1), Sqrt(Div(Neg(X("log", <<prec>>)), Mul(4, LN2))), 0)
Bound(prec, fwhm) == If(Le(fwhm, 0), 0, Mul(HalfRel(prec), fwhm))
PMAXTAIL == Div(333, 100000000)
\* calculated range is extended because of termination ripples and peak tails
LimitsHold(c, cs, k) ==
    LET v == c.v
        dr == Milli(v["rstep"])
        pdf == c.k = "pdf"
        own(a) == Milli(ObsAt(<<"calcs", k - 1, "get", a>>))
        ripples == IF pdf /\ NoQmax(v) THEN 0 ELSE Div(Mul(12, PI), QmaxOf(v))
        prec == IF pdf THEN PrecOf(cs[c.p].v["peakprecision"]) ELSE PMAXTAIL
        tails == Bound(prec, MaxWidth(cs[c.w], c.j, v["rmin"], v["rmax"]))
        total == Add(ripples, tails)
        maxext == Milli(v["maxextension"])
        sc == If(Lt(maxext, total), Div(maxext, total), 1)
        ext == IF pdf THEN Mul(ripples, sc) ELSE XMin(maxext, total)
        elo == own("extendedrmin")
        ehi == own("extendedrmax")
        tol == X("div", <<1, 10000000>>)
        slack == IF pdf THEN dr ELSE Mul(51, dr)
    IN  <<<<"low", And(<<Le(Sub(Milli(v["rmin"]), ext), Add(elo, tol)),
                         X("or", <<Eq(elo, 0), Lt(Sub(elo, dr), Add(Sub(Milli(v["rmin"]), ext), tol))>>)>>)>>,
          <<"high", And(<<Le(Add(Milli(v["rmax"]), ext), Add(ehi, tol)),
                          Lt(Sub(ehi, slack), Add(Add(Milli(v["rmax"]), ext), tol))>>)>>>>

-----------------------------------------------------------------------------
Live == {k \in Slots : calc[k].k # "none"}
Kind(S) == {k \in Live : calc[k].k \in S}

DoNew == \E k \in Pick(Slots), kd \in Pick(Kinds) :
    Put(comp \o FreshComps(kd), sft \o FreshSfs(kd), [calc EXCEPT ![k] = Fresh(kd, Len(comp), Len(sft))], {k}, "new", <<k, kd>>, EmptyFn)

\* own values
BadValue(c, a, n) ==
    \/ Strict(c.k) /\ a \in {"qmin", "qmax", "rmin", "rmax", "maxextension"} /\ n < 0
    \/ c.k = "sum" /\ a \in {"qmin", "qmax"} /\ n < 0
    \/ a \in {"rstep", "qstep", "valenceprecision"} /\ n <= 0
    \/ c.k = "debye" /\ a = "qmax" /\ n = 0
\* setters that evaluate limits of a PDF without structure, which includes the baseline
Refreshes(c, a) == c.k = "pdf" /\ a \in {"qmax", "rmax", "rstep"} /\ c.j = 0
Refreshed(c, cs) == IF c.b # 0 /\ cs[c.b].t = "linear" THEN [cs EXCEPT ![c.b].v["slope"] = <<"set", 0>>] ELSE cs
WithOwn(c, a, n) == [c EXCEPT !.v[a] = IF c.k = "debye" /\ a = "qstep" /\ n >= 100000 THEN 0 ELSE n]
\* ticks of limits that are updated late
Late(c, a) == \/ Refreshes(c, a) /\ c.stale
              \/ c.k = "debye" /\ a \in {"qmax", "rmax", "qstep", "maxextension"} /\ (c.stale \/ a = "qstep")
SetOwn(k, a, n, op, args) ==
    LET c == calc[k] IN
    IF BadValue(c, a, n) THEN Refuse(op, args, "invalid_argument")
    ELSE Put(IF Refreshes(c, a) THEN Refreshed(c, comp) ELSE comp, sft, [calc EXCEPT ![k] = WithOwn(c, a, n)],
             IF Late(c, a) THEN {k} ELSE {}, op, args,
             \* limits of the debye PDF follow its r-range
             IF c.k = "debye" /\ a \in {"rmin", "rmax", "rstep", "maxextension"} /\ c.v[a] # n
             THEN [holds |-> LimitsHold(WithOwn(c, a, n), comp, k)] ELSE EmptyFn)
\* ops: setter, attribute
DoOwn == IF Live = {} THEN Skip ELSE \E k \in Pick(Live) : \E a \in Pick(RW(calc[k].k) \cup Hidden(calc[k].k)) : \E n \in Pick(NumbersOf(a)) :
    SetOwn(k, a, n, "setter", <<k, a, n, UnitDen(a)>>)
\* any name is used as attribute
SetComponent(k, i, a, n, op, args) ==
    Put([comp EXCEPT ![i] = SetComp(comp[i], a, n)], sft, calc, {}, op, args, EmptyFn)
SetAttr(k, a, n) ==
    LET c == calc[k]
        args == <<k, a, n, UnitDen(a)>>
        o == OwnerOf(c, comp, a)
    IN  IF ~(a \in NamesOf(c, comp)) \/ a \in RO(c.k) THEN Refuse("setattr", args, "runtime_error")
        ELSE IF o # 0 THEN SetComponent(k, o, a, n, "setattr", args)
        ELSE SetOwn(k, a, n, "setattr", args)
DoSetAttr == IF Live = {} THEN Skip ELSE \E k \in Pick(Live) : \E a \in Pick(NamesOf(calc[k], comp)) : \E n \in Pick(NumbersOf(a)) : SetAttr(k, a, n)
DoSetAnyAttr == IF Live = {} THEN Skip ELSE \E k \in Pick(Live) : \E a \in Pick(AllNames) : \E n \in Pick(NumbersOf(a)) : SetAttr(k, a, n)
DoGetAttr == IF Live = {} THEN Skip ELSE \E k \in Pick(Live) : \E a \in Pick(AllNames) :
    IF a \in NamesOf(calc[k], comp)
    THEN Put(comp, sft, calc, {}, "getattr", <<k, a, 0, UnitDen(a)>>, [value |-> ObsAt(<<"calcs", k - 1, "attrs", a>>)])
    ELSE Refuse("getattr", <<k, a, 0, UnitDen(a)>>, "runtime_error")
DoOptimum == LET S == Kind({"debye"}) IN IF S = {} THEN Skip ELSE \E k \in Pick(S) :
    Put(comp, sft, [calc EXCEPT ![k].v["qstep"] = 0], IF calc[k].stale THEN {k} ELSE {}, "optimum", <<k>>, EmptyFn)

-----------------------------------------------------------------------------
\* components
Recent(S) == {i \in DOMAIN comp : comp[i].t \in S /\ (i > Len(comp) - 9 \/ \E k \in Slots : i \in Installed(calc[k]))}
RecentSf == {i \in DOMAIN sft : i > Len(sft) - 4 \/ \E k \in Slots : i = calc[k].s}
AllTypes == WTypes \cup PTypes \cup BTypes \cup ETypes
DoCompNew == \E S \in Pick({WTypes, PTypes, BTypes, ETypes, ETypes}) : \E t \in Pick(S) :
    Put(Append(comp, NewComp(t)), sft, calc, {}, "compnew", <<t>>, EmptyFn)
DoCompClone == LET S == Recent(AllTypes) IN IF S = {} THEN Skip ELSE \E i \in Pick(S), op \in Pick({"compclone", "compsave"}) :
    Put(Append(comp, comp[i]), sft, calc, {}, op, <<i>>, [comp |-> CompAttrs(comp[i])])
DoCompSet == LET S == {i \in Recent(AllTypes) : CAttrs(comp[i].t) # {}} IN IF S = {} THEN Skip ELSE
    \E i \in Pick(S) : \E a \in Pick(CAttrs(comp[i].t)) : \E n \in Pick(NumbersOf(a)), how \in Pick({"compattr", "compset"}) :
    LET new == SetComp(comp[i], a, n) IN Put([comp EXCEPT ![i] = new], sft, calc, {}, how, <<i, a, n, UnitDen(a)>>, [comp |-> CompAttrs(new)])
DoSfNew == \E t \in Pick(STypes) : Put(comp, Append(sft, [t |-> t, c |-> EmptyFn]), calc, {}, "sfnew", <<t>>, EmptyFn)
DoSfSet == LET S == RecentSf IN IF S = {} THEN Skip ELSE \E i \in Pick(S), sm \in Pick({"C", "O", "Ni"}), n \in Pick({1, 2, 5, 7}) :
    LET old == Get(sft[i].c, sm, 0)
    IN  Put(comp, [sft EXCEPT ![i].c = With(@, sm, n)], calc, IF old = n THEN {k \in Slots : calc[k].s = i} ELSE {}, "sfset", <<i, sm, n>>, EmptyFn)
DoSfReset == LET S == RecentSf IN IF S = {} THEN Skip ELSE \E i \in Pick(S), sm \in Pick({"C", "O", "Ni"}) :
    Put(comp, [sft EXCEPT ![i].c = Without(@, {sm})], calc, {}, "sfreset", <<i, sm>>, EmptyFn)

\* installation of objects, 0 is a null pointer
Install(k, op, i, c2, ok) == IF ~ok THEN Refuse(op, <<k, i>>, "invalid_argument") ELSE Put(comp, sft, [calc EXCEPT ![k] = c2], {}, op, <<k, i>>, EmptyFn)
DoWidth == LET S == {k \in Live : HasWidth(calc[k].k)} IN IF S = {} THEN Skip ELSE \E k \in Pick(S), i \in Pick(Recent(WTypes) \cup {0}) :
    Install(k, "width", i, [calc[k] EXCEPT !.w = i], i # 0)
DoProfile == LET S == Kind({"pdf"}) IN IF S = {} THEN Skip ELSE \E k \in Pick(S), i \in Pick(Recent(PTypes) \cup {0}) :
    Install(k, "profile", i, [calc[k] EXCEPT !.p = i], i # 0)
DoBaseline == LET S == Kind({"pdf"}) IN IF S = {} THEN Skip ELSE \E k \in Pick(S), i \in Pick(Recent(BTypes) \cup {0}) :
    Install(k, "baseline", i, [calc[k] EXCEPT !.b = i], i # 0)
DoSf == LET S == {k \in Live : HasSf(calc[k].k)} IN IF S = {} THEN Skip ELSE \E k \in Pick(S), i \in Pick(RecentSf \cup {0}) :
    Install(k, "sf", i, [calc[k] EXCEPT !.s = i], i # 0)
DoAddEnv == LET S == {k \in Live : HasEnv(calc[k].k)} IN IF S = {} THEN Skip ELSE \E k \in Pick(S), i \in Pick(Recent(ETypes) \cup {0}) :
    Install(k, "addenv", i, IF i = 0 THEN calc[k] ELSE [calc[k] EXCEPT !.e = With(@, comp[i].t, i)], i # 0)
\* objects that are not installed may be removed as well
DoPopEnv == LET S == {k \in Live : HasEnv(calc[k].k)} IN IF S = {} THEN Skip ELSE \E k \in Pick(S), i \in Pick(Recent(ETypes) \cup {0}) :
    Install(k, "popenv", i, [calc[k] EXCEPT !.e = Without(@, {t \in DOMAIN @ : @[t] = i})], TRUE)
DoPopEnvType == LET S == {k \in Live : HasEnv(calc[k].k)} IN IF S = {} THEN Skip ELSE \E k \in Pick(S), t \in Pick(ETypes \cup {"nosuch"}) :
    Put(comp, sft, [calc EXCEPT ![k].e = Without(@, {t})], {}, "popenvtype", <<k, t>>, EmptyFn)
DoClearEnv == LET S == {k \in Live : HasEnv(calc[k].k)} IN IF S = {} THEN Skip ELSE \E k \in Pick(S) :
    Put(comp, sft, [calc EXCEPT ![k].e = EmptyFn], {}, "clearenv", <<k>>, EmptyFn)
DoGetEnv == LET S == {k \in Live : HasEnv(calc[k].k)} IN IF S = {} THEN Skip ELSE \E k \in Pick(S), t \in Pick(ETypes \cup {"nosuch"}) :
    IF t \in DOMAIN calc[k].e THEN Put(comp, sft, calc, {}, "getenv", <<k, t>>, [id |-> calc[k].e[t]])
    ELSE Refuse("getenv", <<k, t>>, "invalid_argument")

\* installation by type
Made(k, t, op, c2, new) == Put(comp \o new, sft, [calc EXCEPT ![k] = c2], {}, op, <<k, t>>, EmptyFn)
DoWidthType == LET S == {k \in Live : HasWidth(calc[k].k)} IN IF S = {} THEN Skip ELSE \E k \in Pick(S), t \in Pick(WTypes \cup {"nosuch", ""}) :
    IF t \in WTypes THEN Made(k, t, "widthtype", [calc[k] EXCEPT !.w = Len(comp) + 1], <<NewComp(t)>>) ELSE Refuse("widthtype", <<k, t>>, "invalid_argument")
\* the precision is kept
DoProfileType == LET S == Kind({"pdf"}) IN IF S = {} THEN Skip ELSE \E k \in Pick(S), t \in Pick(PTypes \cup {"nosuch"}) :
    IF t \in PTypes THEN Made(k, t, "profiletype", [calc[k] EXCEPT !.p = Len(comp) + 1], <<[comp[calc[k].p] EXCEPT !.t = t]>>) ELSE Refuse("profiletype", <<k, t>>, "invalid_argument")
DoBaselineType == LET S == Kind({"pdf"}) IN IF S = {} THEN Skip ELSE \E k \in Pick(S), t \in Pick(BTypes \cup {"nosuch"}) :
    IF t \in BTypes THEN Made(k, t, "baselinetype", [calc[k] EXCEPT !.b = Len(comp) + 1], <<NewComp(t)>>) ELSE Refuse("baselinetype", <<k, t>>, "invalid_argument")
DoAddEnvType == LET S == {k \in Live : HasEnv(calc[k].k)} IN IF S = {} THEN Skip ELSE \E k \in Pick(S), t \in Pick(ETypes \cup {"nosuch"}) :
    IF t \in ETypes THEN Made(k, t, "addenvtype", [calc[k] EXCEPT !.e = With(@, t, Len(comp) + 1)], <<NewComp(t)>>) ELSE Refuse("addenvtype", <<k, t>>, "invalid_argument")
DoSfType == LET S == {k \in Live : HasSf(calc[k].k)} IN IF S = {} THEN Skip ELSE \E k \in Pick(S), t \in Pick(STypes \cup {"nosuch"}) :
    IF t \in STypes THEN Put(comp, Append(sft, [t |-> t, c |-> EmptyFn]), [calc EXCEPT ![k].s = Len(sft) + 1], {}, "sftype", <<k, t>>, EmptyFn)
    ELSE Refuse("sftype", <<k, t>>, "invalid_argument")

\* replace a calculator by a saved copy of another one, its components are copied too
EnvSeq(e) == SelectSeq(EnvOrder, LAMBDA t : t \in DOMAIN e)
DoCopy == IF Live = {} THEN Skip ELSE \E j \in Pick(Live), k \in Pick(Slots) : \E c \in {calc[j]} : \E ids \in {(IF c.w = 0 THEN <<>> ELSE <<c.w>>) \o (IF c.p = 0 THEN <<>> ELSE <<c.p, c.b>>) \o [x \in 1..Len(EnvSeq(c.e)) |-> c.e[EnvSeq(c.e)[x]]]} :
    LET at(i) == IF i = 0 THEN 0 ELSE Len(comp) + (CHOOSE x \in DOMAIN ids : ids[x] = i)
        \* the initial structure becomes an ordinary one in the copy
        new == [c EXCEPT !.j = IF @ = 0 THEN 4 ELSE @, !.w = at(c.w), !.p = at(c.p), !.b = at(c.b), !.e = [t \in DOMAIN c.e |-> at(c.e[t])], !.s = IF c.s = 0 THEN 0 ELSE Len(sft) + 1]
    IN  Put(comp \o [x \in 1..Len(ids) |-> comp[ids[x]]], IF c.s = 0 THEN sft ELSE Append(sft, sft[c.s]),
            [calc EXCEPT ![k] = new], {k}, "copy", <<j, k>>, [sameticker |-> TRUE])

\* save everything and continue in another process, in the order of calculators after or before components
DoHandover == \E first \in Pick({0, 1}) :
    Put(comp, sft, [k \in Slots |-> [calc[k] EXCEPT !.j = IF @ = 0 THEN 4 ELSE @]], Slots, "handover", <<first>>, [sameorder |-> TRUE])

-----------------------------------------------------------------------------
\* masks and cones
Live3 == {k \in Live : calc[k].k # "none"}
DoMaskAll == IF Live = {} THEN Skip ELSE \E k \in Pick(Live), b \in Pick(BOOLEAN) :
    Put(comp, sft, [calc EXCEPT ![k].m = [NewMask EXCEPT !.d = b]], {}, "maskall", <<k, b>>, EmptyFn)
DoPairMask == LET S == {k \in Live : calc[k].m.tm = EmptyFn} IN IF S = {} THEN Skip ELSE
    \E k \in Pick(S), p \in Pick({<<0, 0>>, <<0, 1>>, <<1, 0>>, <<1, 2>>}), b \in Pick(BOOLEAN) :
    LET m == calc[k].m
        q == {p[1], p[2]}
    IN  Put(comp, sft, [calc EXCEPT ![k].m.inv = IF b = m.d THEN @ \ {q} ELSE @ \cup {q}], {}, "pairmask", <<k, p[1], p[2], b>>, EmptyFn)
DoTypeMask == LET S == {k \in Live : calc[k].m.inv = {}} IN IF S = {} THEN Skip ELSE
    \E k \in Pick(S), p \in Pick({<<"C", "C">>, <<"C", "O">>, <<"O", "C">>, <<"Ni", "Ni">>}), b \in Pick(BOOLEAN) :
    LET q == {p[1], p[2]}
        m == calc[k].m
        \* a rule that repeats the default changes nothing
        quiet == ~(q \in DOMAIN m.tm) /\ b = m.d
        new == [calc EXCEPT ![k].m.tm = With(@, q, b)]
    IN  IF quiet THEN Skip ELSE Put(comp, sft, new, {}, "typemask", <<k, p[1], p[2], b>>, EmptyFn)
DoCone == LET S == Kind({"bond"}) IN IF S = {} THEN Skip ELSE \E k \in Pick(S), op \in Pick({"cone", "coneoff"}) :
    Put(comp, sft, [calc EXCEPT ![k].cones = IF op = "cone" THEN @ + 1 ELSE 0], {}, op, <<k>>, EmptyFn)

-----------------------------------------------------------------------------
GaussAt(x, fwhm) == If(Le(fwhm, 0), 0, Mul(Div(Mul(2, Sqrt(Div(LN2, PI))), fwhm), X("exp", <<Mul(Mul(-4, LN2), Sq(Div(x, fwhm)))>>)))
ProfileAt(c, x, fwhm) ==
    LET prec == PrecOf(c.v["peakprecision"]) IN
    IF c.t = "gaussian" THEN GaussAt(x, fwhm)
    ELSE If(Le(fwhm, 0), 0, If(Lt(X("abs", <<x>>), Mul(HalfRel(prec), fwhm)),
            Div(GaussAt(x, fwhm), If(Lt(prec, 1), X("erf", <<Sqrt(Neg(X("log", <<prec>>)))>>), 1)), 0))
EnvAt(c, r) == LET p == Milli(c.v[CHOOSE a \in CAttrs(c.t) : TRUE][2]) IN
    CASE c.t = "scale" -> p
      [] c.t = "qresolution" -> If(Lt(0, p), X("exp", <<Neg(Div(Sq(Mul(r, p)), 2))>>), 1)
      [] c.t = "sphericalshape" -> If(Le(p, 0), 1, If(Lt(p, r), 0, LET x == Div(r, p) IN Add(Sub(1, Mul(X("div", <<3, 2>>), x)), Div(Mul(x, Sq(x)), 2))))
      [] c.t = "stepcut" -> If(And(<<Lt(0, p), Lt(p, r)>>), 0, 1)
BaseAt(c, r) == IF c.t = "zero" THEN 0 ELSE Mul(SlopeOf(c.v["slope"]), r)
EnvProduct(c, cs, r) == FoldSet(LAMBDA i, acc : Mul(acc, EnvAt(cs[i], r)), 1, Range(c.e))

Rs == <<0, 10, 1500, 3000, 3010, 6000, 7000, 15000, 20000>>
\* points in no order
Rs2 == <<20000, 15000, 7000, 1500, 10, 3010, 0, 6000, 6000, 3000>>
DoWidthVal == LET S == Recent(WTypes) IN IF S = {} THEN Skip ELSE \E i \in Pick(S), j \in Pick({1, 2, 5}), lo \in Pick({0, 1000, 2500}), hi \in Pick({0, 5000, 20000}) :
    Put(comp, sft, calc, {}, "widthval", <<i, j, lo, hi>>,
        [width |-> WidthAt(comp[i], Milli(PairDist(j)), Div(PairMsd(j), 10000)), maxwidth |-> MaxWidth(comp[i], j, lo, hi)])
DoProfileVal == LET S == Recent(PTypes) IN IF S = {} THEN Skip ELSE \E i \in Pick(S), x \in Pick({0, 3, -50, 120, 450}), w \in Pick({0, 100, 250, 200, -100}) :
    LET b == Bound(PrecOf(comp[i].v["peakprecision"]), Milli(w))
    IN  Put(comp, sft, calc, {}, "profileval", <<i, x, w>>, [value |-> ProfileAt(comp[i], Milli(x), Milli(w)), lo |-> Neg(b), hi |-> b])
DoEnvVal == LET S == Recent(ETypes) IN IF S = {} THEN Skip ELSE \E i \in Pick(S) :
    Put(comp, sft, calc, {}, "envval", <<i, Rs>>, [values |-> [n \in DOMAIN Rs |-> EnvAt(comp[i], Milli(Rs[n]))]])
DoBaseVal == LET S == Recent(BTypes) IN IF S = {} THEN Skip ELSE \E i \in Pick(S) :
    Put(comp, sft, calc, {}, "baseval", <<i, Rs>>, [values |-> [n \in DOMAIN Rs |-> BaseAt(comp[i], Milli(Rs[n]))]])
\* on unit values
DoApply == LET S == {k \in Live : HasEnv(calc[k].k)} IN IF S = {} THEN Skip ELSE \E k \in Pick(S), rs \in Pick({Rs, Rs2}) :
    Put(comp, sft, calc, {}, "apply", <<k, rs>>,
        [env |-> [n \in DOMAIN rs |-> Mul(n, EnvProduct(calc[k], comp, Milli(rs[n])))],
         base |-> IF calc[k].k = "pdf" THEN [n \in DOMAIN rs |-> Add(n, BaseAt(comp[calc[k].b], Milli(rs[n])))] ELSE <<>>])

-----------------------------------------------------------------------------
\* evaluation
CeilDiv(a, b) == -((-a) \div b)
\* expected results of an evaluated calculator, pt(n) are [r, pdf, without envelopes, without envelopes and baseline, rdf, rdf / r]
EvalExp(c, cs, k) ==
    LET v == c.v
        dr == Milli(v["rstep"])
        lo == CeilDiv(v["rmin"], v["rstep"])
        hi == CeilDiv(v["rmax"], v["rstep"])
        n == Max2(0, hi - lo)
        cnt == IF n = 0 THEN 0 ELSE 5
        pdf == c.k = "pdf"
        own(a) == Milli(ObsAt(<<"calcs", k - 1, "get", a>>))
        raw == pdf /\ NoQmax(v) /\ v["qmin"] = 0
        R(m) == Milli((lo + ((m - 1) * n) \div 5) * v["rstep"])
        O(m, x) == ObsAt(<<"pts", m - 1, x>>)
        pts == [m \in 1..cnt |-> <<R(m), Mul(O(m, 2), EnvProduct(c, cs, R(m))), Whatever,
                                   IF raw THEN Sub(O(m, 2), BaseAt(cs[c.b], R(m))) ELSE Whatever,
                                   Mul(R(m), O(m, 5)),
                                   IF raw THEN O(m, 3) ELSE IF ~pdf /\ v["qmin"] = 0 THEN O(m, 2) ELSE Whatever>>]
        elo == own("extendedrmin")
        ehi == own("extendedrmax")
        tol == X("div", <<1, 10000000>>)
        dq == own("qstep")
        qmax == QmaxOf(v)
        nothing == pdf /\ n = 0
        OQ == If(Lt(4, Div(Mul(qmax, ehi), PI)), Div(PI, ehi), Div(qmax, 4))
        NR == X("round", <<Div(ehi, dr)>>)
        nq == ObsAt(<<"nq">>)
    IN  [nr |-> n, rends |-> IF n = 0 THEN <<>> ELSE <<Milli(lo * v["rstep"]), Milli((hi - 1) * v["rstep"])>>,
         lens |-> <<n, n, n>>, nf |-> nq, stale |-> 0,
         badgrid |-> 0, badq |-> 0, pts |-> pts, exts |-> IF pdf THEN [m \in 1..4 |-> X("round", <<Div(Sub(ehi, elo), dr)>>)] ELSE <<>>,
         fext |-> IF pdf THEN If(Eq(dq, 0), 0, Div(PI, Mul(dq, dr))) ELSE 0,
         holds |->
            (IF nothing THEN <<<<"empty", And(<<Eq(elo, 0), Eq(ehi, 0), Eq(nq, 0)>>)>>>>
             ELSE LimitsHold(c, cs, k) \o <<
                <<"lowstep", Eq(X("round", <<Div(elo, dr)>>), Div(elo, dr))>>,
                <<"highstep", Eq(NR, Div(ehi, dr))>>,
                <<"qstep", IF pdf THEN If(Lt(0, NR), Eq(dq, Div(PI, Mul(X("pow", <<2, X("ceil", <<X("log2", <<NR>>)>>)>>), dr))), Eq(dq, 0))
                           ELSE IF v["qstep"] = 0 THEN Eq(dq, OQ) ELSE Eq(dq, Milli(v["qstep"]))>>,
                <<"qcount", If(Eq(dq, 0), Eq(nq, 0), And(<<Le(Mul(qmax, Sub(1, tol)), Mul(nq, dq)), Lt(Mul(Sub(nq, 1), dq), Mul(qmax, Sub(1, X("div", <<1, 1000000000>>))))>>))>>>>)]
DoEval == LET S == Kind({"pdf", "debye"}) IN IF S = {} THEN Skip ELSE \E k \in Pick(S), j \in Pick(Strus) :
    LET c == [calc[k] EXCEPT !.j = j]
        cs == IF c.b # 0 /\ comp[c.b].t = "linear" THEN [comp EXCEPT ![c.b].v["slope"] = IF Rho(j) = 0 THEN <<"set", 0>> ELSE <<"rho", j, ActivePairs(c.m, j)>>] ELSE comp
    IN  IF c.k = "debye" /\ c.v["rmin"] > c.v["rmax"] THEN Skip
        ELSE /\ comp' = cs
             /\ calc' = [calc EXCEPT ![k] = [c EXCEPT !.stale = FALSE, !.old = FALSE]]
             /\ UNCHANGED sft
             /\ Log("eval", <<k, j>>, EvalExp(c, cs, k) @@ [refused |-> FALSE, calcs |-> [i \in Slots |-> CalcExp(i, IF i = k THEN c ELSE calc[i], cs, sft, IF i = k THEN AnyTick ELSE 0)]])

\* the function in Q and the PDF of an evaluated calculator are sine transforms of each other.
\* fx and gx are the whole observed functions, where fat, xat and gat list values at a few indices
SinSum(v, c, x0, dx, q) == X("sinsum", <<v, c, x0, dx, q>>)
Slice(v, a, b) == X("slice", <<v, a, b>>)
TransformExp(c, cs, k) ==
    LET v == c.v
        pdf == c.k = "pdf"
        own(a) == Milli(ObsAt(<<"calcs", k - 1, "get", a>>))
        dr == Milli(v["rstep"])
        dq == own("qstep")
        n == Max2(0, CeilDiv(v["rmax"], v["rstep"]) - CeilDiv(v["rmin"], v["rstep"]))
        first == CeilDiv(v["rmin"], v["rstep"])
        FX == ObsAt(<<"fx">>)
        GX == ObsAt(<<"gx">>)
        nq == X("len", <<ObsAt(<<"f">>)>>)
        slope == IF pdf /\ cs[c.b].t = "linear" THEN SlopeOf(cs[c.b].v["slope"]) ELSE 0
        x0 == own("extendedrmin")
        kmin(q) == XMax(0, X("ceil", <<Sub(Div(Milli(q), dq), X("div", <<1, 100000000>>))>>))
        \* transform of the band of F above q
        band(q, r) == Mul(Div(2, PI), Mul(dq, SinSum(Slice(FX, kmin(q), nq), 0, Mul(kmin(q), dq), dq, r)))
        \* the Debye PDF is interpolated on a grid with a power of 2 points
        NPad == X("pow", <<2, X("ceil", <<X("log2", <<XMax(nq, X("ceil", <<Div(PI, Mul(dr, dq))>>))>>)>>)>>)
        drpad == Div(PI, Mul(NPad, dq))
        interp(q, r) == LET i == X("floor", <<Div(r, drpad)>>)
                            w == Sub(Div(r, drpad), i)
                        IN  Add(Mul(Sub(1, w), band(q, Mul(i, drpad))), Mul(w, band(q, Mul(Add(i, 1), drpad))))
        plain == NoQmax(v) /\ pdf
        \* before envelopes
        G(r, g) == IF ~pdf THEN interp(v["qmin"], r)
                   ELSE IF plain THEN If(Le(kmin(v["qmin"]), 1), Add(g, Mul(slope, r)), band(v["qmin"], r))
                   ELSE band(v["qmin"], r)
        At(l, m, x) == ObsAt(<<l, m - 1, x>>)
        Pts(l) == {1, 2, 3, 4}
    IN  [f |-> IF pdf THEN Slice(FX, 0, nq) ELSE FX,
         fx |-> Whatever, gx |-> Whatever, nr |-> n,
         fat |-> [m \in 1..4 |-> IF pdf THEN <<Whatever, Mul(dr, SinSum(GX, slope, x0, dr, Mul(At("fat", m, 0), dq)))>> ELSE <<Whatever, Whatever>>],
         xat |-> IF ~pdf THEN <<>> ELSE [m \in 1..4 |-> LET r == Add(x0, Mul(At("xat", m, 0), dr)) IN <<Whatever, Mul(G(r, At("xat", m, 2)), EnvProduct(c, cs, r)), Whatever>>],
         gat |-> [m \in 1..4 |-> LET r == Mul(Add(first, At("gat", m, 0)), dr) IN
                    <<Whatever, Mul(G(r, At("gat", m, 2)), EnvProduct(c, cs, r)), IF pdf THEN Whatever ELSE interp(0, r), Mul(r, At("gat", m, 2))>>]]
DoTransform == LET S == {k \in Kind({"pdf", "debye"}) : calc[k].j # 0 /\ ~calc[k].old /\ CeilDiv(calc[k].v["rmin"], calc[k].v["rstep"]) < CeilDiv(calc[k].v["rmax"], calc[k].v["rstep"])} IN
    IF S = {} THEN DoEval ELSE \E k \in Pick(S) :
    Put(comp, sft, calc, {}, "transform", <<k>>, TransformExp(calc[k], comp, k))

\* requests of all kinds that must be refused
BadOwn(k) == {<<a, n>> \in (RW(calc[k].k) \cup Hidden(calc[k].k)) \X {0, -1, -10, -500} : BadValue(calc[k], a, n)}
BadAttr(k) == {a \in AllNames \cup {"", "nosuch"} : ~(a \in NamesOf(calc[k], comp)) \/ a \in RO(calc[k].k)}
Slotted(k) == LET kd == calc[k].k IN
    (IF HasWidth(kd) THEN {"width"} ELSE {}) \cup (IF HasSf(kd) THEN {"sf"} ELSE {}) \cup (IF HasEnv(kd) THEN {"addenv"} ELSE {}) \cup (IF kd = "pdf" THEN {"profile", "baseline"} ELSE {})
DoRefused == IF Live = {} THEN Skip ELSE \E k \in Pick(Live), w \in Pick({"own", "own", "attr", "null", "type", "plain"}) :
    CASE w = "own" /\ BadOwn(k) # {} -> \E x \in Pick(BadOwn(k)), how \in Pick({"setter", "setattr"}) :
            IF how = "setattr" /\ ~(x[1] \in RW(calc[k].k)) THEN Skip ELSE Refuse(how, <<k, x[1], x[2], UnitDen(x[1])>>, "invalid_argument")
      [] w = "attr" -> \E a \in Pick(BadAttr(k)), n \in Pick({0, 1, 500}) : Refuse("setattr", <<k, a, n, 1000>>, "runtime_error")
      [] w = "null" /\ Slotted(k) # {} -> \E op \in Pick(Slotted(k)) : Refuse(op, <<k, 0>>, "invalid_argument")
      [] w = "type" /\ Slotted(k) # {} -> \E op \in Pick(Slotted(k)), t \in Pick({"nosuch", ""}) : Refuse(op \o "type", <<k, t>>, "invalid_argument")
      [] w = "plain" -> \E op \in Pick({"badevaluator", "badcpu"} \cup (IF calc[k].k = "bond" THEN {"badcone"} ELSE {})) :
            Refuse(op, <<k>>, "invalid_argument")
      [] OTHER -> Skip

ActOf(g) == CASE g = "refused" -> DoRefused
              [] g = "new" -> DoNew
              [] g = "own" -> DoOwn
              [] g = "attr" -> DoSetAttr
              [] g = "anyattr" -> DoSetAnyAttr
              [] g = "getattr" -> DoGetAttr
              [] g = "optimum" -> DoOptimum
              [] g = "compnew" -> DoCompNew
              [] g = "compclone" -> DoCompClone
              [] g = "compset" -> DoCompSet
              [] g = "sfnew" -> DoSfNew
              [] g = "sfset" -> DoSfSet
              [] g = "sfreset" -> DoSfReset
              [] g = "width" -> DoWidth
              [] g = "profile" -> DoProfile
              [] g = "baseline" -> DoBaseline
              [] g = "sf" -> DoSf
              [] g = "addenv" -> DoAddEnv
              [] g = "popenv" -> DoPopEnv
              [] g = "popenvtype" -> DoPopEnvType
              [] g = "clearenv" -> DoClearEnv
              [] g = "getenv" -> DoGetEnv
              [] g = "widthtype" -> DoWidthType
              [] g = "profiletype" -> DoProfileType
              [] g = "baselinetype" -> DoBaselineType
              [] g = "addenvtype" -> DoAddEnvType
              [] g = "sftype" -> DoSfType
              [] g = "copy" -> DoCopy
              [] g = "maskall" -> DoMaskAll
              [] g = "pairmask" -> DoPairMask
              [] g = "typemask" -> DoTypeMask
              [] g = "cone" -> DoCone
              [] g = "widthval" -> DoWidthVal
              [] g = "profileval" -> DoProfileVal
              [] g = "envval" -> DoEnvVal
              [] g = "baseval" -> DoBaseVal
              [] g = "apply" -> DoApply
              [] g = "handover" -> DoHandover
              [] g = "eval" -> DoEval
              [] g = "transform" -> DoTransform

\* one calculator of a random kind in each slot
RECURSIVE FillFrom(_, _)
FillFrom(k, st) == IF k > NSlot THEN st ELSE
    LET kd == st.kinds[k] IN
    FillFrom(k + 1, [st EXCEPT !.comp = @ \o FreshComps(kd), !.sft = @ \o FreshSfs(kd), !.calc = Append(@, Fresh(kd, Len(st.comp), Len(st.sft)))])
RandKinds(S) == RandSeqOf(S, NSlot)
Init == \E ks \in {RandKinds(Kinds)} :
        \E st \in {FillFrom(1, [kinds |-> ks, comp |-> <<>>, sft |-> <<>>, calc |-> <<>>])} :
        /\ comp = st.comp
        /\ sft = st.sft
        /\ calc = st.calc
        /\ hist = <<[op |-> "start", a |-> <<SetToSeq(AllNames), ks>>, e |-> [calcs |-> [k \in Slots |-> CalcExp(k, calc[k], comp, sft, AnyTick)]]]>>
Next == Unfinished /\ \E g \in Pick(1..Len(Weights)) : ActOf(Weights[g])
Spec == Init /\ [][Next]_<<vars, hist>>
=============================================================================
