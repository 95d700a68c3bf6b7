"""What is run for every property."""
from fw import Design, Sim, Tour, q

QUICK, THOROUGH = "quick", "thorough"
TABLE = {}
REQUIRED = {}
ASSUME = {}
NOTE = {}
TECH = {}


def prop(pid, technique, note, required=(), assumptions=()):
    def deco(f):
        TABLE[pid] = f
        REQUIRED[pid] = set(required)
        ASSUME[pid] = list(assumptions)
        NOTE[pid] = note
        TECH[pid] = technique
        return f
    return deco


def runs(pid, tier):
    return TABLE[pid](tier)


def required_ops(pid):
    return REQUIRED[pid]


def assumptions(pid):
    return ASSUME[pid]


def words(s):
    """TLA sequence of operation groups from 'name*weight name ...'."""
    rv = []
    for w in s.split():
        n, _, k = w.partition("*")
        rv += [q(n)] * int(k or 1)
    return "=<<" + ", ".join(rv) + ">>"


# --------------------------------------------------------------------------
# PairSum

PS = dict(MaxI=7, MaskTypes='={"A", "B", "c"}', NSlot=3, Kinds='={"atom", "per"}', MinN=4, MaxN=8, Box=5,
          RChoices="={3, 8, 14, 20}", CalcTypes='={"H", "F", "G", "C"}',
          EvTypes='={"BASIC", "OPTIMIZED", "CHECK"}', MaxCpu=6,
          InitStru="=[k \\in 1..3 |-> NoStru]", Weights="=<<>>")


def ps(**kw):
    return dict(PS, **kw)


def pairsum(name, num, depth, weights, **kw):
    return Sim(name, "PairSum", ps(Weights=words(weights), **kw), driver="pairsum",
               args=[str(kw.get("MaxI", 7))], num=num, depth=depth)


# --------------------------------------------------------------------------
# Calc

CA = dict(GTypes='={"A", "B", "C"}', NAtoms="=1..6", GOcc="=1..4", Sizes="=2..6", Kinds='={"atom", "atom", "per", "crys"}', NSlot=2,
          MaxI=5, MaskTypes='={"A", "B", "C"}', EvTypes='={"BASIC", "OPTIMIZED", "CHECK"}', MaxCpu=5,
          LoChoices="={-1, -1, 0, 2, 5}", HiChoices="={2, 4, 7, 10, 13}")


def calc(name, tp, num, depth, weights, **kw):
    return Sim(name, "Calc", dict(CA, CalcTypes="={" + ", ".join(q(t) for t in tp.split()) + "}", Weights=words(weights), **kw),
               driver="calc", num=num, depth=depth)


BVS = dict(GTypes='={"Xa2+", "Xb1-", "Xb", "Xc3+"}', MaskTypes='={"Xa2+", "Xb1-", "Xb"}', HiChoices="={4, 8, 12, 16}")
STRU = "new variant*2 edit*5 "
MASK2 = "pairmask*2 typemask invert maskall clearmask "


EDITS = "new variant*2 edit*4 cell override bad "
MASKS = "maskall invert pairmask*3 sitemask*3 typemask*3 typeallmask*3 "


@prop("C01", "TLA+ specification of evaluation without any cache, TLC-generated histories replayed on the code; "
      "TLC model check of the cache design",
      "Every history written by TLC is executed on real calculators and all values must agree with the specification, which has no cache. "
      "The design of the incremental evaluator is checked exhaustively for small structures. Trusted: the driver's projection of values.",
      required="new atom erase insert swap assign cell override bad rmin rmax evaluator eval evalsame setstru pairmask typemask".split(),
      assumptions=["atoms at integer positions, orthogonal cells", "up to 8 sites and 40 operations in one history"])
def c01(tier):
    k = 1 if tier == QUICK else 12
    rv = [
        Design("cache-design", "EvalCache", dict(Atoms='={"a", "b"}', MaxLen=3 if tier == QUICK else 4, Slots="={1, 2}" if tier == QUICK else "={1}",
                                                 Cfgs="={0, 1}", ForgetOnReset=True, ForgetOnFailure=True),
               invariants=["TypeOK", "Correct", "NeverCrashes", "CacheInv"]),
        Design("cache-design-no-reset", "EvalCache", dict(Atoms='={"a", "b"}', MaxLen=2, Slots="={1}", Cfgs="={0}",
                                                          ForgetOnReset=False, ForgetOnFailure=True),
               invariants=["Correct"], expect=12, workers=1, mem="1g"),
        pairsum("history", 480 * k, 40, EDITS + "rmin rmax evaluator pairmask sitemask typemask eval*6 evalsame*2 absorb assign share unshare*2",
                EvTypes='={"OPTIMIZED", "CHECK", "BASIC"}', CalcTypes='={"H", "F", "G"}'),
        pairsum("edit-eval", 480 * k, 40, "variant*2 edit*5 bad eval*6 evalsame*2 absorb rmax evaluator",
                EvTypes='={"OPTIMIZED"}', CalcTypes='={"H", "F", "G"}', MinN=6),
        calc("calculators", "bond pdf debye", 140 * k, 30, STRU + MASK2 + "rmin rmax evaluator sf width cone coneoff eval*8 evalsame*3 again workers merge", EvTypes='={"OPTIMIZED", "CHECK"}'),
        setup("configured", 100 * k, 30, "own*6 compset*4 width profile sf sfset*2 maskall pairmask typemask eval*6 handover", Kinds='={"pdf", "debye"}', NSlot=2),
    ]
    return rv


@prop("C02", "TLA+ specification of shares and merges, TLC-generated histories replayed on the code; TLC model check of the loop split",
      "Worker calculators created from the specification's histories evaluate their shares, any merge order must give the serial value of the specification.",
      required="workers merge eval evaluator share".split(),
      assumptions=["workers evaluate the same structures in the same order"])
def c02(tier):
    k = 2 if tier == QUICK else 12
    return [
        Design("split-design", "ShareSplit", dict(MaxSites=4 if tier == QUICK else 5, MaxBonds=2, MaxCpu=5 if tier == QUICK else 7),
               invariants=["Partition", "AtMostOnce"]),
        pairsum("merge", 400 * k, 26, "new variant edit*3 cell override rmin rmax evaluator pairmask typemask workers*3 merge*8 eval absorb refuse badshare",
                CalcTypes='={"H", "F", "G"}', MaxCpu=9),
        pairsum("merge-many", 160 * k, 20, "new variant edit*3 rmax evaluator pairmask typemask workers*2 merge*6 eval",
                CalcTypes='={"H", "F", "G"}', MaxCpu=4, MinN=11, MaxN=22, MaxI=21, Kinds='={"atom"}'),
        calc("calculators", "bond overlap pdf debye", 140 * k, 24, STRU + MASK2 + "rmin rmax evaluator radius defradius sf width workers*2 merge*6 eval again", MaxCpu=8),
        calc("valences", "bvs", 60 * k, 30, STRU + MASK2 + "rmin rmax bvparam*7 valence precision workers*2 merge*6 eval again", MaxCpu=8, **BVS),
    ]


@prop("C03", "TLA+ specification of mask rules, exhaustive transition tour and random histories replayed on the code; TLC check that the latest call decides",
      "The mask rules are a total specification of all mask calls; pair tables, type tables and evaluated sums are compared after each call.",
      required="maskall invert pairmask typemask eval evalsame setstru".split())
def c03(tier):
    k = 1 if tier == QUICK else 12
    tourstru = ('=<<[k |-> "atom", c |-> <<0, 0, 0>>, at |-> <<[t |-> "A", p |-> <<0, 0, 0>>], [t |-> "B", p |-> <<1, 0, 0>>]>>, ov |-> 0, bad |-> 0], '
                '[k |-> "atom", c |-> <<0, 0, 0>>, at |-> <<[t |-> "B", p |-> <<0, 0, 0>>], [t |-> "A", p |-> <<1, 1, 0>>], [t |-> "A", p |-> <<0, 2, 0>>]>>, ov |-> 0, bad |-> 0]>>')
    return [
        Design("index-rules", "MaskDesign", dict(MaxI=2, MaskTypes='={"A", "B"}', Sizes="={0, 3}" if tier == QUICK else "={0, 2, 3}"),
               invariants=["LatestWins", "Stable"], view="View"),
        Design("type-rules", "TypeMaskDesign", dict(MaxI=2, MaskTypes='={"A", "B"}' if tier == QUICK else '={"A", "B", "c"}'),
               invariants=["LatestWins", "Symmetric", "Resolved"], view="View"),
        Tour("mask-tour", "PairSum", ps(MaxI=2, MaskTypes='={"A", "B"}', NSlot=2, CalcTypes='={"H"}', EvTypes='={"BASIC"}', InitStru=tourstru,
                                        Weights=words("maskall invert pairmask sitemask typemask typeallmask eval")),
             maxlen=6 if tier == QUICK else 7, driver="pairsum", args=["2"]),
        pairsum("masks", 640 * k, 36, "new*2 variant edit*2 assign eval*5 evalsame*2 " + MASKS),
        setup("masked-baseline", 60 * k, 30, "maskall*2 pairmask*4 typemask*4 eval*6 own", Kinds='={"pdf"}'),
    ]


# --------------------------------------------------------------------------
# Bonds

BO = dict(GOcc="=1..4", GTypes='={"A", "B", "C"}', NAtoms="=1..3", Kinds='={"crys", "per", "atom"}', NSlot=2, MaxHi=16, LoChoices="={-2, -1, 1, 3, 6}")


def bonds(name, num, depth, weights, **kw):
    return Sim(name, "Bonds", dict(BO, Weights=words(weights), **kw), driver="bonds", num=num, depth=depth)


@prop("C04", "TLA+ specification of neighbor enumeration on integer lattices, TLC-generated histories replayed on bond generators",
      "Neighbor sets are calculated in the specification from integer Gram matrices and compared with all bonds of real generators after random histories of selections, ranges, partial iterations and rewinds.",
      required="generator anchor range select glo ghi rewind take collect all paircount exact points reflections atom cell addop setops".split(),
      assumptions=["sites at rational positions, Gram matrices of steps from a list of 15", "in periodic structures radii that are not equal to any distance"])
def c04(tier):
    k = 2 if tier == QUICK else 12
    return [
        bonds("generator", 240 * k, 40, "new atom gen*2 anchor*3 range select*2 lo hi rewind*6 take*6 collect*7 all*2"),
        bonds("ranges", 160 * k, 30, "new atom gen anchor lo loflip*6 hi all*9 collect", NAtoms="=1..2", Kinds='={"per", "per", "per", "crys"}', MaxHi=22,
              LoChoices="={-1, 0, 2, 5, 9, 14, 18}"),
        bonds("count", 160 * k, 24, "new*4 exact*3 atom*3 ops cell paircount*4 points*2 reflections gen all*2"),
    ]


@prop("C05", "TLA+ specification of orbits under symmetry operations, TLC-generated edit histories replayed on crystal structures",
      "Orbits are calculated in the specification for random groups, special positions, duplicated and shifted operations, and compared with the equivalent atoms, multiplicities and displacements after any edits.",
      required="new atom append erase swap addop setops cell precision equiv loose total clone save all".split(),
      assumptions=["operations with integer matrices and translations in twelfths", "at most 48 operations"])
def c05(tier):
    k = 2 if tier == QUICK else 12
    return [
        bonds("orbits", 480 * k, 36, "new atom*3 ops*3 cell*2 precision badprecision copy equiv*6 loose*4 total*2 gen all", Kinds='={"crys"}'),
        bonds("orbits-mixed", 160 * k, 30, "new atom*3 ops*3 cell precision copy equiv*4 total*2 gen anchor all*3", Kinds='={"crys", "crys", "per"}'),
    ]


OC = dict(BO, NSrc=2, MaxAt=4, Groups="={}", SrcKinds='={"crys", "crys", "mol"}', MaxHi=9)


def objcryst(name, num, depth, weights, **kw):
    return Sim(name, "ObjCryst", dict(OC, Weights=words(weights), **kw), driver="objcryst", num=num, depth=depth, spec="OSpec")


@prop("C28", "TLA+ specification of crystals with named space groups, TLC-generated histories replayed on ObjCryst objects and their conversions",
      "Crystals with 36 space groups given by their generators and molecules are built, edited and converted in any order; sites, displacements, operations, orbits, bonds and pair counts are compared with the specification.",
      required="src power move add remove convert srccount equiv total paircount all".split(),
      assumptions=["space groups from a list of 36, at most 48 operations", "positions at rational coordinates"])
def c28(tier):
    k = 2 if tier == QUICK else 12
    return [
        objcryst("convert", 160 * k, 30, "src*3 power*2 move*2 add*2 remove convert*8 srccount*2 equiv*5 total paircount gen all*2 copy atom"),
        objcryst("groups", 160 * k, 20, "src*4 move convert*8 equiv*3 srccount", SrcKinds='={"crys"}', MaxAt=2),
    ]


# --------------------------------------------------------------------------
# Struct

ST = dict(GOcc="=1..4", GTypes='={"A", "B", "C"}', NAtoms="=1..7", Kinds='={"crys", "per", "atom"}', NSlot=4, MaxN=9)


def struct(name, num, depth, weights, **kw):
    return Sim(name, "Struct", dict(ST, Weights=words(weights), **kw), driver="struct", num=num, depth=depth)


EDITS_ST = "append insert insertit insertrange erase eraseit eraserange clear reserve pick assignfrom assignn atom atomref swap copyatom field flag".split()


@prop("C06", "TLA+ specification of structure differences as multiset differences, TLC-generated histories replayed on structures; "
      "TLC check that both forms of difference are balanced",
      "Differences of random structures, variants, edited copies and wrapped structures are compared with the differences of the specification; either form is accepted where both are valid.",
      required="new wrap clone diff diffnull append erase copyatom setops cell precision".split())
def c06(tier):
    k = 2 if tier == QUICK else 12
    return [
        Design("diff-design", "DiffDesign", dict(Atoms='={"a", "b", "c"}', MaxLen=3 if tier == QUICK else 5),
               invariants=["SideBySideBalanced", "SortedBalanced", "KeepsIndices", "Shortest", "EmptyIsEqual"]),
        struct("diff", 400 * k, 40, "new variant*6 copy*2 wrap*2 share empty wrapnull edit*5 ops cell diff*12 diffnull"),
        struct("diff-large", 160 * k, 40, "variant*6 copy*2 edit*4 wrap diff*10", NAtoms="=8..14", MaxN=16, Kinds='={"atom", "per"}', GTypes='={"A"}'),
    ]


@prop("C19", "TLA+ specification of structures seen through chains of wrappers, TLC-generated histories replayed on the code",
      "All properties of wrapped structures are compared with those of the base in the specification after edits of the base, copies, saves and further wrapping.",
      required="wrap wrapnull empty clone save bonds config totals types diff append erase setops cell".split())
def c19(tier):
    k = 3 if tier == QUICK else 12
    return [struct("wrappers", 400 * k, 40, "new variant wrap*6 wrapnull empty copy*2 share edit*5 ops*2 cell data*4 totals*3 types bonds*3 config*3 diff*3 diffnull")]


@prop("C24", "TLA+ specification of structures as sequences of atoms, TLC-generated edit histories replayed on the code",
      "After each edit all sites are compared with the sequence in the specification, as are totals, densities, equality and independence of copies.",
      required=EDITS_ST + "new clone save eq totals frac setops addop cell precision".split())
def c24(tier):
    k = 3 if tier == QUICK else 12
    return [struct("containers", 400 * k, 40, "new variant*2 copy*2 share edit*14 ops*2 cell*2 data*4 totals*3 eq*4 frac*2 types")]


@prop("C07", "TLA+ specification of bond lists as sets of pairs, TLC-generated histories replayed on bond calculators",
      "Every bond list is compared with the set of pairs of the specification, including its order and the agreement of all its columns.",
      required="new edit rmin rmax evaluator pairmask typemask cone coneoff eval evalsame merge save".replace("edit", "atom").split())
def c07(tier):
    k = 2 if tier == QUICK else 12
    return [
        calc("bonds", "bond", 240 * k, 30, STRU + MASK2 + "rmin rmax evaluator eval*6 evalsame*2 again save workers merge refuse"),
        calc("cones", "bond", 240 * k, 30, "variant edit*2 pairmask clearmask rmin rmax evaluator cone*5 coneoff eval*7 evalsame save workers merge refuse"),
    ]


@prop("C15", "TLA+ specification of overlaps as functions of the set of pairs, TLC-generated histories replayed on overlap calculators",
      "All results of overlap calculators are compared with those of the specification after each evaluation.",
      required="new atom rmin rmax pairmask radius noradius defradius eval evalsame again merge save".split())
def c15(tier):
    k = 3 if tier == QUICK else 12
    return [calc("overlaps", "overlap", 400 * k, 30, STRU + MASK2 + "rmin rmax radius*5 noradius defradius*2 eval*6 evalsame*2 again save workers merge refuse")]


@prop("C16", "TLA+ specification of overlaps with exchanged radii, TLC-generated histories replayed on overlap calculators",
      "Predicted differences are compared with the difference of two totals of the specification.",
      required="radius eval flip".split())
def c16(tier):
    k = 3 if tier == QUICK else 12
    return [calc("flips", "overlap", 400 * k, 30, STRU + "rmin rmax pairmask clearmask radius*4 defradius*2 eval*6 evalsame again flip*10 badflip save workers merge")]


@prop("C21", "TLA+ specification of bond valence sums, TLC-generated histories replayed on calculators",
      "Valence sums and deviations are compared with those of the specification after each evaluation.",
      required="new atom rmin rmax pairmask bvparam nobvparam valence novalence precision eval evalsame merge save".split())
def c21(tier):
    k = 3 if tier == QUICK else 12
    return [calc("valences", "bvs", 400 * k, 40, STRU + MASK2 + "rmin rmax bvparam*7 nobvparam valence novalence precision eval*7 evalsame again save workers merge refuse",
                 **BVS)]


@prop("C23", "TLA+ specification of pair distribution and Debye sums, TLC-generated histories replayed on calculators",
      "Weights of single peaks and scattering intensities are compared with sums over the pairs of the specification.",
      required="new atom rmin rmax evaluator pairmask sf nosf pwmodel eval evalsame merge save".split())
def c23(tier):
    k = 2 if tier == QUICK else 12
    return [calc("pdf", "pdf", 240 * k, 30, STRU + MASK2 + "rmin rmax evaluator sf*2 nosf width*2 eval*6 evalsame*2 again save workers merge refuse"),
            calc("debye", "debye", 200 * k, 30, STRU + MASK2 + "rmin rmax evaluator sf*2 nosf width*2 eval*6 evalsame*2 again save workers merge refuse")]


# --------------------------------------------------------------------------
# Tables

def tables(name, num, depth, weights, **kw):
    return Sim(name, "Tables", dict(dict(NSlot=3, SFTypes='={"X", "N", "E", "EN"}'), Weights=words(weights), **kw), driver="tables", num=num, depth=depth)


@prop("C12", "TLA+ specification of atom radii tables with a grammar of radii texts, TLC-generated histories replayed on the code",
      "After each operation all custom radii and the default are compared with the specification; texts are composed from valid and malformed items.",
      required="raset rareset raresetall radef ralookup ratext rashow ratrip ranew raclone rasave racreate".split())
def c12(tier):
    k = 3 if tier == QUICK else 12
    return [tables("radii", 800 * k, 40, "raset*4 rareset*2 raresetall radef ralookup*3 ratext*6 rashow*2 ratrip ranew racopy*2 racreate")]


@prop("C13", "TLA+ specification of bond valence parameter lookup over the distributed table, TLC-generated histories replayed on the code",
      "Lookups in either order and in all forms are compared with the precedence rules of the specification, with all custom entries after each operation.",
      required="bvset bvcopy bvreset bvresetall bvval bvnoval bvgetval bvlookup bvtext symbol bvall bveq bvnew bvclone bvsave bvparse".split())
def c13(tier):
    k = 3 if tier == QUICK else 12
    return [tables("parameters", 480 * k, 40, "bvset*6 bvcopy*2 bvreset*2 bvresetall bvval*2 bvnoval bvgetval*2 bvlookup*8 bvtext*6 symbol*2 bvall bveq*3 bvnew bvcopytable*2 bvparse")]


@prop("C14", "TLA+ specification of scattering factor tables with the distributed data, TLC-generated histories replayed on the code",
      "Factors of customized and standard symbols, sets of custom symbols and ticker changes of all tables are compared after each operation.",
      required="sfas sfvalue sfreset sfresetall sflookup sfstd sfnew sfclone sfsave sfcreate".split())
def c14(tier):
    k = 3 if tier == QUICK else 12
    return [tables("factors", 480 * k, 40, "sfas*3 sfvalue*4 sfrepeat sfreset*2 sfresetall sflookup*9 sfstd sfnew sfcopy*2 sfcreate")]


@prop("C26", "TLA+ specification with the distributed data as constants, TLC-generated lookups replayed on the code",
      "Standard factors and parameters of symbols in any notation are compared with data that were parsed independently from the distributed files.",
      required="sfstd sfnew bvlookup bvtext bvrows bvparse".split())
def c26(tier):
    k = 2 if tier == QUICK else 12
    return [tables("factors", 200 * k, 40, "sfstd*8 sflookup*2 sfnew sfas symbol*2"),
            tables("parameters", 200 * k, 40, "bvlookup*6 bvtext*4 bvgetval*2 bvparse*2"),
            tables("whole", 16 * k, 12, "bvrows bvset*2 bvcopytable bvreset", NSlot=2)]


# --------------------------------------------------------------------------
# Registry

RG = dict(Regs='={"dummy", "factors"}', NSlot=2, Extra='={"x", "y", "", "ta", "constant", "scale", "a b", "X", "N", "gaussian "}')


def registry(name, num, depth, weights, **kw):
    return Sim(name, "Registry", dict(RG, Weights=words(weights), **kw), driver="registry", num=num, depth=depth)


@prop("C11", "TLA+ specification of prototype registries: exhaustive check of its rules, transition tour and TLC-generated histories replayed on all registries",
      "All lists and the objects created by every name of the registries are compared after each operation.",
      required="register registerobj alias deregister create known set clone save fresh".split())
def c11(tier):
    k = 1 if tier == QUICK else 12
    w = "register*2 again*3 registerobj alias*2 aliasknown*5 deregister*2 create*4 known*2 set*2 clone*2"
    return [
        Design("registry-design", "Registry", dict(Regs='={"dummy"}', NSlot=1, Extra='={"x"}' if tier == QUICK else '={"x", "y"}', Weights=words("register registerobj alias deregister create set clone")),
               view="View", invariants=["Sane"], properties=["NoRedirect"]),
        Tour("registry-tour", "Registry", dict(Regs='={"dummy"}', NSlot=1, Extra='={"x"}', Weights=words("register alias deregister")),
             invariants=["Sane"], properties=["NoRedirect"], driver="registry"),
        Tour("factors-tour", "Registry", dict(Regs='={"factors"}', NSlot=1, Extra='={}', Weights=words("register aliasknown deregister")),
             invariants=["Sane"], driver="registry", maxlen=4 if tier == QUICK else 5),
        registry("factors", 200 * k, 40, w),
        registry("models", 160 * k, 40, w, Regs='={"width", "envelope"}'),
        registry("others", 160 * k, 40, w, Regs='={"radii", "baseline", "profile"}'),
    ]


# --------------------------------------------------------------------------
# Setup

SU = dict(NSlot=3, Kinds='={"pdf", "debye", "sum", "overlap", "bvs", "bond", "pairs"}')


def setup(name, num, depth, weights, **kw):
    return Sim(name, "Setup", dict(SU, Weights=words(weights), **kw), driver="setup", num=num, depth=depth)


COMPS_SU = "compnew*3 compclone compset*8 width*3 profile*2 baseline*2 addenv*4 popenv*2 popenvtype clearenv widthtype profiletype baselinetype addenvtype*2"


def attrs(name, num, depth, weights, **kw):
    return Sim(name, "Attrs", dict(dict(N=4, Names='={"a", "b", "", "a b", "A"}', Values="=-3..3", Ways='={"function", "method", "reference"}'), Weights=words(weights), **kw), driver="attrs", num=num, depth=depth)


@prop("C10", "TLA+ specification of attributes delegated to shared components, TLC-generated histories replayed on all calculators",
      "After each operation all attribute values, getters and name lists of three calculators are compared with the specification.",
      required="new setter setattr getattr compset compattr width profile baseline addenv popenv widthtype copy register set link assign".split())
def c10(tier):
    k = 1 if tier == QUICK else 12
    return [Tour("names-tour", "Attrs", dict(N=2, Names='={"a"}', Values='={0, 1}', Ways='={"method"}', Weights=words("register set link assign")), view="View",
                 invariants=["Sane"], properties=["SetSeen", "OneNumber"], driver="attrs", maxlen=4 if tier == QUICK else 5),
            attrs("names", 160 * k, 30, "register*5 set*6 number*2 link*3 unlink assign*2"),
            setup("attributes", 240 * k, 40, "new own*6 attr*8 anyattr*5 getattr*3 optimum copy getenv " + COMPS_SU),
            setup("attributes-pdf", 160 * k, 40, "new own*5 attr*10 anyattr*2 getattr*2 eval*5 copy " + COMPS_SU, Kinds='={"pdf", "debye"}')]


@prop("C08", "TLA+ specification of the configuration of calculators and its tickers, TLC-generated histories replayed on the code",
      "After each operation the tickers of three calculators, which may share components, must be later than all earlier ticks if the configuration changed, and unmoved if the same numbers were set again.",
      required="setter setattr compset width profile sf sfset maskall pairmask typemask cone copy widthtype handover".split())
def c08(tier):
    k = 1 if tier == QUICK else 12
    tw = "click*4 new copy*2 update*3 others handover"
    return [Tour("order-tour", "Ticker", dict(N=3, Weights=words("click new copy update handover")), view="View", properties=["Latest", "Forward", "Kept"], driver="ticker", maxlen=6),
            Sim("order", "Ticker", dict(N=5, Weights=words(tw)), driver="ticker", num=160 * k, depth=25),
            setup("tickers", 160 * k, 40, "new own*8 attr*3 compset*7 compnew width*3 profile*2 sf*2 sfset*3 sfreset sfnew widthtype sftype profiletype optimum copy*2 maskall*2 pairmask*2 typemask*2 cone handover"),
            setup("tickers-bonds", 80 * k, 40, "new own*3 maskall*2 pairmask*4 typemask*4 cone*4 copy", Kinds='={"bond", "overlap", "bvs", "sum"}'),
            setup("tickers-evaluated", 120 * k, 30, "own*6 compset*5 width*2 profile sf sfset*2 eval*4 optimum handover", Kinds='={"pdf", "debye"}', NSlot=2)]


@prop("C18", "TLA+ specification of envelopes and baselines as installed components with closed formulas, TLC-generated histories replayed on the code",
      "Envelopes in use, values of every envelope and baseline, their composition on given points and in the evaluated PDF are compared with the formulas of the specification.",
      required="addenv popenv popenvtype clearenv addenvtype baseline baselinetype apply envval baseval eval compset".split())
def c18(tier):
    k = 1 if tier == QUICK else 12
    w = "compnew*2 compset*8 addenv*4 popenv*2 popenvtype*2 clearenv addenvtype*3 getenv attr*3 apply*6 envval*3"
    return [setup("envelopes", 240 * k, 40, w + " baseline*2 baselinetype baseval*2 copy", Kinds='={"pdf", "debye"}', NSlot=2),
            setup("envelopes-pdf", 120 * k, 30, w + " own*3 eval*5 baseline*2 baselinetype maskall pairmask typemask", Kinds='={"pdf"}', NSlot=2)]


@prop("C17", "TLA+ specification of result grids and limits, TLC-generated histories replayed on the calculators",
      "Lengths, end points and steps of the grids, lengths of all results, extended limits and the Q-step are compared after each evaluation with the specification.",
      required="setter setattr optimum eval compset".split())
def c17(tier):
    k = 1 if tier == QUICK else 12
    w = "own*9 attr*3 compset*3 width profile eval*8"
    return [setup("grids-pdf", 160 * k, 30, w, Kinds='={"pdf"}', NSlot=1),
            setup("grids-debye", 120 * k, 30, w + " optimum", Kinds='={"debye"}', NSlot=1)]


@prop("C29", "TLA+ specification of the transforms between PDF and Q-space function, TLC-generated histories replayed on evaluated calculators",
      "After evaluations and changes of Q limits, grids, envelopes and baselines the whole Q-space function and the PDF at several points are compared with direct sine sums over the observed counterpart.",
      required="transform eval setter setattr compset addenv baseline".split(),
      assumptions=["sine sums at four points of each function", "linear interpolation in the PDF from a Debye sum"])
def c29(tier):
    k = 1 if tier == QUICK else 12
    w = "eval*5 transform*7 own*6 attr*3 compset*4 addenv*2 popenv baseline baselinetype"
    return [setup("transform-pdf", 100 * k, 30, w, Kinds='={"pdf"}', NSlot=1),
            setup("transform-debye", 80 * k, 30, w + " optimum", Kinds='={"debye"}', NSlot=1),
            setup("transform-both", 60 * k, 30, w + " copy handover", Kinds='={"pdf", "debye"}', NSlot=2)]


@prop("C25", "TLA+ specification of lattices by base matrices and orientation, TLC-generated histories and queries replayed on the code",
      "Derived vectors and tensors of lattices after each change, conversions and products of random vectors, lattice points and reflections in ranges, vector and angle functions and sine transforms are compared with the specification.",
      required="par newpar base basetuple newbase own copy archive look params query points reflections matrix trig eps fft".split(),
      assumptions=["base vectors are not nearly degenerate", "real values agree within 2e-8", "points within 1e-6 of the limits of a range are not judged"])
def c25(tier):
    k = 1 if tier == QUICK else 12
    return [Sim("lattices", "Lattice", dict(K=2, Weights=words("par*4 base*4 own*2 copy archive look params query*4")), properties=["Kept", "RefusedKeeps"], driver="lattice", num=200 * k, depth=30),
            Sim("ranges", "Lattice", dict(K=2, Weights=words("par*2 base*2 points*2 reflections*2")), driver="lattice", num=32 * k, depth=24),
            Sim("functions", "Lattice", dict(K=1, Weights=words("matrix*2 trig*2 eps*2 fft")), driver="lattice", num=100 * k, depth=40)]


@prop("C27", "TLA+ specification of components with closed formulas, TLC-generated histories replayed on the code",
      "Widths of bonds, largest widths, profile values and bounds of components with any parameters, clones and restored components included, are compared with the formulas of the specification.",
      required="compnew compclone compsave compset compattr widthval profileval".split())
def c27(tier):
    k = 2 if tier == QUICK else 12
    return [setup("models", 240 * k, 40, "compnew*4 compclone*2 compset*8 widthval*6 profileval*6 widthtype profiletype attr*3", Kinds='={"pdf", "debye"}', NSlot=2)]


# --------------------------------------------------------------------------
# Properties that cross all parts

@prop("C09", "TLA+ specifications in which a restored object is the object itself, TLC-generated histories with copies and continuation in another process replayed on the code",
      "Calculators, structures, tables, components and tickers are replaced by restored copies at any place of a history, or everything is sent in one archive to a fresh process; all later observations must be as if nothing happened.",
      required="save handover eval evalsame clone sfsave rasave bvsave copy compsave compattr merge again".split(),
      assumptions=["the same library writes and reads the archives", "calculators that define how they are serialized in the library; PairCounter does not"])
def c09(tier):
    k = 1 if tier == QUICK else 12
    return [
        pairsum("caches", 160 * k, 36, "variant*2 edit*4 cell override rmin rmax evaluator pairmask*2 sitemask typemask*2 eval*5 evalsame*3 share workers merge*2 save*4 handover*3",
                CalcTypes='={"H", "F", "G"}'),
        calc("calculators", "bond overlap pdf debye", 200 * k, 30, STRU + MASK2 + "rmin rmax evaluator cone radius*2 defradius sf*2 width workers merge*2 eval*4 evalsame*2 again save*4 handover*3"),
        calc("valences", "bvs", 60 * k, 30, STRU + MASK2 + "rmin rmax bvparam*5 valence precision workers merge eval*5 evalsame*2 save*4 handover*3", **BVS),
        setup("components", 120 * k, 40, "new own*4 attr*4 copy*5 handover*4 getstru eval*2 maskall pairmask typemask sfset*2 cone ".replace("getstru ", "") + COMPS_SU + " compclone*5"),
        setup("evaluated", 100 * k, 30, "own*6 compset*4 width profile sfset eval*5 copy*3 handover*3 addenv baseline", Kinds='={"pdf", "debye"}', NSlot=2),
        bonds("crystals", 120 * k, 36, "new atom*3 ops*3 cell precision copy*5 equiv*4 total*2 gen all"),
        struct("structures", 120 * k, 40, "new variant wrap*4 copy*6 share edit*6 ops*2 cell data*4 totals*2 types bonds*2 config*2 diff*2"),
        tables("tables", 160 * k, 40, "raset*3 rareset radef ralookup*2 racopy*4 bvset*3 bvreset bvval bvgetval bvlookup*3 bvcopytable*4 sfas*3 sfvalue*2 sfreset sflookup*4 sfcopy*4"),
        registry("prototypes", 60 * k, 40, "register*2 alias*2 deregister create*2 set*4 clone*6"),
        Sim("order", "Ticker", dict(N=5, Weights=words("click*4 new copy*4 update*2 others handover*3")), driver="ticker", num=80 * k, depth=25),
    ]


@prop("C20", "TLA+ specifications in which a refused request changes nothing, TLC-generated histories with refused requests replayed on the code",
      "Requests that must be refused are inserted anywhere in histories of all specifications; configuration, tickers and later results must be as if they had not been made.",
      required="setter setattr width type badevaluator badcpu badcone badmerge badrange badtable nulltable badprecision ratext bvtext lookup query register eval".replace("type ", "").split(),
      assumptions=["the objects are used by one thread"])
def c20(tier):
    k = 1 if tier == QUICK else 12
    return [
        setup("configuration", 160 * k, 40, "refused*20 own*3 attr*2 width profile addenv baseline sf compset*2 maskall pairmask cone eval copy"),
        setup("evaluated", 120 * k, 30, "refused*10 own*3 compset*2 sfset*2 sf eval*5", Kinds='={"pdf", "debye"}', NSlot=2),
        pairsum("caches", 160 * k, 36, "variant edit*3 bad*2 rmin rmax evaluator pairmask typemask eval*6 evalsame*2 assign refuse*6 badshare*3 workers merge*4",
                CalcTypes='={"H", "F", "G"}'),
        calc("calculators", "bond overlap pdf debye", 160 * k, 30, STRU + MASK2 + "rmin rmax evaluator cone radius*2 defradius sf width workers merge*2 eval*4 evalsame*2 again*2 flip badflip*3 refuse*8"),
        calc("valences", "bvs", 60 * k, 30, STRU + MASK2 + "rmin rmax bvparam*4 valence precision eval*4 evalsame again*2 refuse*6", **BVS),
        tables("tables", 160 * k, 40, "raset*2 radef ratext*6 ralookup rashow bvset*2 bvcopy bvval bvtext*6 bvlookup*3 bvparse*3 sfas*2 sfvalue sfstd*3 sflookup*2", SFTypes='={"X", "N", "E"}'),
        registry("registry", 60 * k, 40, "register*2 again*5 registerobj alias aliasknown*5 deregister*2 create*4 known set"),
        bonds("crystals", 60 * k, 36, "new atom*3 ops*2 precision badprecision*4 equiv*4 total", Kinds='={"crys"}'),
        datapath("data", 120 * k, 30, "env*3 query*3 dir*4 gooddir lookup*6 link remove file", Forms='={"abs", "unset", "below", "missing"}'),
    ]


# --------------------------------------------------------------------------
# DataPath

FORMS = '={"unset", "empty", "root", "roots", "abs", "slash", "slashes", "dot", "rel", "relslash", "dotrel", "double", "inner", "below", "missing", "dotdot"}'


def datapath(name, num, depth, weights, **kw):
    return Sim(name, "DataPath", dict(dict(Names='={"a", "b", "c"}', Forms=FORMS), Weights=words(weights), **kw), driver="datapath", num=num, depth=depth)


@prop("C22", "TLA+ specification of data directories as a small file system with environment, TLC-generated histories replayed in programs placed in scratch directories",
      "Directories found after changes of the environment and of the file system, and data loaded from them by the first successful lookup, are compared with the specification.",
      required="env query dir file remove link lookup open read separator mark error".split(),
      assumptions=["directories named by an unchanged environment variable do not change after they were found"])
def c22(tier):
    k = 2 if tier == QUICK else 12
    return [
        Tour("tour", "DataPath", dict(Names='={"a"}', Forms='={"unset", "abs", "relslash", "empty"}', Weights=words("env query gooddir remove")), view="View", driver="datapath",
             maxlen=5 if tier == QUICK else 6),
        datapath("directories", 200 * k, 30, "env*4 query*6 gooddir*3 link*2 remove file"),
        datapath("tables", 200 * k, 30, "env*3 query dir*4 gooddir lookup*6 link remove file", Forms='={"abs", "unset", "slash", "rel"}'),
        Sim("lines", "Lines", dict(Weights=words("open*2 read*8 separator mark*2 error")), invariants=["Counts"], driver="lines", num=400 * k, depth=30),
    ]
