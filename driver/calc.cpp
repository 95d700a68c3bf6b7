// Conformance driver for Calc.tla: the calculators of the library on
// structures with integer geometry.
#include "geom.hpp"
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>

using namespace verif;
typedef std::vector< std::vector<long> > Table;

// scattering factors of A, B, C with three different curves
class VTable : public ScatteringFactorTable
{
    public:
        ScatteringFactorTablePtr create() const  { return ScatteringFactorTablePtr(new VTable); }
        ScatteringFactorTablePtr clone() const  { return ScatteringFactorTablePtr(new VTable(*this)); }
        const std::string& type() const  { static std::string rv = "verif"; return rv; }
        const std::string& radiationType() const  { static std::string rv = "VERIF"; return rv; }
        double standardLookup(const std::string& s, double q) const
        {
            if (s == "A")  return 2;
            if (s == "B")  return 3 / (1 + q * q);
            if (s == "C")  return 5 / (1 + q);
            throw std::invalid_argument("unknown symbol");
        }
        template <class A> void serialize(A& ar, const unsigned int)
        {
            ar & boost::serialization::base_object<ScatteringFactorTable>(*this);
        }
};

const double DR = 0.01;
// peak that is one point wide, its height tells the width, which also decides
// about the calculated range
class BoxProfile : public PeakProfile
{
    public:
        PeakProfilePtr create() const  { return PeakProfilePtr(new BoxProfile); }
        PeakProfilePtr clone() const  { return PeakProfilePtr(new BoxProfile(*this)); }
        const std::string& type() const  { static std::string rv = "verifbox"; return rv; }
        double operator()(double x, double fwhm) const  { return std::fabs(x) < DR / 2 ? 1.0 + fwhm : 0.0; }
        double xboundlo(double fwhm) const  { return -DR / 2 - std::min(0.1 * fwhm, 1.0); }
        double xboundhi(double fwhm) const  { return DR / 2 + std::min(0.05 * fwhm, 0.5); }
        template <class A> void serialize(A& ar, const unsigned int)
        {
            ar & boost::serialization::base_object<PeakProfile>(*this);
        }
};

BOOST_CLASS_EXPORT(VTable)
BOOST_CLASS_EXPORT(BoxProfile)

typedef boost::shared_ptr<PairQuantity> PQPtr;
static std::map<long, Geom> slots;
static PQPtr calc;
static std::string ctype;
static std::vector<PQPtr> workers;
static long maxi = 5;
static Geom own;        // private copy that belongs to a restored calculator

static PQPtr roundtrip(PQPtr pq)
{
    PQPtr rv;
    diffpy::serialization_fromstring(rv, diffpy::serialization_tostring(pq));
    return rv;
}
static void each(std::function<void(PairQuantity&)> f)
{
    f(*calc);
    for (auto& w : workers)  f(*w);
}
static void badcpu(PairQuantity& w)
{
    try { w.setupParallelRun(3, 0); }
    catch (std::invalid_argument&) { return; }
    throw std::runtime_error("share of no CPU was not refused");
}
template <class T> T& as(PairQuantity& p)  { return dynamic_cast<T&>(p); }
static PQEvaluatorType evtype(const std::string& s)
{
    return s == "BASIC" ? BASIC : s == "OPTIMIZED" ? OPTIMIZED : CHECK;
}
template <class T> static std::vector<J> jlist(const T& v)
{
    std::vector<J> rv;
    for (auto& x : v)  rv.push_back(J(x));
    return rv;
}
static J jarr(const std::vector<J>& v)
{
    J rv;
    rv.t = "[";
    for (size_t k = 0; k < v.size(); ++k)  rv.t += (k ? "," : "") + v[k].t;
    rv.t += "]";
    return rv;
}
static J floats(const QuantityType& v)
{
    return jarr(jlist(v));
}
static J quarters(const QuantityType& v)
{
    std::vector<long> rv;
    for (double x : v)  rv.push_back(toint(4 * x));
    return J(rv);
}

static PQPtr make(const std::string& tp)
{
    PQPtr rv;
    if (tp == "bond")  rv.reset(new BondCalculator);
    else if (tp == "overlap")  rv.reset(new OverlapCalculator);
    else if (tp == "bvs")  rv.reset(new BVSCalculator);
    else if (tp == "pdf")
    {
        boost::shared_ptr<PDFCalculator> p(new PDFCalculator);
        p->setScatteringFactorTable(ScatteringFactorTablePtr(new VTable));
        p->setPeakWidthModelByType("constant");
        p->setPeakProfile(PeakProfilePtr(new BoxProfile));
        p->setBaselineByType("linear");
        p->clearEnvelopes();
        p->setRstep(DR);
        rv = p;
    }
    else if (tp == "debye")
    {
        boost::shared_ptr<DebyePDFCalculator> p(new DebyePDFCalculator);
        p->setScatteringFactorTable(ScatteringFactorTablePtr(new VTable));
        p->setPeakWidthModelByType("constant");
        p->clearEnvelopes();
        p->setRstep(0.0005);
        p->setMaxExtension(0);
        p->setQmax(2);
        p->setDebyePrecision(1e-15);
        rv = p;
    }
    else  { std::cerr << "unknown calculator\n"; std::_Exit(97); }
    return rv;
}

// bonds as site0 site1 and vector
static Table vectors(const Geom& g, const SiteIndices& s0, const SiteIndices& s1, const std::vector<R3::Vector>& dir)
{
    Table rv;
    for (size_t k = 0; k < dir.size(); ++k)
    {
        std::vector<long> e{s0.at(k) + 1, s1.at(k) + 1};
        for (long q : Geom::ints(g.m.steps(dir[k])))  e.push_back(q);
        rv.push_back(e);
    }
    return rv;
}

static void results(const Geom& g, Obs& o)
{
    int n = g.s->countSites();
    if (ctype == "bond")
    {
        BondCalculator& b = as<BondCalculator>(*calc);
        QuantityType d = b.distances();
        std::vector<R3::Vector> dir = b.directions();
        SiteIndices s0 = b.sites0(), s1 = b.sites1();
        std::vector<std::string> t0 = b.types0(), t1 = b.types1();
        bool ok = d == b.value() && d.size() == dir.size() && d.size() == s0.size() && d.size() == s1.size() && d.size() == t0.size() && d.size() == t1.size();
        if (!ok)  { o.set("ok", false); return; }
        Table order;
        for (size_t k = 0; k < d.size(); ++k)
        {
            if (std::fabs(R3::norm(dir[k]) - d[k]) > 1e-9)  ok = false;
            if (t0[k] != g.s->siteAtomType(s0[k]) || t1[k] != g.s->siteAtomType(s1[k]))  ok = false;
            order.push_back({toint(d[k] * d[k], 1e-4), s0[k] + 1, s1[k] + 1});
            if (!k)  continue;
            if (d[k - 1] > d[k])  ok = false;
            if (d[k - 1] == d[k] && std::make_pair(s0[k - 1], s1[k - 1]) > std::make_pair(s0[k], s1[k]))  ok = false;
        }
        o.set("ok", ok);
        o.set("bonds", counted(vectors(g, s0, s1, dir)));
        o.set("order", order);
    }
    else if (ctype == "overlap")
    {
        OverlapCalculator& b = as<OverlapCalculator>(*calc);
        QuantityType d = b.distances(), ov = b.overlaps();
        std::vector<R3::Vector> dir = b.directions();
        SiteIndices s0 = b.sites0(), s1 = b.sites1();
        std::vector<std::string> t0 = b.types0(), t1 = b.types1();
        bool ok = d.size() == ov.size() && d.size() == dir.size() && d.size() == s0.size() && d.size() == s1.size() && d.size() == t0.size() && d.size() == t1.size();
        if (!ok)  { o.set("ok", false); return; }
        Table v = vectors(g, s0, s1, dir);
        for (size_t k = 0; k < d.size(); ++k)
        {
            if (std::fabs(R3::norm(dir[k]) - d[k]) > 1e-9)  ok = false;
            if (t0[k] != g.s->siteAtomType(s0[k]) || t1[k] != g.s->siteAtomType(s1[k]))  ok = false;
            v[k].push_back(toint(100 * (ov[k] + d[k])));
        }
        o.set("ok", ok);
        o.set("pairs", counted(v));
        o.set("sq", floats(b.siteSquareOverlaps()));
        o.set("total", b.totalSquareOverlap());
        o.set("mean", b.meanSquareOverlap());
        o.set("rmaxused", b.getRmaxUsed());
        o.set("coord", quarters(b.coordinations()));
        std::vector< std::vector<long> > nb, bytype;
        for (int i = 0; i < n; ++i)
        {
            std::vector<long> x;
            for (int j : b.getNeighborSites(i))  x.push_back(j + 1);
            std::sort(x.begin(), x.end());
            nb.push_back(x);
            auto c = b.coordinationByTypes(i);
            std::vector<long> y;
            for (std::string t : {"A", "B", "C"})  y.push_back(c.count(t) ? toint(4 * c[t]) : 0);
            bytype.push_back(y);
        }
        o.set("nb", nb);
        o.set("bytype", bytype);
        Table hoods;
        for (auto& h : b.neighborhoods())
        {
            std::vector<long> x;
            for (int j : h)  x.push_back(j + 1);
            std::sort(x.begin(), x.end());
            hoods.push_back(x);
        }
        std::sort(hoods.begin(), hoods.end());
        o.set("hoods", hoods);
        std::vector<J> grad;
        for (auto& x : b.gradients())
        {
            R3::Vector y = g.m.steps(x);
            grad.push_back(jarr({J(double(y[0])), J(double(y[1])), J(double(y[2]))}));
        }
        o.set("grad", jarr(grad));
    }
    else if (ctype == "bvs")
    {
        BVSCalculator& b = as<BVSCalculator>(*calc);
        o.set("value", floats(b.value()));
        std::vector<long> v;
        for (double x : b.valences())  v.push_back(toint(x));
        o.set("valences", v);
        o.set("bvdiff", floats(b.bvdiff()));
        o.set("ms", b.bvmsdiff());
        o.set("rms2", b.bvrmsdiff() * b.bvrmsdiff());
        o.set("rmaxused", b.getRmaxUsed());
    }
    else if (ctype == "pdf")
    {
        PDFCalculator& b = as<PDFCalculator>(*calc);
        QuantityType r = b.getRgrid(), v = b.getRDF(), g0 = b.getPDF();
        std::vector<long> d2;
        std::vector<J> w;
        bool ok = r.size() == v.size() && r.size() == g0.size();
        double slope = b.getBaseline()->getDoubleAttr("slope");
        o.set("slope", slope);
        for (size_t k = 0; ok && k < r.size(); ++k)
        {
            if (std::fabs((g0[k] - slope * r[k]) * r[k] - v[k]) > 1e-9 * (1 + std::fabs(v[k])))  ok = false;
            if (std::fabs(v[k]) < 1e-12)  continue;
            long q = std::lround(r[k] * r[k]);
            double d = std::sqrt(double(q));
            if (std::fabs(d - r[k]) > DR / 2)  ok = false;
            d2.push_back(q);
            w.push_back(v[k] * d / r[k]);
        }
        o.set("ok", ok);
        o.set("d2", d2);
        o.set("w", jarr(w));
    }
    else if (ctype == "debye")
    {
        DebyePDFCalculator& b = as<DebyePDFCalculator>(*calc);
        QuantityType q = b.getQgrid(), f = b.getF();
        std::vector<J> w;
        for (int k : {1, 7, 20, 39})  w.push_back(k < int(f.size()) ? f[k] * 0.25 / occunit() : NAN);
        o.set("ok", q.size() == 40 && f.size() == 40 && std::fabs(q[39] - 1.95) < 1e-9);
        o.set("f", jarr(w));
    }
}

static void handle(const std::string& op, Args& a, Obs& o)
{
    auto slot = [&]() -> Geom& {
        long k = a.i();
        return slots[k];
    };
    auto stru = [&](long k) -> Geom& { return k ? slots.at(k) : own; };
    if (op == "nop")  { }
    else if (op == "calc")
    {
        ctype = a.s();
        calc = make(ctype);
        workers.clear();
        std::string ev = a.s();
        if (ctype != "overlap" && ctype != "bvs")  calc->setEvaluatorType(evtype(ev));
        calc->setRmin(0);
        long rmx = a.i();
        calc->setRmax(radius(rmx));
        occunit() = (ctype == "debye" && rmx % 2) ? 0.25 / 128 : 0.25;
        if (ctype == "debye")  as<DebyePDFCalculator>(*calc).setQstep(0.05);
        if (ctype == "bvs")  as<BVSCalculator>(*calc).setValencePrecision(std::exp(-3.0));
    }
    else if (op == "new")
    {
        Geom& s = slot();
        s = Geom();
        s.read(a);
    }
    else if (op == "atom")  { Geom& s = slot(); long i = a.i(); (*s.s)[i] = s.atom(a); }
    else if (op == "append")  { Geom& s = slot(); s.s->append(s.atom(a)); }
    else if (op == "insert")  { Geom& s = slot(); long i = a.i(); s.s->insert(int(i), s.atom(a)); }
    else if (op == "erase")  { Geom& s = slot(); s.s->erase(int(a.i())); }
    else if (op == "swap")  { Geom& s = slot(); long i = a.i(); long j = a.i(); std::swap((*s.s)[i], (*s.s)[j]); }
    else if (op == "cell")  { Geom& s = slot(); s.m.D = a.li(); s.setcell(); }
    else if (op == "setops")
    {
        Geom& s = slot();
        std::vector<long> v = a.li();
        s.crys()->clearSymOps();
        for (size_t k = 0; k < v.size(); k += 12)  s.addop(v, k);
    }
    else if (op == "rmin")  { double r = radius(a.i()); each([=](PairQuantity& p) { p.setRmin(r); }); }
    else if (op == "rmax")  { double r = radius(a.i()); each([=](PairQuantity& p) { p.setRmax(r); }); }
    else if (op == "badrange")
    {
        std::string w = a.s();
        if (w == "rmin")  calc->setRmin(-1);
        else  calc->setRmax(-1);
    }
    else if (op == "evaluator")
    {
        PQEvaluatorType t = evtype(a.s());
        each([=](PairQuantity& p) { p.setEvaluatorType(t); });
    }
    else if (op == "maskall")  { bool v = a.b(); each([=](PairQuantity& p) { p.maskAllPairs(v); }); }
    else if (op == "invert")  each([=](PairQuantity& p) { p.invertMask(); });
    else if (op == "pairmask")
    {
        long i = a.i(), j = a.i();
        bool v = a.b();
        each([=](PairQuantity& p) { p.setPairMask(i, j, v); });
    }
    else if (op == "typemask")
    {
        std::string s = a.s(), t = a.s();
        bool v = a.b();
        each([=](PairQuantity& p) { p.setTypeMask(s, t, v); });
    }
    else if (op == "cone")
    {
        // axis is in steps of the structure
        Geom& s = slot();
        long x = a.i(), y = a.i(), z = a.i(), deg = a.i();
        R3::Vector ax = s.m.cart(x, y, z);
        each([=](PairQuantity& p) { as<BondCalculator>(p).filterCone(ax, deg); });
    }
    else if (op == "badcone")  as<BondCalculator>(*calc).filterCone(R3::Vector(0.0, 0.0, 0.0), 30);
    else if (op == "coneoff")  each([=](PairQuantity& p) { as<BondCalculator>(p).filterOff(); });
    else if (op == "radius")
    {
        std::string t = a.s();
        double r = a.i() / 100.0;
        each([=](PairQuantity& p) { as<OverlapCalculator>(p).getAtomRadiiTable()->setCustom(t, r); });
    }
    else if (op == "noradius")
    {
        std::string t = a.s();
        each([=](PairQuantity& p) { as<OverlapCalculator>(p).getAtomRadiiTable()->resetCustom(t); });
    }
    else if (op == "defradius")
    {
        double r = a.i() / 100.0;
        each([=](PairQuantity& p) { dynamic_cast<ConstantRadiiTable&>(*as<OverlapCalculator>(p).getAtomRadiiTable()).setDefault(r); });
    }
    else if (op == "nulltable")
    {
        if (ctype == "overlap")  as<OverlapCalculator>(*calc).setAtomRadiiTable(AtomRadiiTablePtr());
        else if (ctype == "bvs")  as<BVSCalculator>(*calc).setBVParamTable(BVParametersTablePtr());
        else  dynamic_cast<ScatteringFactorTableOwner&>(*calc).setScatteringFactorTable(ScatteringFactorTablePtr());
    }
    else if (op == "badtable")
    {
        if (ctype == "overlap")  as<OverlapCalculator>(*calc).setAtomRadiiTableByType("nosuchtype");
        else if (ctype == "pdf")  as<PDFCalculator>(*calc).setPeakProfileByType("nosuchtype");
        else  dynamic_cast<ScatteringFactorTableOwner&>(*calc).setScatteringFactorTableByType("nosuchtype");
    }
    else if (op == "flip")
    {
        OverlapCalculator& b = as<OverlapCalculator>(*calc);
        long i = a.i(), j = a.i();
        o.set("diff", b.flipDiffTotal(i, j));
        o.set("mean", b.flipDiffMean(i, j));
        o.set("total", b.totalSquareOverlap());
    }
    else if (op == "sf")
    {
        std::string t = a.s(), src = a.s();
        double v = a.i();
        each([=](PairQuantity& p) { dynamic_cast<ScatteringFactorTableOwner&>(p).getScatteringFactorTable()->setCustomAs(t, src, v); });
    }
    else if (op == "nosf")
    {
        std::string t = a.s();
        each([=](PairQuantity& p) { dynamic_cast<ScatteringFactorTableOwner&>(p).getScatteringFactorTable()->resetCustom(t); });
    }
    else if (op == "bvparam")
    {
        std::string t0 = a.s();
        long v0 = a.i();
        std::string t1 = a.s();
        long v1 = a.i(), ro = a.i(), bb = a.i();
        each([=](PairQuantity& p) { as<BVSCalculator>(p).getBVParamTable()->setCustom(t0, v0, t1, v1, ro / 100.0, bb / 100.0); });
    }
    else if (op == "nobvparam")
    {
        std::string t0 = a.s();
        long v0 = a.i();
        std::string t1 = a.s();
        long v1 = a.i();
        each([=](PairQuantity& p) { as<BVSCalculator>(p).getBVParamTable()->resetCustom(t0, v0, t1, v1); });
    }
    else if (op == "valence")
    {
        std::string t = a.s();
        long v = a.i();
        each([=](PairQuantity& p) { as<BVSCalculator>(p).getBVParamTable()->setAtomValence(t, v); });
    }
    else if (op == "novalence")  each([=](PairQuantity& p) { as<BVSCalculator>(p).getBVParamTable()->resetAtomValences(); });
    else if (op == "pwmodel")
    {
        std::string t = a.s();
        double v[4];
        for (double& x : v)  x = 0.01 * a.i();
        each([=](PairQuantity& p) {
            PeakWidthModelOwner& o = dynamic_cast<PeakWidthModelOwner&>(p);
            o.setPeakWidthModelByType(t);
            PeakWidthModelPtr w = o.getPeakWidthModel();
            if (t == "constant")  w->setDoubleAttr("width", v[0]);
            if (t != "jeong")  return;
            const char* names[] = {"delta1", "delta2", "qbroad", "qbroad_seperable"};
            for (int i = 0; i < 4; ++i)  w->setDoubleAttr(names[i], v[i]);
        });
    }
    else if (op == "precision")
    {
        double v = std::exp(-double(a.i()));
        each([=](PairQuantity& p) { as<BVSCalculator>(p).setValencePrecision(v); });
    }
    else if (op == "badprecision")  as<BVSCalculator>(*calc).setValencePrecision(a.i());
    else if (op == "eval")
    {
        long k = a.i();
        Geom& g = stru(k);
        for (auto& w : workers)  w->setStructure(g.s);
        calc->eval(g.s);
        results(g, o);
    }
    else if (op == "evalsame")
    {
        long k = a.i();
        for (auto& w : workers)  w->setStructure(calc->getStructure());
        calc->eval();
        results(stru(k), o);
    }
    else if (op == "again")  { long k = a.i(); results(stru(k), o); }
    else if (op == "workers")
    {
        long n = a.i();
        workers.clear();
        for (long k = 0; k < n; ++k)
        {
            workers.push_back(roundtrip(calc));
            workers.back()->setupParallelRun(k, n);
        }
    }
    else if (op == "merge")
    {
        Geom& g = slot();
        long rot = a.i();
        bool rev = a.b(), bad = a.b();
        long sv = a.i();
        bool svw = a.b();
        int n = workers.size();
        std::vector<std::string> shares;
        for (auto& w : workers)
        {
            if (bad)  badcpu(*w);
            w->eval(g.s);
            if (svw)  w = roundtrip(w);
            shares.push_back(w->getParallelData());
        }
        calc->setStructure(g.s);
        Geom gs = g;
        for (int q = 0; q <= n; ++q)
        {
            if (sv == q)
            {
                calc = roundtrip(calc);
                gs.s = boost::dynamic_pointer_cast<AtomicStructureAdapter>(calc->getStructure());
                if (gs.s && gs.per())  gs.m.lattice = &gs.per()->getLattice();
                own = gs;
            }
            if (q == n)  break;
            int k = (rev ? (2 * n - q + rot) : (q + rot)) % n;
            calc->mergeParallelData(shares[k], n);
            // a query between the merges has no effect
            Obs part;
            if (ctype != "bond")  results(gs, part);
        }
        results(gs, o);
    }
    else if (op == "save")
    {
        // k is the slot of the current structure
        long k = a.i();
        calc = roundtrip(calc);
        for (auto& w : workers)  w = roundtrip(w);
        Geom g = stru(k);
        g.s = boost::dynamic_pointer_cast<AtomicStructureAdapter>(calc->getStructure());
        if (g.s && g.per())  g.m.lattice = &g.per()->getLattice();
        own = g;
        bool has = a.b();
        if (has)  results(own, o);
    }
    else if (op == "badevaluator")  calc->setEvaluatorType(PQEvaluatorType(99));
    else if (op == "badcpu")  calc->setupParallelRun(0, 0);
    else  VERIF_UNKNOWN_OP(op);
}

static void observe(Obs& o)
{
    std::vector<bool> pm;
    for (long i = 0; i <= maxi; ++i)
        for (long j = i; j <= maxi; ++j)  pm.push_back(calc->getPairMask(i, j));
    o.set("pm", pm);
    PQEvaluatorType t = calc->getEvaluatorType();
    o.set("evt", t == BASIC ? "BASIC" : t == OPTIMIZED ? "OPTIMIZED" : "CHECK");
}

// Structures and the calculator, which refers to one of them, go in one archive.
static std::string save(Args& a)
{
    bool first = a.b();
    std::ostringstream out;
    {
        diffpy::serialization::oarchive ar(out, boost::archive::no_header);
        ar << ctype << maxi << first << occunit();
        if (first)  ar << calc << workers;
        long n = slots.size();
        ar << n;
        for (auto& kv : slots)
        {
            StructureAdapterPtr q = kv.second.s;
            ar << kv.first << q << kv.second.m.kind << kv.second.m.g << kv.second.m.D;
        }
        StructureAdapterPtr q = own.s;
        ar << q << own.m.kind << own.m.g << own.m.D;
        if (!first)  ar << calc << workers;
    }
    return out.str();
}
static void load(const std::string& archive, Obs&)
{
    std::istringstream in(archive);
    diffpy::serialization::iarchive ar(in, boost::archive::no_header);
    bool first;
    long n;
    auto geom = [&](Geom& g) {
        StructureAdapterPtr q;
        ar >> q >> g.m.kind >> g.m.g >> g.m.D;
        g.s = boost::dynamic_pointer_cast<AtomicStructureAdapter>(q);
        if (g.s && g.per())  g.m.lattice = &g.per()->getLattice();
    };
    ar >> ctype >> maxi >> first >> occunit();
    if (first)  ar >> calc >> workers;
    ar >> n;
    while (n--)
    {
        long k;
        ar >> k;
        geom(slots[k]);
    }
    geom(own);
    if (!first)  ar >> calc >> workers;
}

int main(int argc, char* argv[])
{
    maxi = argc > 1 ? atol(argv[1]) : 5;
    return drive([]() { slots.clear(); workers.clear(); own = Geom(); calc = make("bond"); ctype = "bond";
            for (int k = 1; k < 5; ++k)  slots[k].s.reset(new AtomicStructureAdapter); }, handle, observe, save, load);
}
