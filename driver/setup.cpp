// Conformance driver for Setup.tla: configuration of calculators, their
// components and named attributes.
#include "common.hpp"
#include <diffpy/serialization.ipp>
#include <diffpy/HasClassRegistry.hpp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/BondCalculator.hpp>
#include <diffpy/srreal/OverlapCalculator.hpp>
#include <diffpy/srreal/BVSCalculator.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/PDFCalculator.hpp>
#include <diffpy/srreal/DebyePDFCalculator.hpp>
#include <diffpy/srreal/ConstantPeakWidth.hpp>
#include <diffpy/srreal/JeongPeakWidth.hpp>
#include <diffpy/srreal/GaussianProfile.hpp>
#include <diffpy/srreal/CroppedGaussianProfile.hpp>
#include <diffpy/srreal/LinearBaseline.hpp>
#include <diffpy/srreal/ScaleEnvelope.hpp>
#include <diffpy/srreal/QResolutionEnvelope.hpp>
#include <diffpy/srreal/SphericalShapeEnvelope.hpp>
#include <diffpy/srreal/StepCutEnvelope.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/map.hpp>

using namespace verif;
using namespace diffpy::srreal;
typedef boost::shared_ptr<PairQuantity> PQPtr;
typedef diffpy::eventticker::EventTicker Ticker;

namespace {

std::map<std::string, long> UNITS;
long unit(const std::string& a)
{
    return a == "debyeprecision" ? 1000000 : a == "peakprecision" ? 100000000 : a == "valenceprecision" ? 100000 : 1000;
}

// component of any class
struct Comp
{
    PeakWidthModelPtr w;
    PeakProfilePtr p;
    PDFBaselinePtr b;
    PDFEnvelopePtr e;
    template <class A> void serialize(A& ar, const unsigned int)  { ar & w & p & b & e; }
    diffpy::Attributes& attrs() const
    {
        if (w)  return *w;
        if (p)  return *p;
        if (b)  return *b;
        return *e;
    }
    std::string type() const
    {
        return w ? w->type() : p ? p->type() : b ? b->type() : e->type();
    }
};
Comp comp(const PeakWidthModelPtr& x)  { Comp c; c.w = x; return c; }
Comp comp(const PeakProfilePtr& x)  { Comp c; c.p = x; return c; }
Comp comp(const PDFBaselinePtr& x)  { Comp c; c.b = x; return c; }
Comp comp(const PDFEnvelopePtr& x)  { Comp c; c.e = x; return c; }

std::vector<Comp> comps;                        // number k is at k - 1
std::vector<ScatteringFactorTablePtr> sfts;
std::map<long, PQPtr> calcs;
std::map<long, std::string> kinds;
std::map<long, Ticker::value_type> lasttick;
std::vector<std::string> allnames;

J raw(const std::string& t)
{
    J rv;
    rv.t = t;
    return rv;
}
std::string quoted(const std::string& s)  { return J(s).t; }
template <class M> J object(const M& m)
{
    std::string t = "{";
    for (auto& kv : m)  t += (t.size() > 1 ? "," : "") + quoted(kv.first) + ":" + kv.second.t;
    return raw(t + "}");
}
J list(const std::vector<J>& v)
{
    std::string t = "[";
    for (auto& x : v)  t += (t.size() > 1 ? "," : "") + x.t;
    return raw(t + "]");
}
template <class S> J strings(const S& v)
{
    std::vector<J> rv;
    for (auto& x : v)  rv.push_back(J(std::string(x)));
    return list(rv);
}

template <class T> T* as(const PQPtr& p)  { return dynamic_cast<T*>(p.get()); }
PDFCalculator* pdf(long k)  { return as<PDFCalculator>(calcs.at(k)); }
BaseDebyeSum* dsum(long k)  { return as<BaseDebyeSum>(calcs.at(k)); }
DebyePDFCalculator* debye(long k)  { return as<DebyePDFCalculator>(calcs.at(k)); }
PeakWidthModelOwner* wowner(const PQPtr& p)  { return as<PeakWidthModelOwner>(p); }
PDFEnvelopeOwner* eowner(const PQPtr& p)  { return as<PDFEnvelopeOwner>(p); }
ScatteringFactorTableOwner* sowner(const PQPtr& p)  { return as<ScatteringFactorTableOwner>(p); }

PQPtr make(const std::string& kd)
{
    if (kd == "pdf")  return PQPtr(new PDFCalculator);
    if (kd == "debye")  return PQPtr(new DebyePDFCalculator);
    if (kd == "sum")  return PQPtr(new BaseDebyeSum);
    if (kd == "overlap")  return PQPtr(new OverlapCalculator);
    if (kd == "bvs")  return PQPtr(new BVSCalculator);
    if (kd == "bond")  return PQPtr(new BondCalculator);
    return PQPtr(new PairQuantity);
}

// remember components of a new calculator
void collect(const PQPtr& q)
{
    if (wowner(q))  comps.push_back(comp(wowner(q)->getPeakWidthModel()));
    if (as<PDFCalculator>(q))
    {
        comps.push_back(comp(as<PDFCalculator>(q)->getPeakProfile()));
        comps.push_back(comp(as<PDFCalculator>(q)->getBaseline()));
    }
}
void collectEnv(const PQPtr& q, const std::vector<std::string>& order)
{
    for (auto& t : order)
    {
        if (eowner(q)->usedEnvelopeTypes().count(t))  comps.push_back(comp(eowner(q)->getEnvelopeByType(t)));
    }
}
void install(long k, const std::string& kd)
{
    calcs[k] = make(kd);
    kinds[k] = kd;
    collect(calcs[k]);
    if (eowner(calcs[k]))  collectEnv(calcs[k], {"scale", "qresolution"});
    if (sowner(calcs[k]))  sfts.push_back(sowner(calcs[k])->getScatteringFactorTable());
}

// number of an installed component
long idOf(const void* p)
{
    for (size_t k = comps.size(); k > 0; --k)
    {
        const Comp& c = comps[k - 1];
        if (p && (c.w.get() == p || c.p.get() == p || c.b.get() == p || c.e.get() == p))  return k;
    }
    return -1;
}

// values through the methods of the class
double getter(long k, const std::string& a)
{
    const PQPtr& q = calcs.at(k);
    if (PDFCalculator* c = pdf(k))
    {
        if (a == "qmin")  return c->getQmin();
        if (a == "qmax")  return c->getQmax();
        if (a == "qstep")  return c->getQstep();
        if (a == "rstep")  return c->getRstep();
        if (a == "maxextension")  return c->getMaxExtension();
        if (a == "extendedrmin")  return c->getExtendedRmin();
        if (a == "extendedrmax")  return c->getExtendedRmax();
    }
    if (DebyePDFCalculator* c = debye(k))
    {
        if (a == "qmin")  return c->getQmin();
        if (a == "qmax")  return c->getQmax();
        if (a == "qstep")  return c->getQstep();
        if (a == "rstep")  return c->getRstep();
        if (a == "maxextension")  return c->getMaxExtension();
        // without other access
        if (a == "extendedrmin" || a == "extendedrmax")  return c->getDoubleAttr(a);
    }
    if (BaseDebyeSum* c = dsum(k))
    {
        if (a == "qmin")  return c->getQmin();
        if (a == "qmax")  return c->getQmax();
        if (a == "qstep")  return c->getQstep();
        if (a == "debyeprecision")  return c->getDebyePrecision();
    }
    if (OverlapCalculator* c = as<OverlapCalculator>(q))
    {
        if (a == "rmaxused")  return c->getRmaxUsed();
    }
    if (BVSCalculator* c = as<BVSCalculator>(q))
    {
        if (a == "rmaxused")  return c->getRmaxUsed();
        if (a == "valenceprecision")  return c->getValencePrecision();
    }
    if (a == "rmin")  return q->getRmin();
    if (a == "rmax")  return q->getRmax();
    std::cerr << "driver: no getter " << a << "\n";
    std::_Exit(97);
}
std::vector<std::string> gettable(const std::string& kd)
{
    if (kd == "pdf")  return {"qmin", "qmax", "qstep", "rmin", "rmax", "rstep", "maxextension", "extendedrmin", "extendedrmax"};
    if (kd == "debye")  return {"debyeprecision", "qmin", "qmax", "qstep", "rmin", "rmax", "rstep", "maxextension", "extendedrmin", "extendedrmax"};
    if (kd == "sum")  return {"debyeprecision", "qmin", "qmax", "qstep", "rmin", "rmax"};
    if (kd == "overlap")  return {"rmin", "rmax", "rmaxused"};
    if (kd == "bvs")  return {"rmin", "rmax", "rmaxused", "valenceprecision"};
    return {"rmin", "rmax"};
}
void setter(long k, const std::string& a, double x)
{
    const PQPtr& q = calcs.at(k);
    if (PDFCalculator* c = pdf(k))
    {
        if (a == "qmin")  return c->setQmin(x);
        if (a == "qmax")  return c->setQmax(x);
        if (a == "rstep")  return c->setRstep(x);
        if (a == "maxextension")  return c->setMaxExtension(x);
    }
    if (DebyePDFCalculator* c = debye(k))
    {
        if (a == "qmin")  return c->setQmin(x);
        if (a == "qmax")  return c->setQmax(x);
        if (a == "qstep")  return c->setQstep(x);
        if (a == "rstep")  return c->setRstep(x);
        if (a == "maxextension")  return c->setMaxExtension(x);
    }
    if (BaseDebyeSum* c = dsum(k))
    {
        if (a == "qmin")  return c->setQmin(x);
        if (a == "qmax")  return c->setQmax(x);
        if (a == "qstep")  return c->setQstep(x);
        if (a == "debyeprecision")  return c->setDebyePrecision(x);
    }
    if (BVSCalculator* c = as<BVSCalculator>(q))
    {
        if (a == "valenceprecision")  return c->setValencePrecision(x);
    }
    if (a == "rmin")  return q->setRmin(x);
    if (a == "rmax")  return q->setRmax(x);
    std::cerr << "driver: no setter " << a << "\n";
    std::_Exit(97);
}
void compsetter(const Comp& c, const std::string& a, double x)
{
    if (auto* p = dynamic_cast<ConstantPeakWidth*>(c.w.get()))
    {
        if (a == "width")  return p->setWidth(x);
        return p->setDoubleAttr(a, x);
    }
    if (auto* p = dynamic_cast<JeongPeakWidth*>(c.w.get()))
    {
        if (a == "delta1")  return p->setDelta1(x);
        if (a == "delta2")  return p->setDelta2(x);
        if (a == "qbroad")  return p->setQbroad(x);
        if (a == "qbroad_seperable")  return p->setQbroad_seperable(x);
    }
    if (c.p && a == "peakprecision")  return c.p->setPrecision(x);
    if (auto* p = dynamic_cast<LinearBaseline*>(c.b.get()))  return p->setSlope(x);
    if (auto* p = dynamic_cast<ScaleEnvelope*>(c.e.get()))  return p->setScale(x);
    if (auto* p = dynamic_cast<QResolutionEnvelope*>(c.e.get()))  return p->setQdamp(x);
    if (auto* p = dynamic_cast<SphericalShapeEnvelope*>(c.e.get()))  return p->setSPDiameter(x);
    if (auto* p = dynamic_cast<StepCutEnvelope*>(c.e.get()))  return p->setStepCut(x);
    std::cerr << "driver: no setter of component " << a << "\n";
    std::_Exit(97);
}
J compattrs(const Comp& c)
{
    std::map<std::string, J> m;
    for (auto& a : c.attrs().namesOfDoubleAttributes())  m[a] = J(c.attrs().getDoubleAttr(a) * unit(a));
    return object(m);
}

J show(long k, const std::map<long, Ticker::value_type>& before)
{
    std::map<std::string, J> m;
    const PQPtr& q = calcs[k];
    if (!q)
    {
        m["kind"] = J("none");
        return object(m);
    }
    m["kind"] = J(kinds[k]);
    // an advance after all previous events
    Ticker::value_type t = q->ticker().value();
    bool later = true;
    for (auto& kt : before)  later = later && t > kt.second;
    long moved = before.count(k) && before.at(k) == t ? 0 : later ? 1 : 2;
    m["tick"] = J(moved);
    lasttick[k] = t;
    std::map<std::string, J> at, ge;
    std::set<std::string> names = q->namesOfDoubleAttributes();
    for (auto& a : names)  at[a] = J(q->getDoubleAttr(a) * unit(a));
    for (auto& a : gettable(kinds[k]))  ge[a] = J(getter(k, a) * unit(a));
    m["attrs"] = object(at);
    m["get"] = object(ge);
    m["names"] = strings(names);
    m["writable"] = strings(q->namesOfWritableDoubleAttributes());
    std::vector<std::string> has;
    for (auto& a : allnames)
    {
        if (q->hasDoubleAttr(a))  has.push_back(a);
    }
    m["has"] = strings(has);
    std::vector<J> env;
    if (eowner(q))
    {
        for (auto& t : eowner(q)->usedEnvelopeTypes())
        {
            const PDFEnvelopeOwner& o = *eowner(q);
            env.push_back(list({J(t), J(idOf(o.getEnvelopeByType(t).get()))}));
        }
    }
    m["env"] = list(env);
    m["types"] = strings(std::vector<std::string>{
            wowner(q) ? wowner(q)->getPeakWidthModel()->type() : "",
            pdf(k) ? pdf(k)->getPeakProfile()->type() : "",
            pdf(k) ? pdf(k)->getBaseline()->type() : "",
            sowner(q) ? sowner(q)->getScatteringFactorTable()->type() : "",
            sowner(q) ? sowner(q)->getRadiationType() : ""});
    m["optimum"] = J(debye(k) ? debye(k)->isOptimumQstep() : false);
    return object(m);
}

StructureAdapterPtr stru(long j)
{
    if (j == 0)  return StructureAdapterPtr();
    PeriodicStructureAdapterPtr per(new PeriodicStructureAdapter);
    AtomicStructureAdapterPtr rv = j == 1 || j == 5 ? AtomicStructureAdapterPtr(new AtomicStructureAdapter) : AtomicStructureAdapterPtr(per);
    auto add = [&](const std::string& sm, double x, double y, double z, double occ, double u)
    {
        Atom a;
        a.atomtype = sm;
        a.xyz_cartn = R3::Vector(x, y, z);
        a.occupancy = occ;
        a.uij_cartn = R3::identity() * u;
        rv->append(a);
    };
    if (j == 1)
    {
        add("C", 0, 0, 0, 1, 0.005);
        add("C", 1.5, 0, 0, 1, 0.005);
    }
    else if (j == 5)
    {
        add("C", 0, 0, 0, 1, -0.002);
        add("C", 1.5, 0, 0, 1, -0.001);
    }
    else if (j == 2)
    {
        per->setLatPar(4, 4, 4, 90, 90, 90);
        add("Ni", 0, 0, 0, 1, 0.003);
    }
    else
    {
        per->setLatPar(5, 4, 5, 90, 90, 90);
        add("C", 0, 0, 0, 1, 0.01);
        add("O", 2.5, 2, 2, 0.5, 0);
    }
    return rv;
}

template <class C> double badgrid(const QuantityType& g, double start, double step)
{
    double rv = 0;
    for (size_t i = 0; i < g.size(); ++i)  rv = std::max(rv, std::fabs(g[i] - (start + i * step)));
    return rv;
}

template <class C> void results(C* c, Obs& o)
{
    QuantityType r = c->getRgrid(), q = c->getQgrid(), f = c->getF();
    QuantityType g = c->getPDF(), rdf = c->getRDF(), rr = c->getRDFperR();
    long n = r.size();
    o.set("nr", n);
    o.set("nq", long(q.size()));
    o.set("nf", long(f.size()));
    o.set("rends", n ? list({J(r.front()), J(r.back())}) : list({}));
    o.set("lens", list({J(g.size()), J(rdf.size()), J(rr.size())}));
    o.set("badgrid", J(n ? badgrid<C>(r, r[0], c->getRstep()) : 0.0));
    o.set("badq", J(badgrid<C>(q, 0, c->getQstep())));
    // results without envelopes and baseline
    std::vector<PDFEnvelopePtr> envs;
    for (auto& t : c->usedEnvelopeTypes())  envs.push_back(c->getEnvelopeByType(t));
    c->clearEnvelopes();
    QuantityType base = c->getPDF(), zero;
    PDFCalculator* p = dynamic_cast<PDFCalculator*>(c);
    if (p)
    {
        PDFBaselinePtr b = p->getBaseline();
        p->setBaselineByType("zero");
        zero = p->getPDF();
        p->setBaseline(b);
    }
    for (auto& e : envs)  c->addEnvelope(e);
    std::vector<J> pts, exts;
    for (long m = 0; m < 5 && n; ++m)
    {
        size_t i = (m * n) / 5;
        auto at = [&](const QuantityType& v) { return i < v.size() ? J(v[i]) : J("missing"); };
        pts.push_back(list({at(r), at(g), at(base), p ? at(zero) : J("none"), at(rdf), at(rr)}));
    }
    o.set("pts", list(pts));
    long fext = 0;
    if (p)
    {
        exts = {J(p->getExtendedPDF().size()), J(p->getExtendedRDF().size()), J(p->getExtendedRDFperR().size()), J(p->getExtendedRgrid().size())};
        fext = p->getExtendedF().size();
    }
    o.set("exts", list(exts));
    o.set("fext", J(fext));
}

// whole functions in Q and r and their values at four indices
template <class C> void transformed(C* c, Obs& o)
{
    PDFCalculator* p = dynamic_cast<PDFCalculator*>(c);
    QuantityType f = c->getF(), g = c->getPDF(), rr = c->getRDFperR(), rdf = c->getRDF();
    QuantityType fx = p ? p->getExtendedF() : f, gx, pdfx;
    if (p)  gx = p->getExtendedRDFperR(), pdfx = p->getExtendedPDF();
    o.set("f", J(f));
    o.set("fx", J(fx));
    o.set("gx", J(gx));
    o.set("nr", long(g.size()));
    std::vector<J> fat, xat, gat;
    for (size_t m = 0; m < 4; ++m)
    {
        size_t i = (2 * m + 1) * fx.size() / 8;
        auto at = [&](const QuantityType& v) { return i < v.size() ? J(v[i]) : J("missing"); };
        fat.push_back(list({J(i), at(fx)}));
        i = (2 * m + 1) * gx.size() / 8;
        if (p)  xat.push_back(list({J(i), at(pdfx), at(gx)}));
        i = (2 * m + 1) * g.size() / 8;
        gat.push_back(list({J(i), at(g), at(rr), at(rdf)}));
    }
    o.set("fat", list(fat));
    o.set("xat", list(xat));
    o.set("gat", list(gat));
}

double difference(const QuantityType& x, const QuantityType& y)
{
    if (x.size() != y.size())  return 1e9;
    double top = 1, rv = 0;
    for (double a : y)  top = std::max(top, std::fabs(a));
    for (size_t i = 0; i < x.size(); ++i)  rv = std::max(rv, std::fabs(x[i] - y[i]));
    return rv < 1e-7 * top ? 0 : rv;
}
template <class C> double different(const C& x, const C& y)
{
    double rv = difference(x.getPDF(), y.getPDF());
    rv = std::max(rv, difference(x.getRDF(), y.getRDF()));
    rv = std::max(rv, difference(x.getF(), y.getF()));
    return std::max(rv, difference(x.value(), y.value()));
}

void reset()
{
    comps.clear();
    sfts.clear();
    calcs.clear();
    kinds.clear();
    lasttick.clear();
}

Comp fresh(const std::string& t)
{
    if (PeakWidthModel::isRegisteredType(t))  return comp(PeakWidthModel::createByType(t));
    if (PeakProfile::isRegisteredType(t))  return comp(PeakProfile::createByType(t));
    if (PDFBaseline::isRegisteredType(t))  return comp(PDFBaseline::createByType(t));
    return comp(PDFEnvelope::createByType(t));
}
template <class T> boost::shared_ptr<T> resaved(const boost::shared_ptr<T>& p)
{
    boost::shared_ptr<T> rv;
    diffpy::serialization_fromstring(rv, diffpy::serialization_tostring(p));
    return rv;
}
Comp copied(const Comp& c, bool save)
{
    if (c.w)  return comp(save ? resaved(c.w) : c.w->clone());
    if (c.p)  return comp(save ? resaved(c.p) : c.p->clone());
    if (c.b)  return comp(save ? resaved(c.b) : c.b->clone());
    return comp(save ? resaved(c.e) : c.e->clone());
}
Comp pick(long i)  { return i ? comps.at(i - 1) : Comp(); }

void handle(const std::string& op, Args& a, Obs& o)
{
    if (op == "nop")  return;
    if (op == "start")
    {
        allnames = a.ls();
        std::vector<std::string> ks = a.ls();
        for (size_t k = 0; k < ks.size(); ++k)  install(k + 1, ks[k]);
        return;
    }
    if (op == "compnew")
    {
        comps.push_back(fresh(a.s()));
        return;
    }
    if (op == "sfnew")
    {
        sfts.push_back(ScatteringFactorTable::createByType(a.s()));
        return;
    }
    if (op == "compclone" || op == "compsave")
    {
        comps.push_back(copied(pick(a.i()), op == "compsave"));
        o.set("comp", compattrs(comps.back()));
        return;
    }
    if (op == "compset" || op == "compattr")
    {
        Comp c = pick(a.i());
        std::string n = a.s();
        double x = a.i();
        x /= a.i();
        if (op == "compset")  compsetter(c, n, x);
        else  c.attrs().setDoubleAttr(n, x);
        o.set("comp", compattrs(c));
        return;
    }
    if (op == "sfset" || op == "sfreset")
    {
        ScatteringFactorTablePtr t = sfts.at(a.i() - 1);
        std::string sm = a.s();
        if (op == "sfreset")  t->resetCustom(sm);
        else  t->setCustomAs(sm, "C", a.i(), 0);
        return;
    }
    if (op == "widthval")
    {
        Comp c = pick(a.i());
        long j = a.i();
        double lo = a.i() / 1e3, hi = a.i() / 1e3;
        StructureAdapterPtr s = stru(j);
        BaseBondGeneratorPtr bnds = s->createBondGenerator();
        bnds->setRmin(0.1);
        bnds->setRmax(4.1);
        bnds->selectAnchorSite(0);
        bnds->rewind();
        if (bnds->finished())  std::_Exit(97);
        o.set("width", J(c.w->calculate(*bnds)));
        o.set("maxwidth", J(c.w->maxWidth(s, lo, hi)));
        return;
    }
    if (op == "profileval")
    {
        Comp c = pick(a.i());
        double x = a.i() / 1e3, w = a.i() / 1e3;
        o.set("value", J((*c.p)(x, w)));
        o.set("lo", J(c.p->xboundlo(w)));
        o.set("hi", J(c.p->xboundhi(w)));
        return;
    }
    if (op == "envval" || op == "baseval")
    {
        Comp c = pick(a.i());
        std::vector<J> v;
        for (long r : a.li())  v.push_back(J(op == "envval" ? (*c.e)(r / 1e3) : (*c.b)(r / 1e3)));
        o.set("values", list(v));
        return;
    }
    long k = a.i();
    if (op == "new")
    {
        install(k, a.s());
        return;
    }
    PQPtr q = calcs.at(k);
    if (op == "setter" || op == "setattr" || op == "getattr")
    {
        std::string n = a.s();
        double x = a.i();
        x /= a.i();
        if (op == "setter")  setter(k, n, x);
        else if (op == "setattr")  q->setDoubleAttr(n, x);
        else  o.set("value", J(q->getDoubleAttr(n) * unit(n)));
    }
    else if (op == "optimum")  debye(k)->setOptimumQstep();
    else if (op == "width")  wowner(q)->setPeakWidthModel(pick(a.i()).w);
    else if (op == "profile")  pdf(k)->setPeakProfile(pick(a.i()).p);
    else if (op == "baseline")  pdf(k)->setBaseline(pick(a.i()).b);
    else if (op == "addenv")  eowner(q)->addEnvelope(pick(a.i()).e);
    else if (op == "popenv")  eowner(q)->popEnvelope(pick(a.i()).e);
    else if (op == "popenvtype")  eowner(q)->popEnvelopeByType(a.s());
    else if (op == "clearenv")  eowner(q)->clearEnvelopes();
    else if (op == "getenv")  o.set("id", J(idOf(eowner(q)->getEnvelopeByType(a.s()).get())));
    else if (op == "sf")
    {
        long i = a.i();
        sowner(q)->setScatteringFactorTable(i ? sfts.at(i - 1) : ScatteringFactorTablePtr());
    }
    else if (op == "widthtype")
    {
        wowner(q)->setPeakWidthModelByType(a.s());
        comps.push_back(comp(wowner(q)->getPeakWidthModel()));
    }
    else if (op == "profiletype")
    {
        pdf(k)->setPeakProfileByType(a.s());
        comps.push_back(comp(pdf(k)->getPeakProfile()));
    }
    else if (op == "baselinetype")
    {
        pdf(k)->setBaselineByType(a.s());
        comps.push_back(comp(pdf(k)->getBaseline()));
    }
    else if (op == "addenvtype")
    {
        std::string t = a.s();
        eowner(q)->addEnvelopeByType(t);
        comps.push_back(comp(eowner(q)->getEnvelopeByType(t)));
    }
    else if (op == "sftype")
    {
        sowner(q)->setScatteringFactorTableByType(a.s());
        sfts.push_back(sowner(q)->getScatteringFactorTable());
    }
    else if (op == "copy")
    {
        long j = a.i();
        PQPtr n = resaved(q);
        o.set("sameticker", J(n->ticker() == q->ticker()));
        calcs[j] = n;
        kinds[j] = kinds[k];
        collect(n);
        if (eowner(n))  collectEnv(n, {"qresolution", "scale", "sphericalshape", "stepcut"});
        if (sowner(n))  sfts.push_back(sowner(n)->getScatteringFactorTable());
    }
    else if (op == "maskall")  q->maskAllPairs(a.b());
    else if (op == "pairmask")
    {
        long x = a.i(), y = a.i();
        q->setPairMask(x, y, a.b());
    }
    else if (op == "typemask")
    {
        std::string x = a.s(), y = a.s();
        q->setTypeMask(x, y, a.b());
    }
    else if (op == "cone")  as<BondCalculator>(q)->filterCone(R3::Vector(1, 0, 0), 30);
    else if (op == "badcone")  as<BondCalculator>(q)->filterCone(R3::Vector(0, 0, 0), 30);
    else if (op == "badevaluator")  q->setEvaluatorType(PQEvaluatorType(99));
    else if (op == "badcpu")  q->setupParallelRun(0, 0);
    else if (op == "coneoff")  as<BondCalculator>(q)->filterOff();
    else if (op == "apply")
    {
        QuantityType x, y;
        for (long r : a.li())
        {
            x.push_back(r / 1e3);
            y.push_back(x.size());
        }
        std::vector<J> e, b;
        for (double z : eowner(q)->applyEnvelopes(x, y))  e.push_back(J(z));
        if (pdf(k))
        {
            for (double z : pdf(k)->applyBaseline(x, y))  b.push_back(J(z));
        }
        o.set("env", list(e));
        o.set("base", list(b));
    }
    else if (op == "eval")
    {
        StructureAdapterPtr s = stru(a.i());
        q->eval(s);
        // the same without any previous results
        PQPtr basic = resaved(q);
        basic->setEvaluatorType(BASIC);
        basic->eval(s);
        o.set("stale", J(pdf(k) ? different(*pdf(k), dynamic_cast<PDFCalculator&>(*basic)) : different(*debye(k), dynamic_cast<DebyePDFCalculator&>(*basic))));
        if (pdf(k))  results(pdf(k), o);
        else  results(debye(k), o);
    }
    else if (op == "transform")
    {
        if (pdf(k))  transformed(pdf(k), o);
        else  transformed(debye(k), o);
    }
    else  VERIF_UNKNOWN_OP(op);
}

// relation of all tickers
std::vector<long> order()
{
    std::vector<long> rv;
    for (auto& x : calcs)
    {
        for (auto& y : calcs)  rv.push_back((x.second->ticker() < y.second->ticker()) - (x.second->ticker() > y.second->ticker()));
    }
    return rv;
}

std::string save(Args& a)
{
    bool first = a.b();
    std::ostringstream rv;
    std::vector<long> w = order();
    std::vector<std::string> names = allnames;
    {
        diffpy::serialization::oarchive ar(rv, boost::archive::no_header);
        ar << names << kinds << w << first;
        if (first)  ar << calcs;
        ar << comps << sfts;
        if (!first)  ar << calcs;
    }
    return rv.str();
}
void load(const std::string& s, Obs& o)
{
    std::istringstream in(s);
    diffpy::serialization::iarchive ar(in, boost::archive::no_header);
    std::vector<long> w;
    bool first;
    ar >> allnames >> kinds >> w >> first;
    if (first)  ar >> calcs;
    ar >> comps >> sfts;
    if (!first)  ar >> calcs;
    o.set("sameorder", J(order() == w));
}

void observe(Obs& o)
{
    std::map<long, Ticker::value_type> before = lasttick;
    std::vector<J> v;
    for (auto& kv : calcs)  v.push_back(show(kv.first, before));
    o.set("calcs", list(v));
}

}   // namespace

int main()
{
    return drive(reset, handle, observe, save, load);
}
