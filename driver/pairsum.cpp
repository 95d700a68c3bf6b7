// Conformance driver for PairSum.tla: probe calculators that sum integer
// weights of pairs, evaluated through the public PairQuantity interface.
#include "common.hpp"
#include <diffpy/serialization.ipp>
#include <diffpy/srreal/PairQuantity.hpp>
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/BaseBondGenerator.hpp>
#include <boost/serialization/export.hpp>
#include <boost/serialization/vector.hpp>
#include <boost/serialization/string.hpp>

using namespace verif;
using namespace diffpy::srreal;

static int weight(const std::string& t)
{
    return t == "A" ? 2 : t == "B" ? 3 : t == "c" ? 7 : 11;
}
static const char* TYPES[] = {"", "A", "B", "c", "D"};

// Metadata of a structure: configuration override and failures
struct Meta
{
    int ov = 0;
    int bad = 0;
    template <class A> void serialize(A& ar, const unsigned int)  { ar & ov & bad; }
    void custom(PairQuantity* pq) const
    {
        if (bad == 1)  throw std::runtime_error("customization failed");
        if (ov)  pq->setRmax(std::sqrt(ov + 0.5));
    }
    void gen() const
    {
        if (bad == 2)  throw std::runtime_error("no bonds");
    }
};

class PAtomic : public AtomicStructureAdapter
{
    public:
        Meta meta;
        StructureAdapterPtr clone() const  { return StructureAdapterPtr(new PAtomic(*this)); }
        void customPQConfig(PairQuantity* pq) const  { meta.custom(pq); }
        BaseBondGeneratorPtr createBondGenerator() const
        {
            meta.gen();
            return this->AtomicStructureAdapter::createBondGenerator();
        }
        template <class A> void serialize(A& ar, const unsigned int)
        {
            ar & boost::serialization::base_object<AtomicStructureAdapter>(*this);
            ar & meta;
        }
};

class PPeriodic : public PeriodicStructureAdapter
{
    public:
        Meta meta;
        StructureAdapterPtr clone() const  { return StructureAdapterPtr(new PPeriodic(*this)); }
        void customPQConfig(PairQuantity* pq) const  { meta.custom(pq); }
        BaseBondGeneratorPtr createBondGenerator() const
        {
            meta.gen();
            return this->PeriodicStructureAdapter::createBondGenerator();
        }
        template <class A> void serialize(A& ar, const unsigned int)
        {
            ar & boost::serialization::base_object<PeriodicStructureAdapter>(*this);
            ar & meta;
        }
};

const int ND = 160;

// mode H: half sum, F: full sum, G: full sum resolved by the first site
class Probe : public PairQuantity
{
    public:
        Probe(char m = 'H') : mode(m)
        {
            if (mode != 'H')  mevaluator->setFlag(USEFULLSUM, true);
            if (mode == 'G')  mevaluator->setFlag(FIXEDSITEINDEX, true);
            if (mode != 'G')  this->resizeValue(ND);
        }
        char mode;
        std::vector<int> w;
        QuantityType stashed;
    protected:
        void resetValue()
        {
            w.clear();
            int n = this->countSites();
            for (int i = 0; i < n; ++i)  w.push_back(weight(mstructure->siteAtomType(i)));
            if (mode == 'G')  this->resizeValue(n * ND);
            this->PairQuantity::resetValue();
        }
        void addPairContribution(const BaseBondGenerator& bnds, int scale)
        {
            double d = bnds.distance();
            long d2 = toint(d * d, 1e-4);
            int i = bnds.site0(), j = bnds.site1();
            if (d2 < 0 || d2 >= ND)  d2 = 0;
            if (mode == 'G')  mvalue.at(i * ND + d2) += scale * w.at(j);
            else  mvalue.at(d2) += scale * w.at(i) * w.at(j);
        }
        void stashPartialValue()  { stashed = mvalue; }
        void restorePartialValue()
        {
            if (mode == 'G')
            {
                QuantityType v = stashed;
                v.resize(mvalue.size(), 0.0);
                mvalue = v;
            }
            else  mvalue = stashed;
            stashed.clear();
        }
    public:
        template <class A> void serialize(A& ar, const unsigned int)
        {
            ar & boost::serialization::base_object<PairQuantity>(*this);
            ar & mode & w;
        }
};

BOOST_CLASS_EXPORT(PAtomic)
BOOST_CLASS_EXPORT(PPeriodic)
BOOST_CLASS_EXPORT(Probe)

typedef boost::shared_ptr<PairQuantity> PQPtr;

static PQPtr roundtrip(PQPtr pq)
{
    PQPtr rv;
    diffpy::serialization_fromstring(rv, diffpy::serialization_tostring(pq));
    return rv;
}

static std::map<long, StructureAdapterPtr> slots;
static PQPtr calc;
static char ctype;
static std::vector<PQPtr> workers;

static AtomicStructureAdapter& at(long k)
{
    return dynamic_cast<AtomicStructureAdapter&>(*slots.at(k));
}
static Meta& meta(long k)
{
    PAtomic* pa = dynamic_cast<PAtomic*>(slots.at(k).get());
    return pa ? pa->meta : dynamic_cast<PPeriodic&>(*slots.at(k)).meta;
}
static Atom mkatom(Args& a)
{
    Atom rv;
    rv.atomtype = TYPES[a.i()];
    for (int i = 0; i < 3; ++i)  rv.xyz_cartn[i] = a.i();
    return rv;
}
static std::vector<Atom> mkatoms(const std::vector<long>& v)
{
    std::vector<Atom> rv;
    for (size_t i = 0; i + 3 < v.size(); i += 4)
    {
        Atom x;
        x.atomtype = TYPES[v[i]];
        for (int q = 0; q < 3; ++q)  x.xyz_cartn[q] = v[i + 1 + q];
        rv.push_back(x);
    }
    return rv;
}
static void cell(StructureAdapterPtr s, const std::vector<long>& c)
{
    PPeriodic* pp = dynamic_cast<PPeriodic*>(s.get());
    if (pp)  pp->setLatPar(c[0], c[1], c[2], 90, 90, 90);
}

static J value(const QuantityType& v)
{
    std::vector< std::vector<long> > rv;
    if (ctype == 'C')
    {
        // counts of bonds in both directions
        std::vector<long> x;
        for (double q : v)  x.push_back(toint(2 * q));
        return J(x);
    }
    for (size_t k = 0; k < v.size(); ++k)
    {
        if (v[k] == 0.0)  continue;
        if (ctype == 'G')  rv.push_back({long(k / ND) + 1, long(k % ND), toint(v[k])});
        else  rv.push_back({long(k), toint(v[k])});
    }
    return J(rv);
}
static double radius(long n)  { return n < 0 ? 0.0 : std::sqrt(n + 0.5); }
static PQEvaluatorType evtype(const std::string& s)
{
    return s == "BASIC" ? BASIC : s == "OPTIMIZED" ? OPTIMIZED : CHECK;
}
static long maxi = 0;

static void each(std::function<void(PairQuantity&)> f)
{
    f(*calc);
    for (auto& w : workers)  f(*w);
}

static void handle(const std::string& op, Args& a, Obs& o)
{
    if (op == "calc")
    {
        ctype = a.s()[0];
        if (ctype == 'C')  calc.reset(new PairCounter);
        else  calc.reset(new Probe(ctype));
        calc->setEvaluatorType(evtype(a.s()));
        calc->setRmax(radius(a.i()));
    }
    else if (op == "new")
    {
        long k = a.i();
        std::string kind = a.s();
        std::vector<long> c = a.li();
        std::vector<Atom> atoms = mkatoms(a.li());
        StructureAdapterPtr s;
        if (kind == "atom")  s.reset(new PAtomic);
        else  s.reset(new PPeriodic);
        slots[k] = s;
        cell(s, c);
        for (auto& x : atoms)  at(k).append(x);
        meta(k).ov = a.i();
        meta(k).bad = a.i();
    }
    else if (op == "nop")  { }
    else if (op == "atom")  { long k = a.i(); long i = a.i(); at(k)[i] = mkatom(a); }
    else if (op == "typ")  { long k = a.i(); long i = a.i(); at(k)[i].atomtype = TYPES[a.i()]; }
    else if (op == "erase")  { long k = a.i(); at(k).erase(int(a.i())); }
    else if (op == "insert")  { long k = a.i(); long i = a.i(); at(k).insert(int(i), mkatom(a)); }
    else if (op == "append")  { long k = a.i(); at(k).append(mkatom(a)); }
    else if (op == "swap")  { long k = a.i(); long i = a.i(); long j = a.i(); std::swap(at(k)[i], at(k)[j]); }
    else if (op == "assign")  { long k = a.i(); std::vector<Atom> v = mkatoms(a.li()); at(k).assign(v.begin(), v.end()); }
    else if (op == "clear")  at(a.i()).clear();
    else if (op == "cell")  { long k = a.i(); cell(slots.at(k), a.li()); }
    else if (op == "override")  { long k = a.i(); meta(k).ov = a.i(); }
    else if (op == "bad")  { long k = a.i(); meta(k).bad = a.i(); }
    else if (op == "rmin")  { double r = radius(a.i()); each([=](PairQuantity& p) { p.setRmin(r); }); }
    else if (op == "rmax")  { double r = radius(a.i()); each([=](PairQuantity& p) { p.setRmax(r); }); }
    else if (op == "evaluator")
    {
        PQEvaluatorType t = evtype(a.s());
        each([=](PairQuantity& p) { p.setEvaluatorType(t); });
    }
    else if (op == "maskall")  { bool v = a.b(); each([=](PairQuantity& p) { p.maskAllPairs(v); }); }
    else if (op == "invert")  each([=](PairQuantity& p) { p.invertMask(); });
    else if (op == "pairmask")
    {
        long i = a.i(), j = a.i();
        bool v = a.b();
        each([=](PairQuantity& p) { p.setPairMask(i, j, v); });
    }
    else if (op == "typemask")
    {
        std::string s = a.s(), t = a.s();
        bool v = a.b();
        each([=](PairQuantity& p) { p.setTypeMask(s, t, v); });
    }
    else if (op == "eval")
    {
        StructureAdapterPtr s = slots.at(a.i());
        // workers see the customization as well
        for (auto& w : workers)  { try { w->setStructure(s); } catch (std::exception&) { } }
        o.set("value", value(calc->eval(s)));
    }
    else if (op == "evalsame")
    {
        for (auto& w : workers)  { try { w->setStructure(calc->getStructure()); } catch (std::exception&) { } }
        o.set("value", value(calc->eval()));
    }
    else if (op == "absorb")
    {
        for (auto& w : workers)  { try { w->setStructure(calc->getStructure()); } catch (std::exception&) { } }
        QuantityType v = calc->eval();
        o.set("value", value(v));
        calc->mergeParallelData(calc->getParallelData(), 1);
        bool doubled = v.size() == calc->value().size();
        for (size_t i = 0; doubled && i < v.size(); ++i)  doubled = (calc->value()[i] == 2 * v[i]);
        o.set("doubled", doubled);
    }
    else if (op == "setstru")
    {
        StructureAdapterPtr s = slots.at(a.i());
        for (auto& w : workers)  { try { w->setStructure(s); } catch (std::exception&) { } }
        calc->setStructure(s);
        o.set("value", value(calc->value()));
    }
    else if (op == "share")  { long i = a.i(); calc->setupParallelRun(i, a.i()); }
    else if (op == "workers")
    {
        long n = a.i();
        workers.clear();
        for (long k = 0; k < n; ++k)
        {
            workers.push_back(roundtrip(calc));
            workers.back()->setupParallelRun(k, n);
        }
    }
    else if (op == "merge")
    {
        StructureAdapterPtr s = slots.at(a.i());
        long rot = a.i();
        bool rev = a.b(), bad = a.b();
        long sv = a.i();
        bool svw = a.b();
        int n = workers.size();
        std::vector<std::string> shares;
        for (auto& w : workers)
        {
            if (bad)
            {
                bool refused = false;
                try { w->setupParallelRun(3, 0); }
                catch (std::invalid_argument&) { refused = true; }
                if (!refused)  throw std::runtime_error("share of no CPU was not refused");
            }
            w->eval(s);
            if (svw)  w = roundtrip(w);
            shares.push_back(w->getParallelData());
        }
        calc->setStructure(s);
        bool badsize = true;
        for (int q = 0; q < n; ++q)
        {
            int k = (rev ? (2 * n - q + rot) : (q + rot)) % n;
            if (sv == q)  calc = roundtrip(calc);
            if (bad && q == n / 2)
            {
                badsize = false;
                Probe other('H');
                struct S : public Probe { void grow() { this->resizeValue(7777); } } sized;
                sized.grow();
                try { calc->mergeParallelData(sized.getParallelData(), n); }
                catch (std::invalid_argument&) { badsize = true; }
            }
            calc->mergeParallelData(shares[k], n);
        }
        bool surplus = false;
        try { calc->mergeParallelData(shares[0], n); }
        catch (std::runtime_error&) { surplus = true; }
        o.set("surplus", surplus);
        o.set("badsize", badsize);
        o.set("value", value(calc->value()));
    }
    else if (op == "save")
    {
        calc = roundtrip(calc);
        for (auto& w : workers)  w = roundtrip(w);
    }
    else if (op == "badevaluator")  calc->setEvaluatorType(PQEvaluatorType(99));
    else if (op == "badcpu")  calc->setupParallelRun(0, 0);
    else if (op == "badmerge")
    {
        struct S : public Probe { void grow() { this->resizeValue(7777); } } sized;
        sized.grow();
        calc->mergeParallelData(sized.getParallelData(), 100);
    }
    else  VERIF_UNKNOWN_OP(op);
}

static void observe(Obs& o)
{
    std::vector<bool> pm, tm;
    for (long i = 0; i <= maxi; ++i)
        for (long j = i; j <= maxi; ++j)
        {
            bool m = calc->getPairMask(i, j);
            if (m != calc->getPairMask(j, i))  o.set("asymmetric", true);
            pm.push_back(m);
        }
    for (std::string s : {"A", "B", "c", "all"})  for (std::string t : {"A", "B", "c", "all"})
        tm.push_back(calc->getTypeMask(s, t));
    o.set("pm", pm);
    o.set("tm", tm);
    PQEvaluatorType t = calc->getEvaluatorType();
    o.set("evt", t == BASIC ? "BASIC" : t == OPTIMIZED ? "OPTIMIZED" : "CHECK");
}

// Structures and the calculator, which refers to one of them, go in one archive.
static std::string save(Args& a)
{
    bool first = a.b();
    std::ostringstream out;
    {
        diffpy::serialization::oarchive ar(out, boost::archive::no_header);
        ar << ctype << maxi << first;
        if (first)  ar << calc << workers;
        long n = slots.size();
        ar << n;
        for (auto& kv : slots)  ar << kv.first << kv.second;
        if (!first)  ar << calc << workers;
    }
    return out.str();
}
static void load(const std::string& archive, Obs&)
{
    std::istringstream in(archive);
    diffpy::serialization::iarchive ar(in, boost::archive::no_header);
    bool first;
    long n;
    ar >> ctype >> maxi >> first;
    if (first)  ar >> calc >> workers;
    ar >> n;
    while (n--)
    {
        long k;
        ar >> k;
        ar >> slots[k];
    }
    if (!first)  ar >> calc >> workers;
}

int main(int argc, char* argv[])
{
    maxi = argc > 1 ? atol(argv[1]) : 7;
    return drive([]() { calc.reset(new Probe('H')); ctype = 'H'; slots.clear(); workers.clear();
            for (int k = 0; k < 5; ++k)  slots[k].reset(new PAtomic); }, handle, observe, save, load);
}
