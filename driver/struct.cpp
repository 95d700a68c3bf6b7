// Conformance driver for Struct.tla
#include "geom.hpp"
#include <diffpy/srreal/NoMetaStructureAdapter.hpp>
#include <diffpy/srreal/NoSymmetryStructureAdapter.hpp>
#include <diffpy/srreal/StructureDifference.hpp>
#include <diffpy/srreal/PairCounter.hpp>

using namespace verif;
typedef std::vector<long> Row;
typedef std::vector<Row> Table;

namespace {

// structures that customize calculators
const PairQuantity* customized = nullptr;
template <class B> class Custom : public B
{
    public:
        Custom() { }
        explicit Custom(const B& b) : B(b) { }
        virtual StructureAdapterPtr clone() const  { return StructureAdapterPtr(new Custom(*this)); }
        virtual void customPQConfig(PairQuantity* pq) const  { customized = pq; }
};

struct Slot
{
    StructureAdapterPtr h;
    boost::shared_ptr<Geom> g;   // metric of the base, null for the empty structure
};
std::map<long, Slot> slots;

StructureAdapterPtr unwrap(StructureAdapterPtr p)
{
    while (true)
    {
        if (auto w = boost::dynamic_pointer_cast<NoMetaStructureAdapter>(p))  p = w->getSourceStructure();
        else if (auto w = boost::dynamic_pointer_cast<NoSymmetryStructureAdapter>(p))  p = w->getSourceStructure();
        else  return p;
    }
}

Slot copied(const Slot& s, StructureAdapterPtr h)
{
    Slot rv;
    rv.h = h;
    if (!s.g)  return rv;
    rv.g.reset(new Geom);
    rv.g->m = s.g->m;
    rv.g->s = boost::dynamic_pointer_cast<AtomicStructureAdapter>(unwrap(h));
    if (rv.g->per())  rv.g->m.lattice = &rv.g->per()->getLattice();
    return rv;
}

// steps and jitter of a position
Row place(const Metric& m, const R3::Vector& x)
{
    R3::Vector y = m.steps(x);
    Row p, j;
    for (int i = 0; i < 3; ++i)
    {
        double r = std::floor(y[i] + 0.5);
        p.push_back(long(r));
        j.push_back(toint((y[i] - r) / JITTER, 1e-3));
    }
    p.insert(p.end(), j.begin(), j.end());
    return p;
}

void data(const Slot& s, Obs& o)
{
    std::vector<std::string> t;
    Row m, occ;
    std::vector<bool> an;
    Table p, u;
    Metric plain;
    const Metric& q = s.g ? s.g->m : plain;
    const StructureAdapter& h = *s.h;
    for (int i = 0; i < h.countSites(); ++i)
    {
        t.push_back(h.siteAtomType(i));
        m.push_back(h.siteMultiplicity(i));
        occ.push_back(toint(4 * h.siteOccupancy(i)));
        an.push_back(h.siteAnisotropy(i));
        p.push_back(place(q, h.siteCartesianPosition(i)));
        u.push_back(q.usteps(h.siteCartesianUij(i)));
    }
    o.set("n", h.countSites());
    o.set("t", t);
    o.set("m", m);
    o.set("occ", occ);
    std::string b = "[";
    for (size_t i = 0; i < an.size(); ++i)  b += std::string(i ? "," : "") + (an[i] ? "true" : "false");
    J jan;
    jan.t = b + "]";
    o.set("an", jan);
    o.set("p", p);
    o.set("u", u);
}

void reportdiff(const StructureDifference& d, const StructureAdapterConstPtr& s0, const StructureAdapterConstPtr& s1,
        const Slot* g0, const Slot* g1, Obs& o)
{
    bool ok = d.stru0 == s0 && d.stru1 == s1;
    auto lst = [&](const SiteIndices& v, const StructureAdapterConstPtr& s) {
        Row r(v.begin(), v.end());
        for (size_t i = 0; i < r.size(); ++i)
        {
            if (i && r[i] <= r[i - 1])  ok = false;
            if (r[i] < 0 || !s || r[i] >= s->countSites())  ok = false;
        }
        return r;
    };
    Row pop = lst(d.pop0, s0), add = lst(d.add1, s1);
    o.set("method", int(d.diffmethod));
    o.set("pop", pop);
    o.set("add", add);
    auto bag = [&](const Row& idx, const Slot* s) {
        std::string rv = "[";
        if (ok && s && s->g) for (size_t k = 0; k < idx.size(); ++k)
        {
            long i = idx[k];
            const StructureAdapter& h = *s->h;
            std::string e = "[" + J(h.siteAtomType(i)).t;
            for (long x : place(s->g->m, h.siteCartesianPosition(i)))  e += "," + std::to_string(x);
            e += "," + std::to_string(toint(4 * h.siteOccupancy(i)));
            e += h.siteAnisotropy(i) ? ",1" : ",0";
            for (long x : s->g->m.usteps(h.siteCartesianUij(i)))  e += "," + std::to_string(x);
            rv += (k ? "," : "") + e + "]";
        }
        J j;
        j.t = rv + "]";
        return j;
    };
    o.set("popbag", bag(pop, g0));
    o.set("addbag", bag(add, g1));
    o.set("ok", ok);
}

void handle(const std::string& op, Args& a, Obs& o)
{
    if (op == "nop")  return;
    long k = a.i();
    Slot& s = slots[k];
    if (op == "new")
    {
        bool custom = a.b();
        Slot n;
        n.g.reset(new Geom);
        n.g->read(a);
        Row flip = a.li();
        for (size_t i = 0; i < flip.size(); ++i)  if (flip[i])  (*n.g->s)[i].anisotropy = !(*n.g->s)[i].anisotropy;
        if (custom)
        {
            Geom& g = *n.g;
            if (g.crys())  g.s.reset(new Custom<CrystalStructureAdapter>(*g.crys()));
            else if (g.per())  g.s.reset(new Custom<PeriodicStructureAdapter>(*g.per()));
            else  g.s.reset(new Custom<AtomicStructureAdapter>(*g.s));
            if (g.per())  g.m.lattice = &g.per()->getLattice();
        }
        n.h = n.g->s;
        s = n;
        data(s, o);
    }
    else if (op == "wrap")
    {
        Slot src = slots.at(a.i());
        std::string w = a.s(), how = a.s();
        Slot n;
        n.g = src.g;
        if (w == "nometa")  n.h = how == "fun" ? nometa(src.h) : StructureAdapterPtr(new NoMetaStructureAdapter(src.h));
        else  n.h = how == "fun" ? nosymmetry(src.h) : StructureAdapterPtr(new NoSymmetryStructureAdapter(src.h));
        s = n;
        data(s, o);
    }
    else if (op == "wrapnull")
    {
        std::string w = a.s(), how = a.s();
        Slot n;
        StructureAdapterPtr p;
        if (w == "nometa")  n.h = how == "fun" ? nometa(p) : StructureAdapterPtr(new NoMetaStructureAdapter(p));
        else  n.h = how == "fun" ? nosymmetry(p) : StructureAdapterPtr(new NoSymmetryStructureAdapter(p));
        s = n;
        data(s, o);
    }
    else if (op == "empty")
    {
        Slot n;
        n.h = emptyStructureAdapter();
        s = n;
        data(s, o);
    }
    else if (op == "share")
    {
        Slot n = slots.at(a.i());
        s = n;
        data(s, o);
    }
    else if (op == "clone" || op == "save")
    {
        Slot src = slots.at(a.i());
        StructureAdapterPtr h;
        if (op == "clone")  h = src.h->clone();
        else
        {
            StructureAdapterPtr q = src.h;
            diffpy::serialization_fromstring(h, diffpy::serialization_tostring(q));
        }
        s = copied(src, h);
        data(s, o);
    }
    else if (op == "data")  data(s, o);
    else if (op == "totals")
    {
        o.set("occ", toint(4 * s.h->totalOccupancy()));
        o.set("density", s.h->numberDensity());
        o.set("maxuii", toint(maxUii(s.h)));
    }
    else if (op == "types")
    {
        Row idx = a.li();
        std::vector<int> v(idx.begin(), idx.end());
        o.set("t", siteIndicesToTypes(s.h, v));
    }
    else if (op == "bonds")
    {
        long i = a.i(), lo = a.i(), hi = a.i();
        BaseBondGeneratorPtr gen = s.h->createBondGenerator();
        gen->setRmin(radius(lo));
        gen->setRmax(radius(hi));
        gen->selectAnchorSite(i);
        Table t;
        for (gen->rewind(); !gen->finished(); gen->next())
        {
            Row e{gen->site1() + 1};
            R3::Vector d = s.g->m.steps(gen->r01());
            for (long x : Geom::ints(d))  e.push_back(x);
            t.push_back(e);
        }
        o.set("bonds", counted(t));
        o.set("mult", gen->multiplicity());
    }
    else if (op == "config")
    {
        std::string how = a.s();
        PairCounter pc;
        pc.setRmax(2.0);
        customized = nullptr;
        if (how == "direct")  s.h->customPQConfig(&pc);
        else if (how == "set")  pc.setStructure(s.h);
        else  pc.eval(s.h);
        o.set("called", customized == &pc);
        if (customized && customized != &pc)  o.set("called", "other");
    }
    else if (op == "eq")
    {
        Slot& z = slots.at(a.i());
        bool eq, ne;
        if (s.g->crys())  eq = *s.g->crys() == *z.g->crys(), ne = *s.g->crys() != *z.g->crys();
        else if (s.g->per())  eq = *s.g->per() == *z.g->per(), ne = *s.g->per() != *z.g->per();
        else  eq = *s.g->s == *z.g->s, ne = *s.g->s != *z.g->s;
        if (eq == ne)  o.set("eq", "contradiction");
        else  o.set("eq", eq);
    }
    else if (op == "frac")
    {
        long i = a.i();
        Atom x = (*s.g->s)[i];
        s.g->per()->toFractional(x);
        o.set("x", std::vector<double>{x.xyz_cartn[0], x.xyz_cartn[1], x.xyz_cartn[2]});
        o.set("an", x.anisotropy);
        o.set("u", std::vector<double>{x.uij_cartn(0, 0), x.uij_cartn(1, 1), x.uij_cartn(2, 2), x.uij_cartn(0, 1), x.uij_cartn(0, 2), x.uij_cartn(1, 2)});
        s.g->per()->toCartesian(x);
        const Atom& y = (*s.g->s)[i];
        bool back = x.atomtype == y.atomtype && x.occupancy == y.occupancy && x.anisotropy == y.anisotropy;
        for (int p = 0; p < 3; ++p)
        {
            if (std::fabs(x.xyz_cartn[p] - y.xyz_cartn[p]) > 1e-8)  back = false;
            for (int q = 0; q < 3; ++q)  if (std::fabs(x.uij_cartn(p, q) - y.uij_cartn(p, q)) > 1e-8)  back = false;
        }
        o.set("back", back);
    }
    else if (op == "diff")
    {
        Slot& z = slots.at(a.i());
        reportdiff(s.h->diff(z.h), s.h, z.h, &s, &z, o);
    }
    else if (op == "diffnull")
    {
        long w = a.i();
        StructureAdapterConstPtr none;
        if (w == 1)  reportdiff(s.h->diff(none), s.h, none, &s, nullptr, o);
        else if (w == 2)  reportdiff(StructureDifference(none, s.h), none, s.h, nullptr, &s, o);
        else  reportdiff(StructureDifference(), none, none, nullptr, nullptr, o);
    }
    else
    {
        // edits of the base, iterators returned by the container are at the edited place
        o.set("it", "");
        Geom& g = *s.g;
        AtomicStructureAdapter& x = *g.s;
        if (op == "append")  x.append(g.atom(a));
        else if (op == "insert" || op == "insertit")
        {
            long i = a.i();
            Atom y = g.atom(a);
            auto it = op == "insert" ? x.insert(int(i), y) : x.insert(x.begin() + i, y);
            if (it - x.begin() != i)  o.set("it", "wrong");
        }
        else if (op == "insertrange")
        {
            long i = a.i(), j = a.i(), f = a.i(), e = a.i();
            AtomicStructureAdapter& z = *slots.at(j).g->s;
            std::vector<Atom> v(z.begin() + f, z.begin() + e);
            x.insert(x.begin() + i, v.begin(), v.end());
        }
        else if (op == "erase" || op == "eraseit")
        {
            long i = a.i();
            auto it = op == "erase" ? x.erase(int(i)) : x.erase(x.begin() + i);
            if (it - x.begin() != i)  o.set("it", "wrong");
        }
        else if (op == "eraserange")  { long i = a.i(); long j = a.i(); auto it = x.erase(x.begin() + i, x.begin() + j); if (it - x.begin() != i)  o.set("it", "wrong"); }
        else if (op == "clear")  x.clear();
        else if (op == "reserve")  x.reserve(a.i());
        else if (op == "pick")
        {
            std::vector<Atom> v;
            for (long i : a.li())  v.push_back(x[i]);
            x.assign(v.begin(), v.end());
        }
        else if (op == "assignfrom")
        {
            AtomicStructureAdapter& z = *slots.at(a.i()).g->s;
            std::vector<Atom> v(z.begin(), z.end());
            x.assign(v.begin(), v.end());
        }
        else if (op == "assignn")  { long n = a.i(); x.assign(size_t(n), g.atom(a)); }
        else if (op == "atom")  { long i = a.i(); x[i] = g.atom(a); }
        else if (op == "atomref")  { long i = a.i(); x.at(i) = g.atom(a); }
        else if (op == "swap")  { long i = a.i(); long j = a.i(); std::swap(x[i], x[j]); }
        else if (op == "copyatom")  { long i = a.i(); long j = a.i(); x[i] = x[j]; }
        else if (op == "flag")  { Atom& y = x[a.i()]; y.anisotropy = !y.anisotropy; }
        else if (op == "field")
        {
            Atom& y = *(x.begin() + a.i());
            y.atomtype = a.s();
            y.occupancy = a.i() * 0.25;
        }
        else if (op == "setops")
        {
            Row v = a.li();
            g.crys()->clearSymOps();
            for (size_t n = 0; n < v.size(); n += 12)  g.addop(v, n);
        }
        else if (op == "addop")  g.addop(a.li());
        else if (op == "precision")  g.tight(a.b());
        else if (op == "cell")  { g.m.D = a.li(); g.setcell(); }
        else  VERIF_UNKNOWN_OP(op);
        if (x.size() != size_t(x.countSites()) || long(x.end() - x.begin()) != x.countSites() || long(x.rend() - x.rbegin()) != x.countSites())
            o.set("n", "inconsistent");
        data(s, o);
    }
}

}   // namespace

int main()
{
    return drive([]() { slots.clear(); for (int k = 1; k < 9; ++k)  slots[k].h = emptyStructureAdapter(); }, handle);
}
