// Operations of Bonds.tla: symmetry expansion and bond generators
#ifndef VERIF_BONDOPS_HPP_INCLUDED
#define VERIF_BONDOPS_HPP_INCLUDED

#include "geom.hpp"
#include <diffpy/srreal/PairCounter.hpp>
#include <diffpy/srreal/PointsInSphere.hpp>

namespace verif {

static std::map<long, Geom> slots;
static BaseBondGeneratorPtr gen;
static long gslot;
typedef std::vector< std::vector<long> > Table;
static Table bonds, us;
static bool ok;

// value on the diagonal of a multiple of the unit matrix
static long isotropic(const R3::Matrix& U)
{
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        if (std::fabs(U(i, j) - (i == j ? U(0, 0) : 0.0)) > 1e-6)  return NONINT;
    return toint(U(0, 0), 1e-5);
}

static void visit()
{
    const Metric& m = slots.at(gslot).m;
    R3::Vector v = gen->r01();
    R3::Vector x = m.steps(v);
    for (int i = 0; i < 3; ++i)
        if (std::fabs(v[i] - (gen->r1()[i] - gen->r0()[i])) > 1e-9)  ok = false;
    double d = gen->distance();
    std::vector<long> e{gen->site1() + 1};
    for (long q : Geom::ints(x))  e.push_back(q);
    R3::Vector xi;
    for (int i = 0; i < 3; ++i)  xi[i] = e[1 + i];
    if (std::fabs(d * d - m.norm2(xi)) > 1e-3)  ok = false;
    if (d < gen->getRmin() || d > gen->getRmax())  ok = false;
    // mean square displacement along the bond
    double u = 0;
    R3::Matrix sum = gen->Ucartesian0() + gen->Ucartesian1();
    for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  u += sum(i, j) * v[i] * v[j];
    if (std::fabs(gen->msd() - u / Metric::dot(v, v)) > 1e-6)  ok = false;
    bonds.push_back(e);
    std::vector<long> w = m.usteps(gen->Ucartesian1());
    e.insert(e.end(), w.begin(), w.end());
    us.push_back(e);
}

static void handleBonds(const std::string& op, Args& a, Obs& o)
{
    auto slot = [&]() -> Geom& {
        long k = a.i();
        return slots[k];
    };
    auto edit = [&]() -> Geom& {
        long k = a.i();
        if (gslot == k)  gen.reset(), gslot = 0;
        return slots[k];
    };
    if (op == "nop")  { }
    else if (op == "new")
    {
        Geom& s = edit();
        s = Geom();
        s.read(a);
        o.set("n", s.s->countSites());
    }
    else if (op == "atom")  { Geom& s = edit(); long i = a.i(); (*s.s)[i] = s.atom(a); }
    else if (op == "append")  { Geom& s = edit(); s.s->append(s.atom(a)); }
    else if (op == "erase")  { Geom& s = edit(); s.s->erase(int(a.i())); }
    else if (op == "swap")  { Geom& s = edit(); long i = a.i(); long j = a.i(); std::swap((*s.s)[i], (*s.s)[j]); }
    else if (op == "setops")
    {
        Geom& s = edit();
        std::vector<long> v = a.li();
        s.crys()->clearSymOps();
        for (size_t k = 0; k < v.size(); k += 12)  s.addop(v, k);
    }
    else if (op == "addop")  { Geom& s = edit(); s.addop(a.li()); }
    else if (op == "cell")  { Geom& s = edit(); s.m.D = a.li(); s.setcell(); }
    else if (op == "precision")  { Geom& s = edit(); s.tight(a.b()); }
    else if (op == "badprecision")
    {
        Geom& s = slot();
        s.crys()->setSymmetryPrecision(a.i());
    }
    else if (op == "clone" || op == "save")
    {
        long k = a.i(), j = a.i();
        if (gslot == k)  gen.reset(), gslot = 0;
        Geom g = slots.at(j).copy(op == "save");
        slots[k] = g;
    }
    else if (op == "equiv")
    {
        Geom& s = slot();
        long i = a.i();
        Table eq, equ;
        long iso = NONINT;
        if (s.crys())
        {
            for (const Atom& x : s.crys()->getEquivalentAtoms(i))
            {
                R3::Vector p = s.m.steps(x.xyz_cartn);
                std::vector<long> e = Geom::ints(p);
                for (int q = 0; q < 3; ++q)
                {
                    if (p[q] < -1e-4 || p[q] > s.m.D[q] + 1e-5)  o.set("outside", true);
                    if (e[q] == s.m.D[q])  e[q] = 0;
                }
                eq.push_back(e);
                if (x.atomtype != s.s->siteAtomType(i) || x.occupancy != s.s->siteOccupancy(i))  o.set("outside", true);
                std::vector<long> u = s.m.usteps(x.uij_cartn);
                e.insert(e.end(), u.begin(), u.end());
                equ.push_back(e);
                long b = isotropic(x.uij_cartn);
                iso = eq.size() == 1 || b == iso ? b : NONINT;
            }
        }
        else if (i < s.s->countSites())  iso = isotropic(s.s->siteCartesianUij(i));
        o.set("iso", iso);
        o.set("eq", counted(eq));
        o.set("equ", uniq(equ));
        o.set("mult", s.s->siteMultiplicity(i));
        o.set("occ", toint(4 * s.s->siteOccupancy(i)));
        o.set("t", s.s->siteAtomType(i));
    }
    else if (op == "exact")
    {
        Geom& s = slot();
        long i = a.i();
        double lo = a.i(), hi = a.i();
        PairCounter pc;
        pc.setRmin(lo);
        pc.setRmax(hi);
        o.set("count", toint(2 * pc.eval(s.s)[0]));
        BaseBondGeneratorPtr b = s.s->createBondGenerator();
        b->selectAnchorSite(i);
        b->selectSiteRange(0, s.s->countSites());
        b->setRmin(lo);
        b->setRmax(hi);
        std::vector<long> one(s.s->countSites(), 0);
        for (b->rewind(); !b->finished(); b->next())  ++one.at(b->site1());
        o.set("sites", one);
    }
    else if (op == "loose")
    {
        Geom& s = slot();
        long i = a.i(), r2 = a.i(), L = a.i();
        Geom c = s.copy(false);
        c.crys()->siteMultiplicity(i);
        c.crys()->setSymmetryPrecision(radius(r2));
        o.set("mult", long(c.s->siteMultiplicity(i)));
        Table pos;
        for (const Atom& x : c.crys()->getEquivalentAtoms(i))
        {
            R3::Vector p = c.m.steps(x.xyz_cartn);
            std::vector<long> e;
            for (int q = 0; q < 3; ++q)
            {
                if (p[q] < -1e-4 || p[q] > c.m.D[q] + 1e-5)  o.set("outside", true);
                e.push_back(toint(p[q] * L, 1e-4) % (L * c.m.D[q]));
            }
            pos.push_back(e);
        }
        o.set("pos", uniq(pos));
        o.set("was", long(s.s->siteMultiplicity(i)));
        double occ = 0;
        for (int j = 0; j < c.s->countSites(); ++j)  occ += c.s->siteOccupancy(j) * c.s->siteMultiplicity(j);
        o.set("total", std::fabs(occ - c.s->totalOccupancy()) < 1e-9);
    }
    else if (op == "total")
    {
        Geom& s = slot();
        o.set("occ", toint(4 * s.s->totalOccupancy()));
        double vol = 0;
        if (s.per())
        {
            R3::Vector x = s.m.step(0), y = s.m.step(1), z = s.m.step(2);
            vol = Metric::dot(x, Metric::cross(y, z)) * s.m.D[0] * s.m.D[1] * s.m.D[2];
        }
        o.set("density", toint(4 * s.s->numberDensity() * vol, 1e-4));
        std::vector<long> mm;
        for (int i = 0; i < s.s->countSites(); ++i)  mm.push_back(s.s->siteMultiplicity(i));
        o.set("mults", mm);
    }
    else if (op == "paircount")
    {
        Geom& s = slot();
        PairCounter pc;
        long lo = a.i(), hi = a.i();
        pc.setRmin(radius(lo));
        pc.setRmax(radius(hi));
        o.set("count", toint(2 * pc.eval(s.s)[0]));
    }
    else if (op == "points")
    {
        Metric m;
        m.g = a.li();
        long lo = a.i(), hi = a.i();
        Table t;
        double rmin = lo == -1 ? 0.0 : lo < 0 ? -1.0 : radius(lo);
        double rmax = hi < 0 ? -1.0 : radius(hi);
        PointsInSphere sph(rmin, rmax, m.len(0), m.len(1), m.len(2), m.angle(1, 2), m.angle(0, 2), m.angle(0, 1));
        for (int k = 0; k < 2; ++k)
        {
            t.clear();
            for (sph.rewind(); !sph.finished(); sph.next())
            {
                t.push_back({sph.m(), sph.n(), sph.o()});
                R3::Vector x(sph.mno()[0], sph.mno()[1], sph.mno()[2]);
                if (std::fabs(sph.r() * sph.r() - m.norm2(x)) > 1e-6)  o.set("badr", true);
            }
        }
        std::sort(t.begin(), t.end());
        o.set("mno", t);
    }
    else if (op == "reflections")
    {
        Metric m;
        m.g = a.li();
        double det = a.i();
        long lo = a.i(), hi = a.i();
        Table t;
        double qmin = lo < 0 ? 0.0 : 2 * M_PI * std::sqrt((lo + 0.5) / det);
        double qmax = 2 * M_PI * std::sqrt((hi + 0.5) / det);
        ReflectionsInQminQmax ref(qmin, qmax, m.len(0), m.len(1), m.len(2), m.angle(1, 2), m.angle(0, 2), m.angle(0, 1));
        for (ref.rewind(); !ref.finished(); ref.next())
        {
            t.push_back({ref.h(), ref.k(), ref.l()});
            if (ref.Q() > 0 && std::fabs(ref.d() * ref.Q() - 2 * M_PI) > 1e-6)  o.set("badr", true);
            if (ref.Q() < qmin - 1e-9 || ref.Q() > qmax + 1e-9)  o.set("badr", true);
        }
        std::sort(t.begin(), t.end());
        o.set("mno", t);
    }
    else if (op == "generator")
    {
        long k = a.i(), lo = a.i(), hi = a.i();
        Geom& s = slots.at(k);
        gslot = k;
        gen = s.s->createBondGenerator();
        o.set("start", J(std::vector<J>{J(gen->finished()), J(gen->getRmin() == 0)}));
        gen->setRmin(radius(lo));
        gen->setRmax(radius(hi));
        gen->selectAnchorSite(0);
        bonds.clear();
        us.clear();
        ok = true;
        o.set("fin", gen->finished());
    }
    else
    {
        if (op == "anchor")  gen->selectAnchorSite(a.i());
        else if (op == "range")  { long i = a.i(); long j = a.i(); gen->selectSiteRange(i, j); }
        else if (op == "select")
        {
            std::vector<long> v = a.li();
            SiteIndices sel(v.begin(), v.end());
            gen->selectSites(sel);
        }
        else if (op == "glo")  gen->setRmin(radius(a.i()));
        else if (op == "ghi")  gen->setRmax(radius(a.i()));
        else if (op == "rewind")  { gen->rewind(); bonds.clear(); us.clear(); ok = true; }
        else if (op == "take")
        {
            long n = a.i(), k = 0;
            for (; k < n && !gen->finished(); ++k, gen->next())  visit();
            o.set("n", k);
            o.set("ok", ok);
        }
        else if (op == "collect" || op == "all")
        {
            if (op == "all")  { gen->rewind(); bonds.clear(); us.clear(); ok = true; }
            for (; !gen->finished(); gen->next())  visit();
            o.set("ok", ok);
            o.set("bonds", counted(bonds));
            o.set("us", uniq(us));
            o.set("mult", gen->multiplicity());
            o.set("site0", gen->site0() + 1);
            o.set("u0", slots.at(gslot).m.usteps(gen->Ucartesian0()));
            if (gen->getRmin() > gen->getRmax() && !bonds.empty())  o.set("ok", false);
        }
        else  VERIF_UNKNOWN_OP(op);
        o.set("fin", gen->finished());
    }
}

static void resetBonds()
{
    slots.clear();
    gen.reset();
    gslot = 0;
    for (int k = 1; k < 5; ++k)  slots[k].s.reset(new AtomicStructureAdapter);
}

}   // namespace verif

#endif
