// Structures on a grid of steps for the drivers of Geom.tla
#ifndef VERIF_GEOM_HPP_INCLUDED
#define VERIF_GEOM_HPP_INCLUDED

#include "common.hpp"
#include <diffpy/serialization.ipp>
#include <diffpy/srreal/AtomicStructureAdapter.hpp>
#include <diffpy/srreal/PeriodicStructureAdapter.hpp>
#include <diffpy/srreal/CrystalStructureAdapter.hpp>
#include <diffpy/srreal/BaseBondGenerator.hpp>

namespace verif {

using namespace diffpy::srreal;

const double JITTER = 1e-6;
// occupancy of one quarter in the specification; results that are linear in
// the scale of all occupancies may be compared at another scale
static double& occunit()  { static double u = 0.25; return u; }

struct Metric
{
    std::string kind = "atom";
    std::vector<long> g{1, 0, 0, 0, 1, 0, 0, 0, 1};
    std::vector<long> D{6, 6, 6};
    // step vectors
    R3::Vector step(int i) const
    {
        R3::Vector rv(0.0, 0.0, 0.0);
        if (kind == "atom")  { rv[i] = 1; return rv; }
        const Lattice& L = *lattice;
        return (i == 0 ? L.va() : i == 1 ? L.vb() : L.vc()) / double(D[i]);
    }
    const Lattice* lattice = nullptr;
    double len(int i) const  { return std::sqrt(double(g[4 * i])); }
    double angle(int i, int j) const
    {
        double x = std::acos(g[3 * i + j] / (len(i) * len(j))) * 180 / M_PI;
        double r = std::floor(x + 0.5);
        return std::fabs(x - r) < 1e-9 ? r : x;
    }
    R3::Vector cart(double x, double y, double z) const
    {
        R3::Vector a = step(0), b = step(1), c = step(2), rv;
        for (int i = 0; i < 3; ++i)  rv[i] = x * a[i] + y * b[i] + z * c[i];
        return rv;
    }
    // inverse by cross products
    R3::Vector steps(const R3::Vector& v) const
    {
        R3::Vector a = step(0), b = step(1), c = step(2), rv;
        double vol = dot(a, cross(b, c));
        rv[0] = dot(v, cross(b, c)) / vol;
        rv[1] = dot(v, cross(c, a)) / vol;
        rv[2] = dot(v, cross(a, b)) / vol;
        return rv;
    }
    double norm2(const R3::Vector& x) const
    {
        double rv = 0;
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)  rv += x[i] * x[j] * g[3 * i + j];
        return rv;
    }
    R3::Matrix ucart(const long u[6]) const
    {
        double m[3][3] = {{double(u[0]), double(u[3]), double(u[4])}, {double(u[3]), double(u[1]), double(u[5])}, {double(u[4]), double(u[5]), double(u[2])}};
        R3::Matrix rv = R3::zeromatrix();
        for (int i = 0; i < 3; ++i) for (int j = 0; j < 3; ++j)
        {
            R3::Vector a = step(i), b = step(j);
            for (int k = 0; k < 3; ++k) for (int l = 0; l < 3; ++l)  rv(k, l) += m[i][j] * a[k] * b[l];
        }
        return rv;
    }
    std::vector<long> usteps(const R3::Matrix& U) const
    {
        R3::Vector col[3];
        // W = S^-1 U S^-T
        double w[3][3];
        R3::Matrix tmp;
        for (int l = 0; l < 3; ++l)
        {
            R3::Vector v(U(0, l), U(1, l), U(2, l));
            R3::Vector s = steps(v);
            for (int k = 0; k < 3; ++k)  tmp(k, l) = s[k];
        }
        for (int k = 0; k < 3; ++k)
        {
            R3::Vector v(tmp(k, 0), tmp(k, 1), tmp(k, 2));
            R3::Vector s = steps(v);
            for (int l = 0; l < 3; ++l)  w[k][l] = s[l];
        }
        std::vector<long> rv;
        const int ij[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {0, 2}, {1, 2}};
        for (auto& q : ij)
        {
            long a = toint(w[q[0]][q[1]], 1e-4), b = toint(w[q[1]][q[0]], 1e-4);
            rv.push_back(a == b ? a : NONINT);
        }
        return rv;
    }
    static double dot(const R3::Vector& a, const R3::Vector& b)  { return a[0] * b[0] + a[1] * b[1] + a[2] * b[2]; }
    static R3::Vector cross(const R3::Vector& a, const R3::Vector& b)
    {
        R3::Vector rv(a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]);
        return rv;
    }
};

struct Geom
{
    boost::shared_ptr<AtomicStructureAdapter> s;
    Metric m;
    PeriodicStructureAdapter* per() const  { return dynamic_cast<PeriodicStructureAdapter*>(s.get()); }
    CrystalStructureAdapter* crys() const  { return dynamic_cast<CrystalStructureAdapter*>(s.get()); }
    void setcell()
    {
        PeriodicStructureAdapter* p = per();
        if (!p)  return;
        p->setLatPar(m.D[0] * m.len(0), m.D[1] * m.len(1), m.D[2] * m.len(2), m.angle(1, 2), m.angle(0, 2), m.angle(0, 1));
        m.lattice = &p->getLattice();
    }
    Atom atom(Args& a) const
    {
        Atom rv;
        rv.atomtype = a.s();
        long p[3], j[3], u[6];
        for (auto& x : p)  x = a.i();
        for (auto& x : j)  x = a.i();
        rv.occupancy = a.i() * occunit();
        for (auto& x : u)  x = a.i();
        rv.xyz_cartn = m.cart(p[0] + JITTER * j[0], p[1] + JITTER * j[1], p[2] + JITTER * j[2]);
        rv.anisotropy = false;
        for (auto& x : u)  if (x)  rv.anisotropy = true;
        rv.uij_cartn = m.ucart(u);
        return rv;
    }
    void addop(const std::vector<long>& v, size_t k = 0)
    {
        R3::Matrix R;
        R3::Vector t;
        for (int i = 0; i < 9; ++i)  R(i / 3, i % 3) = v[k + i];
        for (int i = 0; i < 3; ++i)  t[i] = v[k + 9 + i] / 12.0;
        if (k % 24)  crys()->addSymOp(R, t);
        else
        {
            SymOpRotTrans op;
            op.R = R;
            op.t = t;
            crys()->addSymOp(op);
        }
    }
    void tight(bool t)  { if (crys())  crys()->setSymmetryPrecision(t ? 1e-7 : 5e-5); }
    void read(Args& a)
    {
        m.kind = a.s();
        m.g = a.li();
        m.D = a.li();
        std::vector<long> ops = a.li();
        bool t = a.b();
        if (m.kind == "atom")  s.reset(new AtomicStructureAdapter);
        else if (m.kind == "per")  s.reset(new PeriodicStructureAdapter);
        else  s.reset(new CrystalStructureAdapter);
        setcell();
        for (size_t k = 0; k < ops.size(); k += 12)  addop(ops, k);
        tight(t);
        long n = a.i();
        for (long i = 0; i < n; ++i)  s->append(atom(a));
    }
    Geom copy(bool save) const
    {
        Geom rv;
        rv.m = m;
        StructureAdapterPtr p;
        if (save)
        {
            StructureAdapterPtr q = s;
            diffpy::serialization_fromstring(p, diffpy::serialization_tostring(q));
        }
        else  p = s->clone();
        rv.s = boost::dynamic_pointer_cast<AtomicStructureAdapter>(p);
        if (rv.per())  rv.m.lattice = &rv.per()->getLattice();
        return rv;
    }
    // integer step coordinates
    static std::vector<long> ints(const R3::Vector& v)
    {
        return {toint(v[0], 1e-4), toint(v[1], 1e-4), toint(v[2], 1e-4)};
    }
};

inline double radius(long n)
{
    return n == -2 ? -1.0 : n < 0 ? 0.0 : std::sqrt(n + 0.5);
}

// counts of equal tuples appended to each
inline std::vector< std::vector<long> > counted(const std::vector< std::vector<long> >& v)
{
    std::map<std::vector<long>, long> cnt;
    for (auto& x : v)  ++cnt[x];
    std::vector< std::vector<long> > rv;
    for (auto& c : cnt)
    {
        rv.push_back(c.first);
        rv.back().push_back(c.second);
    }
    return rv;
}
inline std::vector< std::vector<long> > uniq(std::vector< std::vector<long> > v)
{
    std::sort(v.begin(), v.end());
    v.erase(std::unique(v.begin(), v.end()), v.end());
    return v;
}

}   // namespace verif

#endif
