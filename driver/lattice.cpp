// Conformance driver for Lattice.tla: lattices, points in range, functions.
#include "common.hpp"
#include <diffpy/serialization.ipp>
#include <diffpy/mathutils.hpp>
#include <diffpy/srreal/R3linalg.hpp>
#include <diffpy/srreal/Lattice.hpp>
#include <diffpy/srreal/PointsInSphere.hpp>
#include <diffpy/srreal/PDFUtils.hpp>

using namespace verif;
using namespace diffpy::srreal;
namespace mu = diffpy::mathutils;
typedef std::vector<double> DV;

namespace {

std::vector<Lattice> lats;

J vec(const R3::Vector& v)  { return J(DV(v.begin(), v.end())); }
J mat(const R3::Matrix& m)
{
    J rv;
    rv.t = "[";
    for (int i = 0; i < 3; ++i)  rv.t += (i ? "," : "") + J(DV{m(i, 0), m(i, 1), m(i, 2)}).t;
    rv.t += "]";
    return rv;
}
J vecs(const R3::Vector& a, const R3::Vector& b, const R3::Vector& c)
{
    J rv;
    rv.t = "[" + vec(a).t + "," + vec(b).t + "," + vec(c).t + "]";
    return rv;
}
J obj(const std::vector<std::pair<std::string, J> >& v)
{
    J rv;
    rv.t = "{";
    for (auto& x : v)  rv.t += (rv.t.size() > 1 ? "," : "") + J(x.first).t + ":" + x.second.t;
    rv.t += "}";
    return rv;
}
R3::Vector vector(Args& a, double unit)
{
    R3::Vector rv;
    for (int k = 0; k < 3; ++k)  rv[k] = a.i() / unit;
    return rv;
}
DV plain(const R3::Vector& v)  { return DV(v.begin(), v.end()); }

void full(Obs& o, long i)
{
    const Lattice& t = lats.at(i - 1);
    R3::Vector d = t.ucMaxDiagonal();
    o.set("lat", obj({
        {"len", J(DV{t.a(), t.b(), t.c()})},
        {"ang", J(DV{t.alpha(), t.beta(), t.gamma()})},
        {"cos", J(DV{t.cosalpha(), t.cosbeta(), t.cosgamma()})},
        {"sin", J(DV{t.sinalpha(), t.sinbeta(), t.singamma()})},
        {"vec", vecs(t.va(), t.vb(), t.vc())},
        {"vol", J(t.volume())}, {"voln", J(t.volumeNormal())},
        {"rlen", J(DV{t.ar(), t.br(), t.cr()})},
        {"rang", J(DV{t.alphar(), t.betar(), t.gammar()})},
        {"rcos", J(DV{t.cosalphar(), t.cosbetar(), t.cosgammar()})},
        {"rsin", J(DV{t.sinalphar(), t.sinbetar(), t.singammar()})},
        {"rvec", vecs(t.var(), t.vbr(), t.vcr())},
        {"metrics", mat(t.metrics())}, {"base", mat(t.base())}, {"stdbase", mat(t.stdbase())},
        {"rot", mat(t.baserot())}, {"rec", mat(t.recbase())},
        {"diag", J(DV{t.ucMaxDiagonalLength(), t.norm(d)})},
        {"diagabs", J(DV{fabs(d[0]), fabs(d[1]), fabs(d[2])})}}));
    J bases;
    bases.t = "[";
    std::vector<bool> eq, ne;
    for (auto& x : lats)
    {
        bases.t += (bases.t.size() > 1 ? "," : "") + mat(x.base()).t;
        eq.push_back(x == t);
        ne.push_back(x != t);
    }
    bases.t += "]";
    o.set("bases", bases);
    o.set("eq", J(eq));
    o.set("ne", J(ne));
}

typedef std::vector<std::vector<long> > Triples;
J triples(const Triples& x)
{
    J rv;
    rv.t = "[";
    for (auto& p : x)  rv.t += (rv.t.size() > 1 ? "," : "") + J(p).t;
    rv.t += "]";
    return rv;
}

Triples run(PointsInSphere& s, DV& r)
{
    Triples rv;
    for (; !s.finished(); s.next())
    {
        if (s.m() != s.mno()[0] || s.n() != s.mno()[1] || s.o() != s.mno()[2])  throw std::runtime_error("mno");
        rv.push_back({s.m(), s.n(), s.o()});
        r.push_back(s.r());
        if (rv.size() > 200000)  throw std::runtime_error("endless");
    }
    return rv;
}

template <class T> Triples run(T& s, DV& q, DV& d)
{
    Triples rv;
    for (; !s.finished(); s.next())
    {
        if (s.h() != s.hkl()[0] || s.k() != s.hkl()[1] || s.l() != s.hkl()[2])  throw std::runtime_error("hkl");
        rv.push_back({s.h(), s.k(), s.l()});
        q.push_back(s.Q());
        d.push_back(s.d());
        if (rv.size() > 200000)  throw std::runtime_error("endless");
    }
    return rv;
}

template <class T> void reflect(Obs& o, T& s)
{
    DV q, d, q1, d1;
    Triples p = run(s, q, d);
    s.rewind();
    o.set("again", triples(run(s, q1, d1)));
    o.set("points", triples(p));
    o.set("q", J(q));
    o.set("d", J(d));
}

static J fields(const pointsinsphere::LatticeParameters& p)
{
    std::vector<J> rv;
    for (const DV& x : {DV{p.a, p.b, p.c}, DV{p.alpha, p.beta, p.gamma}, DV{p.ca, p.cb, p.cg}, DV{p.sa, p.sb, p.sg},
                        DV{p.ar, p.br, p.cr}, DV{p.alphar, p.betar, p.gammar}, DV{p.car, p.cbr, p.cgr}, DV{p.sar, p.sbr, p.sgr}})  rv.push_back(J(x));
    return J(rv);
}

template <class F> void make(const std::string& how, const Lattice& t, double lo, double hi, F f)
{
    if (how == "six")  f(lo, hi, t.a(), t.b(), t.c(), t.alpha(), t.beta(), t.gamma());
    else if (how == "parameters")  f(lo, hi, pointsinsphere::LatticeParameters(t.a(), t.b(), t.c(), t.alpha(), t.beta(), t.gamma()));
    else  f(lo, hi, t);
}

void reset()  { lats.clear(); }

void operate(const std::string& op, long i, Args& a, Obs& o)
{
    Lattice& t = lats.at(i - 1);
    if (op == "par" || op == "newpar")
    {
        double x[6];
        for (int k = 0; k < 6; ++k)  x[k] = k < 3 ? a.i() / 100.0 : a.i();
        if (op == "par")  t.setLatPar(x[0], x[1], x[2], x[3], x[4], x[5]);
        else  t = Lattice(x[0], x[1], x[2], x[3], x[4], x[5]);
    }
    else if (op == "base" || op == "basetuple" || op == "newbase")
    {
        R3::Vector u = vector(a, 4.0), v = vector(a, 4.0), w = vector(a, 4.0);
        if (op == "base")  t.setLatBase(u, v, w);
        else if (op == "basetuple")  t.setLatBase(plain(u), plain(v), plain(w));
        else  t = Lattice(u, v, w);
    }
    else if (op == "own")
    {
        const R3::Vector* own[3] = {&t.va(), &t.vb(), &t.vc()};
        long p = a.i(), q = a.i(), r = a.i();
        t.setLatBase(*own[p - 1], *own[q - 1], *own[r - 1]);
    }
    else if (op == "copy")  t = Lattice(lats.at(a.i() - 1));
    else if (op == "archive")
    {
        std::stringstream ss;
        {
            diffpy::serialization::oarchive ar(ss, boost::archive::no_header);
            const Lattice& c = t;
            ar << c;
        }
        Lattice x(2, 3, 4, 80, 95, 110);
        {
            diffpy::serialization::iarchive ar(ss, boost::archive::no_header);
            ar >> x;
        }
        t = x;
    }
    else if (op == "query")
    {
        R3::Vector u = vector(a, 12.0), v = vector(a, 12.0);
        double m[6];
        for (int k = 0; k < 6; ++k)  m[k] = a.i() / 100.0;
        R3::Matrix M(m[0], m[3], m[4], m[3], m[1], m[5], m[4], m[5], m[2]);
        o.set("dot", t.dot(u, v));
        o.set("norm", t.norm(u));
        o.set("normv", t.norm(plain(v)));
        o.set("dist", t.distance(u, v));
        R3::Vector c = t.cartesian(u);
        o.set("cart", vec(t.cartesian(plain(u))));
        o.set("frac", vec(t.fractional(c)));
        o.set("fractional", vec(t.fractional(plain(u))));
        o.set("ucvf", vec(t.ucvFractional(plain(u))));
        o.set("ucvc", vec(t.ucvCartesian(c)));
        o.set("angledeg", t.angledeg(u, v));
        o.set("anglerad", t.anglerad(u, v));
        R3::Matrix cm = t.cartesianMatrix(M);
        o.set("cm", mat(cm));
        o.set("fm", mat(t.fractionalMatrix(M)));
        o.set("fcm", mat(t.fractionalMatrix(cm)));
    }
    else if (op == "params")
    {
        bool fresh = a.s() == "new";
        pointsinsphere::LatticeParameters p(fresh ? t.a() : 3, fresh ? t.b() : 4, fresh ? t.c() : 5,
            fresh ? t.alpha() : 80, fresh ? t.beta() : 110, fresh ? t.gamma() : 95);
        p.a = t.a(), p.b = t.b(), p.c = t.c();
        p.alpha = t.alpha(), p.beta = t.beta(), p.gamma = t.gamma();
        if (!fresh)  p.update();
        pointsinsphere::LatticeParameters r = p.reciprocal(), u = r;
        u.update();
        o.set("p", fields(p));
        o.set("r", fields(r));
        o.set("u", fields(u));
        o.set("rr", fields(r.reciprocal()));
    }
    else if (op == "points")
    {
        double lo = a.i() / 100.0, hi = a.i() / 100.0;
        make(a.s(), t, lo, hi, [&] (auto&&... x) {
            PointsInSphere s(x...);
            DV r, r1;
            Triples p = run(s, r);
            s.rewind();
            o.set("again", triples(run(s, r1)));
            o.set("points", triples(p));
            o.set("r", J(r));
            if (s.Rmin() != lo || s.Rmax() != hi)  throw std::runtime_error("limits");
        });
    }
    else if (op == "reflections")
    {
        std::string by = a.s();
        double lo = a.i() / 100.0, hi = a.i() / 100.0;
        if (by == "Q")  make(a.s(), t, lo, hi, [&] (auto&&... x) {
            ReflectionsInQminQmax s(x...);
            reflect(o, s);
            o.set("limits", J(DV{s.Qmin(), s.Qmax()}));
        });
        else  make(a.s(), t, hi, lo, [&] (auto&&... x) {
            ReflectionsInDmaxDmin s(x...);
            reflect(o, s);
            o.set("limits", J(DV{s.Qmin(), s.Qmax(), s.Dmax(), s.Dmin()}));
        });
    }
    else if (op != "look")  VERIF_UNKNOWN_OP(op);
}

void handle(const std::string& op, Args& a, Obs& o)
{
    if (op == "nop")  return;
    if (op == "start")
    {
        lats.assign(a.i(), Lattice());
        full(o, 1);
    }
    else if (op == "matrix")
    {
        double x[9];
        for (int k = 0; k < 9; ++k)  x[k] = a.i();
        R3::Matrix A(x[0], x[1], x[2], x[3], x[4], x[5], x[6], x[7], x[8]), B;
        R3::Vector u = vector(a, 1.0), v = vector(a, 1.0);
        double d = R3::determinant(A);
        o.set("det", d);
        o.set("cross", vec(R3::cross(u, v)));
        o.set("dot", R3::dot(u, plain(v).size() == 3 ? v : u));
        o.set("norm", R3::norm(plain(u)));
        o.set("dist", R3::distance(u, v));
        o.set("mv", vec(R3::mxvecproduct(A, plain(u))));
        o.set("vm", vec(R3::mxvecproduct(u, A)));
        o.set("floor", vec(R3::floor(u / 4.0)));
        R3::Matrix C = A;
        C(2, 1) += 1;
        o.set("eq", J(std::vector<bool>{u == v, A == R3::Matrix(A), C == A}));
        o.set("adj", J(DV()));
        if (fabs(d) > 0.5)
        {
            B = R3::inverse(A) * d;
            o.set("adj", mat(B));
        }
    }
    else if (op == "trig")
    {
        double x = a.i() / 4.0, y = a.i() / 40.0;
        o.set("cosd", mu::cosd(x));
        o.set("sind", mu::sind(x));
        o.set("acosd", mu::acosd(y));
        o.set("asind", mu::asind(y));
    }
    else if (op == "eps")
    {
        double x = 3.0 + a.i() * 1e-9, y = 3.0 + a.i() * 1e-9, e = a.i() * 1e-9;
        if (e > 1.2e-8)  e = mu::SQRT_DOUBLE_EPS;
        bool def = e == mu::SQRT_DOUBLE_EPS;
        mu::EpsilonEqual feq = def ? mu::EpsilonEqual() : mu::EpsilonEqual(e);
        mu::EpsilonLess flt = def ? mu::EpsilonLess() : mu::EpsilonLess(e);
        o.set("eq", def ? mu::eps_eq(x, y) : mu::eps_eq(x, y, e));
        o.set("gt", def ? mu::eps_gt(x, y) : mu::eps_gt(x, y, e));
        o.set("lt", def ? mu::eps_lt(x, y) : mu::eps_lt(x, y, e));
        if (feq(x, y) != mu::eps_eq(x, y, e) || flt(x, y) != mu::eps_lt(x, y, e))  throw std::runtime_error("functor");
        DV p{1.0, x}, q{1.0, y}, s{1.0, x, 2.0};
        o.set("seqeq", J(std::vector<bool>{feq(p, q), feq(p, s)}));
        o.set("seqlt", J(std::vector<bool>{flt(p, q), flt(q, p), flt(p, s)}));
    }
    else if (op == "fft")
    {
        std::vector<long> g = a.li();
        long pad = a.i(), off = a.i();
        double dx = a.i() / 100.0;
        bool back = a.b();
        QuantityType x(g.begin(), g.end());
        double x0 = (pad + 0.1 * off) * dx;
        QuantityType f = back ? fftftog(x, dx, x0) : fftgtof(x, dx, x0);
        o.set("f", J(DV(f.begin(), f.end())));
    }
    else
    {
        long i = a.i();
        try { operate(op, i, a, o); }
        catch (const std::exception&)  { full(o, i); throw; }
        full(o, i);
    }
}

}   // namespace

int main()
{
    return drive(reset, handle);
}
