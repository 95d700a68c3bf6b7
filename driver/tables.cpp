// Conformance driver for Tables.tla
#include "common.hpp"
#include <boost/make_shared.hpp>
#include <diffpy/serialization.ipp>
#include <diffpy/srreal/AtomRadiiTable.hpp>
#include <diffpy/srreal/ConstantRadiiTable.hpp>
#include <diffpy/srreal/BVParam.hpp>
#include <diffpy/srreal/AtomUtils.hpp>
#include <diffpy/srreal/BVParametersTable.hpp>
#include <diffpy/srreal/ScatteringFactorTable.hpp>

using namespace verif;
using namespace diffpy::srreal;
using diffpy::eventticker::EventTicker;

namespace {

std::map<long, BVParametersTablePtr> bv;
std::map<long, ScatteringFactorTablePtr> sf;
std::map<long, EventTicker> ticks;
std::map<long, AtomRadiiTablePtr> ra;

J raw(const std::string& t)
{
    J rv;
    rv.t = t;
    return rv;
}

template <class C> J listof(const C& v)
{
    std::string t = "[";
    for (auto& x : v)  t += (t.size() > 1 ? "," : "") + x;
    return raw(t + "]");
}

std::string row(const BVParam& p)
{
    std::vector<std::string> w = {J(p.matom0).t, J(p.mvalence0).t, J(p.matom1).t, J(p.mvalence1).t,
        J(toint(p.mRo * 1e4)).t, J(toint(p.mB * 1e4)).t, J(p.mref_id).t};
    return listof(w).t;
}

template <class C> J rows(const C& c)
{
    std::vector<std::string> v;
    for (auto& p : c)  v.push_back(row(p));
    return listof(v);
}

template <class P> P roundtrip(const P& p)
{
    P rv;
    diffpy::serialization_fromstring(rv, diffpy::serialization_tostring(p));
    return rv;
}

const char* sftype(const std::string& tp)
{
    return tp == "X" ? "xray" : tp == "N" ? "neutron" : tp == "E" ? "electron" : "electronnumber";
}

double quarter(long v)  { return v / 4.0; }
double tenth(long q)  { return q / 10.0; }

ConstantRadiiTable& constant(long k)
{
    return dynamic_cast<ConstantRadiiTable&>(*ra.at(k));
}

long cur;
char area;

void reset()
{
    bv.clear();
    sf.clear();
    ticks.clear();
    ra.clear();
    area = 0;
}

struct Pair
{
    std::string a, b;
    long v, w;
    explicit Pair(Args& x)
    {
        a = x.s();
        v = x.i();
        b = x.s();
        w = x.i();
    }
};

void bvop(const std::string& op, Args& a, Obs& o)
{
    BVParametersTable& t = *bv.at(cur);
    if (op == "bvset")
    {
        Pair p(a);
        double ro = a.i() / 1e4, b = a.i() / 1e4;
        std::string ref = a.s();
        BVParam bp(p.a, p.v, p.b, p.w, ro, b, ref);
        if (a.s() == "param")  t.setCustom(bp);
        else if (ref.empty())  t.setCustom(p.a, p.v, p.b, p.w, ro, b);
        else  t.setCustom(p.a, p.v, p.b, p.w, ro, b, ref);
        o.set("row", raw(row(t.lookup(bp))));
    }
    else if (op == "bvcopy")
    {
        long j = a.i();
        Pair p(a);
        t.setCustom(bv.at(j)->lookup(p.a, p.v, p.b, p.w));
        o.set("row", raw(row(bv.at(j)->lookup(p.a, p.v, p.b, p.w))));
    }
    else if (op == "bvreset")
    {
        Pair p(a);
        if (a.s() == "param")  t.resetCustom(BVParam(p.a, p.v, p.b, p.w));
        else  t.resetCustom(p.a, p.v, p.b, p.w);
    }
    else if (op == "bvresetall")  t.resetAll();
    else if (op == "bvval")
    {
        std::string s = a.s();
        t.setAtomValence(s, a.i());
    }
    else if (op == "bvnoval")  t.resetAtomValences();
    else if (op == "bvgetval")  o.set("v", t.getAtomValence(a.s()));
    else if (op == "bvlookup")
    {
        Pair p(a);
        bool param = a.s() == "param";
        const BVParam& q = param ? t.lookup(BVParam(p.a, p.v, p.b, p.w)) : t.lookup(p.a, p.v, p.b, p.w);
        o.set("valence", q.bondvalence(a.i() / 1e2));
        o.set("length", q.bondvalenceToDistance(a.i() / 10.0));
        o.set("row", raw(row(param ? t.lookup(BVParam(p.a, p.v, p.b, p.w)) : t.lookup(p.a, p.v, p.b, p.w))));
        o.set("rev", raw(row(param ? t.lookup(BVParam(p.b, p.w, p.a, p.v)) : t.lookup(p.b, p.w, p.a, p.v))));
    }
    else if (op == "bveq")
    {
        const BVParametersTable& u = *bv.at(a.i());
        Pair p(a), q(a);
        BVParam x = t.lookup(p.a, p.v, p.b, p.w), y = u.lookup(q.a, q.v, q.b, q.w);
        o.set("eq", x == y);
        o.set("ne", x != y);
        o.set("bond", BVParam::BondEqual()(x, y));
        BVParam z = x;
        o.set("hash", BVParam::BondHash()(x) == BVParam::BondHash()(z) && z == x && !(z != x) && BVParam::BondEqual()(x, z));
    }
    else if (op == "bvtext")
    {
        std::string x = a.s(), y = a.s();
        o.set("row", raw(row(t.lookup(x, y))));
        o.set("rev", raw(row(t.lookup(y, x))));
    }
    else if (op == "bvall")
    {
        auto all = t.getAll();
        std::vector<BVParam> shadow;
        for (auto& p : t.getAllCustom())  if (all.count(p))  shadow.push_back(*all.find(p));
        o.set("n", long(all.size()));
        o.set("shadow", rows(shadow));
    }
    else if (op == "bvrows")  o.set("rows", rows(t.getAll()));
    else if (op == "bvnew")  bv[cur].reset(new BVParametersTable);
    else if (op == "bvclone")  bv[cur].reset(new BVParametersTable(BVParametersTable(*bv.at(a.i()))));
    else if (op == "bvsave")  bv[cur] = roundtrip(bv.at(a.i()));
    else  VERIF_UNKNOWN_OP(op);
}

void sfop(const std::string& op, Args& a, Obs& o)
{
    ScatteringFactorTablePtr& t = sf.at(cur);
    if (op == "sfas")
    {
        std::string s = a.s(), r = a.s();
        t->setCustomAs(s, r);
    }
    else if (op == "sfvalue")
    {
        std::string s = a.s(), r = a.s();
        long q = a.i();
        double v = quarter(a.i());
        if (q)  t->setCustomAs(s, r, v, tenth(q));
        else  t->setCustomAs(s, r, v);
    }
    else if (op == "sfreset")  t->resetCustom(a.s());
    else if (op == "sfresetall")  t->resetAll();
    else if (op == "sflookup" || op == "sfstd")
    {
        std::string s = a.s();
        long q = a.i();
        o.set("f", op == "sfstd" ? t->standardLookup(s, tenth(q)) : q ? t->lookup(s, tenth(q)) : t->lookup(s));
    }
    else if (op == "sfnew")
    {
        std::string tp = a.s();
        t = ScatteringFactorTable::createByType(a.b() ? tp : sftype(tp));
    }
    else if (op == "sfclone")  t = sf.at(a.i())->clone();
    else if (op == "sfsave")  t = roundtrip(sf.at(a.i()));
    else if (op == "sfcreate")  t = sf.at(a.i())->create();
    else  VERIF_UNKNOWN_OP(op);
}

void raop(const std::string& op, Args& a, Obs& o)
{
    AtomRadiiTablePtr& t = ra.at(cur);
    if (op == "raset")
    {
        std::string s = a.s();
        t->setCustom(s, a.i() / 1000.0);
    }
    else if (op == "rareset")  t->resetCustom(a.s());
    else if (op == "raresetall")  t->resetAll();
    else if (op == "radef")  constant(cur).setDefault(a.i() / 1000.0);
    else if (op == "ralookup")
    {
        std::string s = a.s();
        o.set("r", toint(t->lookup(s) * 1000));
        o.set("std", toint(t->standardLookup(s) * 1000));
    }
    else if (op == "ratext")  t->fromString(a.s());
    else if (op == "rashow")
    {
        std::string sep = a.s();
        o.set("text", sep == "," ? t->toString() : t->toString(sep));
    }
    else if (op == "ratrip")
    {
        long j = a.i();
        t->fromString(ra.at(j)->toString(a.s()));
    }
    else if (op == "ranew")  t = AtomRadiiTable::createByType("constant");
    else if (op == "raclone")  t = ra.at(a.i())->clone();
    else if (op == "rasave")  t = roundtrip(ra.at(a.i()));
    else if (op == "racreate")  t = ra.at(a.i())->create();
    else  VERIF_UNKNOWN_OP(op);
}

void handle(const std::string& op, Args& a, Obs& o)
{
    area = 0;
    if (op == "nop")  return;
    if (op == "tables")
    {
        long n = a.i();
        std::string tp = a.s();
        for (long k = 1; k <= n; ++k)
        {
            bv[k].reset(new BVParametersTable);
            sf[k] = ScatteringFactorTable::createByType(tp);
            ticks[k] = sf[k]->ticker();
            ra[k] = AtomRadiiTable::createByType("constant");
        }
        return;
    }
    if (op == "symbol")
    {
        std::string x = a.s();
        o.set("bare", atomBareSymbol(x));
        o.set("valence", long(atomValence(x)));
        return;
    }
    if (op == "bvparse")
    {
        std::string line;
        for (auto& w : a.ls())  line += w + "  ";
        BVParam p("Qa", 1, "Qb", 0, 1.0, 0.5, "q");
        try {
            p.setFromCifLine(line);
        }
        catch (...) {
            o.set("row", raw(row(p)));
            throw;
        }
        o.set("row", raw(row(p)));
        return;
    }
    cur = a.i();
    area = op[0];
    if (area == 'b')  bvop(op, a, o);
    else if (area == 's')  sfop(op, a, o);
    else if (area == 'r')  raop(op, a, o);
    else  VERIF_UNKNOWN_OP(op);
}

void observe(Obs& o)
{
    if (area == 'b')  o.set("cust", rows(bv.at(cur)->getAllCustom()));
    if (area == 's')
    {
        std::vector<std::string> v;
        for (auto& s : sf.at(cur)->getCustomSymbols())  v.push_back(J(s).t);
        o.set("symbols", listof(v));
        bool others = false;
        for (auto& kv : sf)
        {
            bool tick = kv.second->ticker() != ticks.at(kv.first);
            if (kv.first == cur)
            {
                bool up = kv.second->ticker() > ticks.at(kv.first);
                o.set("tick", tick ? (up ? J(true) : J("back")) : J(false));
            }
            else  others = others || tick;
            ticks[kv.first] = kv.second->ticker();
        }
        o.set("others", others);
        std::string tp = sf.at(cur)->type(), rt = sf.at(cur)->radiationType();
        o.set("tp", tp == sftype(rt) ? rt : tp + " " + rt);
    }
    if (area == 'r')
    {
        std::vector<std::string> v;
        for (auto& kv : ra.at(cur)->getAllCustom())
            v.push_back(listof(std::vector<std::string>{J(kv.first).t, J(toint(kv.second * 1000)).t}).t);
        o.set("radii", listof(v));
        o.set("def", toint(constant(cur).getDefault() * 1000));
    }
}

}   // namespace

int main()
{
    return drive(reset, handle, observe);
}
