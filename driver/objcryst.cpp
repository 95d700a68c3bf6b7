// Conformance driver for ObjCryst.tla: conversion of ObjCryst objects
#include <memory>
#include <ObjCryst/ObjCryst/Atom.h>
#include <ObjCryst/ObjCryst/Crystal.h>
#include <ObjCryst/ObjCryst/Molecule.h>
#include <ObjCryst/ObjCryst/ScatteringPower.h>
#include <diffpy/srreal/ObjCrystStructureAdapter.hpp>
#include "bondops.hpp"

using namespace verif;

namespace {

struct Source
{
    std::string kind;
    Metric m;
    std::unique_ptr<ObjCryst::Crystal> cryst;
    ObjCryst::Molecule* mol = nullptr;
    std::vector<ObjCryst::ScatteringPowerAtom*> pw;
    std::vector<ObjCryst::Scatterer*> at;
    long named = 0;
    struct Power { std::string sym; bool iso; long b; long u[6]; };
    struct Place { double x[3]; double occ; long w; };
    std::vector<Power> powers;
    std::vector<Place> places;
    std::string sg;
    // reciprocal cell lengths times the number of steps
    double rec(int i) const
    {
        const std::vector<long>& g = m.g;
        int j = (i + 1) % 3, k = (i + 2) % 3;
        double adj = g[4 * j] * g[4 * k] - g[3 * j + k] * g[3 * j + k];
        double det = g[0] * (g[4] * g[8] - g[5] * g[7]) - g[1] * (g[3] * g[8] - g[5] * g[6]) + g[2] * (g[3] * g[7] - g[4] * g[6]);
        return std::sqrt(adj / det);
    }
    void power(size_t i, Args& a)
    {
        Power p;
        p.sym = a.s();
        p.iso = a.b();
        p.b = a.i();
        for (auto& x : p.u)  x = a.i();
        power(i, p);
    }
    void power(size_t i, const Power& w)
    {
        const double utob = 8 * M_PI * M_PI;
        if (i == pw.size())
        {
            pw.push_back(new ObjCryst::ScatteringPowerAtom("w" + std::to_string(i), w.sym, 1.0));
            cryst->AddScatteringPower(pw.back());
        }
        powers.resize(pw.size());
        powers[i] = w;
        bool iso = w.iso;
        long b = w.b;
        const long* u = w.u;
        const int ij[6][2] = {{0, 0}, {1, 1}, {2, 2}, {0, 1}, {0, 2}, {1, 2}};
        if (iso)  pw[i]->SetBiso(utob * b);
        else for (int k = 0; k < 6; ++k)
        {
            int p = ij[k][0], q = ij[k][1];
            double f = mol ? 1.0 : rec(p) * rec(q);
            pw[i]->SetBij(p + 1, q + 1, utob * u[k] / f);
        }
    }
    Place place(Args& a) const
    {
        Place rv;
        for (int i = 0; i < 3; ++i)  rv.x[i] = mol ? double(a.i()) : a.i() / double(m.D[i]);
        rv.occ = a.i() * 0.25;
        rv.w = a.i();
        return rv;
    }
    void add(const Place& p)
    {
        std::string name = "a" + std::to_string(++named);
        ObjCryst::ScatteringPowerAtom* w = p.w ? pw.at(p.w - 1) : nullptr;
        if (mol)
        {
            mol->AddAtom(p.x[0], p.x[1], p.x[2], w, name, false);
            mol->GetAtom(mol->GetNbComponent() - 1).SetOccupancy(p.occ);
            return;
        }
        places.push_back(p);
        at.push_back(new ObjCryst::Atom(p.x[0], p.x[1], p.x[2], name, w, p.occ));
        cryst->AddScatterer(at.back());
    }
    void move(size_t i, Args& a)
    {
        Place p = place(a);
        if (mol)
        {
            ObjCryst::MolAtom& x = mol->GetAtom(i);
            x.SetX(p.x[0]);
            x.SetY(p.x[1]);
            x.SetZ(p.x[2]);
            x.SetOccupancy(p.occ);
            return;
        }
        places[i] = p;
        at.at(i)->SetX(p.x[0]);
        at[i]->SetY(p.x[1]);
        at[i]->SetZ(p.x[2]);
        at[i]->SetOccupancy(p.occ);
    }
    void remove(size_t i)
    {
        if (mol)  { mol->RemoveAtom(mol->GetAtom(i)); return; }
        // Crystal::RemoveScatterer keeps the removed one in the list of components
        std::vector<Power> pp;
        std::vector<Place> qq;
        pp.swap(powers);
        qq.swap(places);
        qq.erase(qq.begin() + i);
        at.clear();
        pw.clear();
        make();
        for (size_t k = 0; k < pp.size(); ++k)  power(k, pp[k]);
        for (auto& p : qq)  add(p);
    }
    void make()
    {
        const double r = M_PI / 180;
        cryst.reset(new ObjCryst::Crystal(m.D[0] * m.len(0), m.D[1] * m.len(1), m.D[2] * m.len(2),
                    r * m.angle(1, 2), r * m.angle(0, 2), r * m.angle(0, 1), sg));
    }
    void read(Args& a)
    {
        kind = a.s();
        sg = a.s();
        m.kind = kind == "mol" ? "atom" : "crys";
        m.g = a.li();
        m.D = a.li();
        make();
        if (kind == "mol")
        {
            mol = new ObjCryst::Molecule(*cryst, "mol");
            cryst->AddScatterer(mol);
        }
        long np = a.i();
        for (long i = 0; i < np; ++i)  power(i, a);
        long n = a.i();
        for (long i = 0; i < n; ++i)  add(place(a));
    }
    StructureAdapterPtr convert() const
    {
        return mol ? createStructureAdapter(*mol) : createStructureAdapter(*cryst);
    }
};

std::map<long, std::unique_ptr<Source>> sources;

void NoMessages(const std::string&)  { }

void handle(const std::string& op, Args& a, Obs& o)
{
    if (op == "src")
    {
        long k = a.i();
        sources[k].reset(new Source);
        sources[k]->read(a);
    }
    else if (op == "power")  { long k = a.i(); long i = a.i(); sources.at(k)->power(i - 1, a); }
    else if (op == "move")  { long k = a.i(); long i = a.i(); sources.at(k)->move(i - 1, a); }
    else if (op == "add")  { Source& x = *sources.at(a.i()); x.add(x.place(a)); }
    else if (op == "remove")  { long k = a.i(); sources.at(k)->remove(a.i() - 1); }
    else if (op == "srccount")
    {
        const Source& x = *sources.at(a.i());
        PairCounter pc;
        long lo = a.i(), hi = a.i();
        pc.setRmin(radius(lo));
        pc.setRmax(radius(hi));
        o.set("count", toint(2 * (x.mol ? pc.eval(*x.mol)[0] : pc.eval(*x.cryst)[0])));
    }
    else if (op == "convert")
    {
        long k = a.i();
        const Source& x = *sources.at(a.i());
        if (gslot == k)  gen.reset(), gslot = 0;
        Geom s;
        s.m.kind = x.m.kind;
        s.m.g = x.m.g;
        s.m.D = x.m.D;
        s.s = boost::dynamic_pointer_cast<AtomicStructureAdapter>(x.convert());
        if (s.per())  s.m.lattice = &s.per()->getLattice();
        slots[k] = s;
        std::vector<std::string> types;
        Table sites, ops;
        for (int i = 0; i < s.s->countSites(); ++i)
        {
            types.push_back(s.s->siteAtomType(i));
            std::vector<long> e = Geom::ints(s.m.steps(s.s->siteCartesianPosition(i)));
            e.push_back(toint(4 * s.s->siteOccupancy(i)));
            e.push_back(s.s->siteAnisotropy(i));
            if (s.s->siteAnisotropy(i))
                for (long q : s.m.usteps(s.s->siteCartesianUij(i)))  e.push_back(q);
            else  e.push_back(isotropic(s.s->siteCartesianUij(i)));
            sites.push_back(e);
        }
        if (s.crys())
        {
            for (int i = 0; i < s.crys()->countSymOps(); ++i)
            {
                const SymOpRotTrans& p = s.crys()->getSymOp(i);
                std::vector<long> e;
                for (int q = 0; q < 9; ++q)  e.push_back(toint(p.R(q / 3, q % 3)));
                for (int q = 0; q < 3; ++q)
                {
                    long t = toint(12 * p.t[q], 1e-5);
                    e.push_back(t == NONINT ? t : ((t % 12) + 12) % 12);
                }
                ops.push_back(e);
            }
        }
        o.set("types", types);
        o.set("sites", sites);
        o.set("nops", long(ops.size()));
        o.set("ops", uniq(ops));
    }
    else  handleBonds(op, a, o);
}

}   // namespace

int main()
{
    // exceptions of ObjCryst would write files
    ObjCryst::ObjCrystException::verbose = false;
    ObjCryst::fpObjCrystInformUser = NoMessages;
    return drive([]() { resetBonds(); sources.clear(); }, handle);
}
