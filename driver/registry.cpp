// Conformance driver for Registry.tla
#include "common.hpp"
#include <boost/make_shared.hpp>
#include <diffpy/serialization.ipp>
#include <diffpy/HasClassRegistry.hpp>
#include <diffpy/HasClassRegistry.ipp>
#include <diffpy/srreal/AtomRadiiTable.hpp>
#include <diffpy/srreal/ScatteringFactorTable.hpp>
#include <diffpy/srreal/PDFBaseline.hpp>
#include <diffpy/srreal/PDFEnvelope.hpp>
#include <diffpy/srreal/PeakProfile.hpp>
#include <diffpy/srreal/PeakWidthModel.hpp>

class Dummy : public diffpy::HasClassRegistry<Dummy>
{
    public:
        Dummy() : value(0) { }
        double value;
};

template class diffpy::HasClassRegistry<Dummy>;

namespace {

template <char C> class DummyOf : public Dummy
{
    public:
        SharedPtr create() const  { return boost::make_shared< DummyOf<C> >(); }
        SharedPtr clone() const
        {
            auto rv = boost::make_shared< DummyOf<C> >();
            rv->value = value;
            return rv;
        }
        const std::string& type() const
        {
            static const std::string rv = std::string("t") + C;
            return rv;
        }
};

}   // namespace

using namespace verif;
using namespace diffpy::srreal;

namespace {

std::string list(const std::vector<std::string>& v)
{
    std::string t = "[";
    for (auto& x : v)  t += (t.size() > 1 ? "," : "") + x;
    return t + "]";
}

J raw(const std::string& t)
{
    J rv;
    rv.t = t;
    return rv;
}

// adjustable value of an object in units of 0.001
double getvalue(const Dummy& x)  { return x.value; }
void setvalue(Dummy& x, double v)  { x.value = v; }

double getvalue(const AtomRadiiTable& x)  { return x.lookup("A"); }
void setvalue(AtomRadiiTable& x, double v)  { x.setCustom("A", v); }

double getvalue(const ScatteringFactorTable& x)
{
    return x.getCustomSymbols().empty() ? 0 : x.lookup("A", 1);
}
void setvalue(ScatteringFactorTable& x, double v)  { x.setCustomAs("A", "C", v, 1); }

const char* attribute(const std::string& tp)
{
    return tp == "linear" ? "slope" : tp == "scale" ? "scale" : tp == "qresolution" ? "qdamp" :
        tp == "sphericalshape" ? "spdiameter" : tp == "stepcut" ? "stepcut" :
        tp == "constant" ? "width" : tp == "jeong" ? "delta1" :
        tp == "gaussian" || tp == "croppedgaussian" ? "peakprecision" : "";
}

template <class T> double getvalue(const T& x)
{
    const std::string n = attribute(x.type());
    return n.empty() ? 0 : x.getDoubleAttr(n);
}
template <class T> void setvalue(T& x, double v)  { x.setDoubleAttr(attribute(x.type()), v); }

template <class T> boost::shared_ptr<T> resaved(const boost::shared_ptr<T>& p)
{
    boost::shared_ptr<T> rv;
    diffpy::serialization_fromstring(rv, diffpy::serialization_tostring(p));
    return rv;
}
template <> boost::shared_ptr<Dummy> resaved(const boost::shared_ptr<Dummy>& p)  { return p->clone(); }

class AnyObject
{
    public:
        virtual ~AnyObject() { }
        virtual std::string type() const = 0;
        virtual long value() const = 0;
        virtual void set(long v) = 0;
        virtual std::shared_ptr<AnyObject> copy(const std::string& how) const = 0;
        virtual void registerType() const = 0;
};
typedef std::shared_ptr<AnyObject> AnyObjectPtr;

template <class T> class ObjectOf : public AnyObject
{
    public:
        explicit ObjectOf(const boost::shared_ptr<T>& p) : x(p) { }
        std::string type() const  { return x->type(); }
        long value() const  { return toint(getvalue(*x) * 1e3); }
        void set(long v)  { setvalue(*x, v / 1e3); }
        AnyObjectPtr copy(const std::string& how) const
        {
            return std::make_shared< ObjectOf<T> >(
                    how == "save" ? resaved(x) : how == "fresh" ? x->create() : x->clone());
        }
        void registerType() const  { x->registerThisType(); }
    private:
        boost::shared_ptr<T> x;
};

class AnyRegistry
{
    public:
        virtual ~AnyRegistry() { }
        virtual void restart() = 0;
        virtual AnyObjectPtr create(const std::string& n) = 0;
        virtual void add(const std::string& tp) = 0;
        virtual void alias(const std::string& n, const std::string& al) = 0;
        virtual long remove(const std::string& n) = 0;
        virtual bool known(const std::string& n) = 0;
        virtual std::string listing() = 0;
};

template <class T> class RegistryOf : public AnyRegistry
{
    public:
        explicit RegistryOf(const std::vector< boost::shared_ptr<T> >& more = {})
        {
            for (auto& p : more)  p->registerThisType();
            for (auto& n : T::getRegisteredTypes())
            {
                std0.push_back(T::createByType(n));
            }
        }
        void restart()
        {
            // start with the registry as it was found at first
            if (first)  { first = false; return; }
            for (auto& n : T::getRegisteredTypes())  T::deregisterType(n);
            for (auto& p : std0)  p->registerThisType();
        }
        AnyObjectPtr create(const std::string& n)
        {
            return std::make_shared< ObjectOf<T> >(T::createByType(n));
        }
        void add(const std::string& tp)
        {
            for (auto& p : std0)
            {
                if (p->type() != tp)  continue;
                p->create()->registerThisType();
                return;
            }
            throw std::runtime_error("standard type is missing");
        }
        void alias(const std::string& n, const std::string& al)  { T::aliasType(n, al); }
        long remove(const std::string& n)  { return T::deregisterType(n); }
        bool known(const std::string& n)  { return T::isRegisteredType(n); }
        std::string listing()
        {
            std::vector<std::string> types, aliases, made;
            for (auto& n : T::getRegisteredTypes())
            {
                types.push_back(J(n).t);
                addmade(made, n);
            }
            for (auto& na : T::getAliasedTypes())
            {
                aliases.push_back(list({J(na.first).t, J(na.second).t}));
                addmade(made, na.first);
            }
            return "{\"types\":" + list(types) + ",\"aliases\":" + list(aliases) + ",\"made\":" + list(made) + "}";
        }
    private:
        void addmade(std::vector<std::string>& made, const std::string& n)
        {
            std::string tp = "<refused>";
            long v = -1;
            try {
                ObjectOf<T> x(T::createByType(n));
                tp = x.type();
                v = x.value();
            }
            catch (std::exception&) { }
            made.push_back(list({J(n).t, J(tp).t, J(v).t}));
        }
        std::vector< boost::shared_ptr<T> > std0;
        bool first = true;
};

std::map<std::string, std::shared_ptr<AnyRegistry> > regs;
std::vector<std::string> used;
std::map<long, AnyObjectPtr> objs;
long nslot = 0;

void reset()
{
    for (auto& kv : regs)  kv.second->restart();
    objs.clear();
}

void handle(const std::string& op, Args& a, Obs& o)
{
    if (op == "start")
    {
        nslot = a.i();
        used = a.ls();
    }
    else if (op == "nop")  { }
    else if (op == "register")
    {
        auto r = regs.at(a.s());
        r->add(a.s());
    }
    else if (op == "registerobj")  objs.at(a.i())->registerType();
    else if (op == "alias")
    {
        auto r = regs.at(a.s());
        std::string n = a.s(), al = a.s();
        r->alias(n, al);
    }
    else if (op == "deregister")
    {
        auto r = regs.at(a.s());
        o.set("count", r->remove(a.s()));
    }
    else if (op == "create")
    {
        long k = a.i();
        auto r = regs.at(a.s());
        objs[k] = r->create(a.s());
    }
    else if (op == "known")
    {
        auto r = regs.at(a.s());
        o.set("known", r->known(a.s()));
    }
    else if (op == "set")
    {
        long k = a.i();
        objs.at(k)->set(a.i());
    }
    else if (op == "clone" || op == "save" || op == "fresh")
    {
        long k = a.i();
        AnyObjectPtr x = objs.at(a.i())->copy(op);
        objs[k] = x;
    }
    else  VERIF_UNKNOWN_OP(op);
}

void observe(Obs& o)
{
    std::string t = "{";
    for (auto& n : used)  t += (t.size() > 1 ? "," : "") + J(n).t + ":" + regs.at(n)->listing();
    o.set("all", raw(t + "}"));
    std::vector<std::string> v;
    for (long k = 1; k <= nslot; ++k)
    {
        if (!objs.count(k))  v.push_back("[\"\",0]");
        else  v.push_back(list({J(objs[k]->type()).t, J(objs[k]->value()).t}));
    }
    o.set("objs", raw(list(v)));
}

}   // namespace

int main()
{
    std::vector< boost::shared_ptr<Dummy> > dummies = {
        boost::make_shared< DummyOf<'a'> >(), boost::make_shared< DummyOf<'b'> >(), boost::make_shared< DummyOf<'c'> >()};
    regs["dummy"] = std::make_shared< RegistryOf<Dummy> >(dummies);
    regs["radii"] = std::make_shared< RegistryOf<AtomRadiiTable> >();
    regs["factors"] = std::make_shared< RegistryOf<ScatteringFactorTable> >();
    regs["baseline"] = std::make_shared< RegistryOf<PDFBaseline> >();
    regs["envelope"] = std::make_shared< RegistryOf<PDFEnvelope> >();
    regs["profile"] = std::make_shared< RegistryOf<PeakProfile> >();
    regs["width"] = std::make_shared< RegistryOf<PeakWidthModel> >();
    return drive(reset, handle, observe);
}
