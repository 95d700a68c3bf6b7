// Conformance driver for Attrs.tla: named attributes of trees of objects.
#include "common.hpp"
#include <diffpy/Attributes.hpp>

using namespace verif;
using diffpy::Attributes;
using diffpy::BaseAttributesVisitor;

namespace {

class Node;
typedef std::shared_ptr<Node> NodePtr;

// setters by function, method with a number and method with a reference
class Node : public Attributes
{
    public:
        template <int S> double getm() const  { return v[S]; }
        template <int S> const double& getr() const  { return v[S]; }
        template <int S> void setm(double x)  { v[S] = x; }
        template <int S> void setr(const double& x)  { v[S] = x; }
        void accept(BaseAttributesVisitor& u)
        {
            u.visit(*this);
            for (auto& k : kids)  k->accept(u);
        }
        void accept(BaseAttributesVisitor& u) const
        {
            u.visit(*this);
            for (auto& k : kids)  const_cast<const Node&>(*k).accept(u);
        }
        template <int S> void add(const std::string& a, const std::string& g, const std::string& w);
        template <int S, class G> void addset(const std::string& a, G g, const std::string& w);
        double v[4] = {};
        std::vector<NodePtr> kids;
};

template <int S> double getf(const Node* n)  { return n->v[S]; }
template <int S> void setf(Node* n, const double& x)  { n->v[S] = x; }

template <int S, class G>
void Node::addset(const std::string& a, G g, const std::string& w)
{
    if (w == "no")  this->registerDoubleAttribute(a, this, g);
    else if (w == "function")  this->registerDoubleAttribute(a, this, g, &setf<S>);
    else if (w == "method")  this->registerDoubleAttribute(a, this, g, &Node::setm<S>);
    else  this->registerDoubleAttribute(a, this, g, &Node::setr<S>);
}

template <int S>
void Node::add(const std::string& a, const std::string& g, const std::string& w)
{
    if (g == "function")  this->addset<S>(a, &getf<S>, w);
    else if (g == "method")  this->addset<S>(a, &Node::getm<S>, w);
    else  this->addset<S>(a, &Node::getr<S>, w);
}

std::vector<NodePtr> nodes;
std::vector<std::string> names;

void reset()  { nodes.clear(); names.clear(); }

void handle(const std::string& op, Args& a, Obs& o)
{
    if (op == "nop")  return;
    if (op == "start")
    {
        nodes.clear();
        for (long n = a.i(); n > 0; --n)  nodes.push_back(NodePtr(new Node));
        names = a.ls();
        return;
    }
    Node& n = *nodes.at(a.i() - 1);
    if (op == "register")
    {
        std::string x = a.s();
        long s = a.i();
        std::string g = a.s(), w = a.s();
        if (s == 1)  n.add<1>(x, g, w);
        else if (s == 2)  n.add<2>(x, g, w);
        else  n.add<3>(x, g, w);
    }
    else if (op == "set")
    {
        std::string x = a.s();
        long y = a.i();
        o.set("kind", "");
        try { n.setDoubleAttr(x, y); }
        catch (diffpy::attributes::DoubleAttributeError&)  { o.set("kind", "DoubleAttributeError"); throw; }
    }
    else if (op == "number")  { long s = a.i(); n.v[s] = a.i(); }
    else if (op == "link")  n.kids.push_back(nodes.at(a.i() - 1));
    else if (op == "unlink")  n.kids.clear();
    else if (op == "assign")  n = *nodes.at(a.i() - 1);
    else if (op == "copy")
    {
        // the object keeps its place as a component of others
        Node c(*nodes.at(a.i() - 1));
        n.~Node();
        new (&n) Node(c);
    }
    else  VERIF_UNKNOWN_OP(op);
}

J obj(const std::vector<std::pair<std::string, J> >& v)
{
    J rv;
    rv.t = "{";
    for (auto& x : v)  rv.t += (rv.t.size() > 1 ? "," : "") + J(x.first).t + ":" + x.second.t;
    rv.t += "}";
    return rv;
}

void observe(Obs& o)
{
    J rv;
    rv.t = "[";
    for (auto& n : nodes)
    {
        const Node& c = *n;
        std::vector<std::pair<std::string, J> > get, has;
        for (auto& x : names)
        {
            J y;
            try { y = J(std::to_string(toint(c.getDoubleAttr(x)))); }
            catch (diffpy::attributes::DoubleAttributeError&)  { y = J("none"); }
            catch (std::logic_error&)  { y = J("duplicate"); }
            get.push_back({x, y});
            has.push_back({x, J(c.hasDoubleAttr(x))});
        }
        auto s = c.namesOfDoubleAttributes(), w = c.namesOfWritableDoubleAttributes();
        rv.t += (rv.t.size() > 1 ? "," : "") + obj({
            {"names", J(std::vector<std::string>(s.begin(), s.end()))},
            {"writable", J(std::vector<std::string>(w.begin(), w.end()))},
            {"get", obj(get)}, {"has", obj(has)}}).t;
    }
    rv.t += "]";
    o.set("nodes", rv);
}

}   // namespace

int main()
{
    return drive(reset, handle, observe);
}
