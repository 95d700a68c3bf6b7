// Conformance driver for Ticker.tla: order of events.
#include "common.hpp"
#include <diffpy/EventTicker.hpp>
#include <diffpy/serialization.ipp>
#include <diffpy/serialization.hpp>

using namespace verif;
using diffpy::eventticker::EventTicker;

namespace {

std::vector<EventTicker> ticks;

void clicks(long n)
{
    EventTicker t;
    for (long k = 0; k < n; ++k)  t.click();
}

// all relational operators
long relation(const EventTicker& x, const EventTicker& y)
{
    return (x < y) + 2 * (x <= y) + 4 * (x > y) + 8 * (x >= y) + 16 * (x == y) + 32 * (x != y) +
        64 * (x.value() < y.value()) + 128 * (x.value() == y.value());
}

void reset()  { ticks.clear(); }

void handle(const std::string& op, Args& a, Obs& o)
{
    if (op == "nop")  return;
    if (op == "start")
    {
        ticks.resize(a.i());
        return;
    }
    if (op == "others")
    {
        clicks(a.i());
        return;
    }
    EventTicker& t = ticks.at(a.i() - 1);
    if (op == "new")  t = EventTicker();
    else if (op == "click")  t.click();
    else if (op == "update")  t.updateFrom(ticks.at(a.i() - 1));
    else if (op == "copy")
    {
        EventTicker c(ticks.at(a.i() - 1));
        t = c;
    }
    else if (op == "save")
    {
        EventTicker c;
        diffpy::serialization_fromstring(c, diffpy::serialization_tostring(ticks.at(a.i() - 1)));
        t = c;
    }
    else  VERIF_UNKNOWN_OP(op);
}

void observe(Obs& o)
{
    std::vector<std::vector<long> > m;
    for (auto& x : ticks)
    {
        m.push_back({});
        for (auto& y : ticks)  m.back().push_back(relation(x, y));
    }
    o.set("order", J(m));
}

// numbers of events before and between loads, followed by saved tickers
std::string save(Args& a)
{
    std::ostringstream rv;
    long n0 = a.i(), n1 = a.i();
    rv << n0 << " " << n1 << " " << ticks.size() << "\n";
    for (auto& t : ticks)
    {
        std::string s = diffpy::serialization_tostring(t);
        rv << s.size() << " " << s;
    }
    return rv.str();
}

void load(const std::string& archive, Obs& o)
{
    std::istringstream in(archive);
    long n0, n1, n;
    in >> n0 >> n1 >> n;
    clicks(n0);
    for (long k = 0; k < n; ++k)
    {
        size_t len;
        in >> len;
        in.get();
        std::string s(len, '\0');
        in.read(&s[0], len);
        EventTicker t;
        diffpy::serialization_fromstring(t, s);
        ticks.push_back(t);
        clicks(n1);
    }
}

}   // namespace

int main()
{
    return drive(reset, handle, observe, save, load);
}
