// Lines.tla: reading of data files
#include "common.hpp"
#include <sstream>
#include <diffpy/runtimepath.hpp>

using namespace verif;
using diffpy::runtimepath::LineReader;

static LineReader reader;
static std::istringstream in;

static void reset()
{
    reader = LineReader();
    in.clear();
    in.str("");
}

static void handle(const std::string& op, Args& a, Obs& o)
{
    if (op == "nop")  return;
    if (op == "open")
    {
        std::string text;
        std::vector<std::string> ls = a.ls();
        bool closed = a.b();
        for (size_t k = 0; k < ls.size(); ++k)  text += (k ? "\n" : "") + ls[k];
        if (closed && !ls.empty())  text += "\n";
        in.clear();
        in.str(text);
    }
    else if (op == "read")
    {
        in >> reader;
        o.set("good", bool(in));
    }
    else if (op == "separator")  reader.separator = a.s();
    else if (op == "mark")  reader.commentmark = a.s();
    else if (op == "error")
    {
        std::string f = a.s(), d = a.s();
        std::string msg = reader.format_error(f, d).what();
        std::string rest = msg;
        size_t p = rest.find(f);
        if (p != std::string::npos)  rest.erase(p, f.size());
        std::string number;
        for (char c : rest)  if (isdigit(c))  number += c;
        o.set("names", J(std::vector<J>{J(p != std::string::npos), J(number == std::to_string(reader.lineno)), J(msg.find(d) != std::string::npos)}));
    }
    else if (op != "start")  VERIF_UNKNOWN_OP(op);
    o.set("line", reader.line);
    o.set("words", reader.words);
    o.set("count", long(reader.wcount()));
    o.set("blank", reader.isblank());
    o.set("comment", reader.iscomment());
    o.set("ignored", reader.isignored());
    o.set("no", long(reader.lineno));
}

int main()  { return drive(reset, handle); }
