// Common parts of the conformance drivers.
//
// A driver reads one operation per line (whitespace separated tokens, lists
// are preceded by their length) and writes one JSON object per operation.
// "reset" starts a new behaviour.  All numbers in the output are integers,
// a value that is not an integer within 1e-6 is written as NONINT.
#ifndef VERIF_COMMON_HPP_INCLUDED
#define VERIF_COMMON_HPP_INCLUDED

#include <algorithm>
#include <csignal>
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>

namespace verif {

const long NONINT = -77777777;

inline long toint(double x, double tol=1e-6)
{
    if (!(std::fabs(x) < 1e9))  return NONINT;
    double r = std::floor(x + 0.5);
    if (std::fabs(x - r) > tol)  return NONINT;
    return long(r);
}

class Args
{
    public:
        explicit Args(const std::string& line) : ss(line) { }
        long i()
        {
            long rv;
            if (!(ss >> rv))  bad();
            return rv;
        }
        bool b()  { return i() != 0; }
        std::string s()
        {
            std::string rv;
            if (!(ss >> rv))  bad();
            if (rv == "<empty>")  rv = "";
            for (auto& c : rv)
            {
                if (c == '\x1f')  c = ' ';
                if (c == '\x1e')  c = '\t';
                if (c == '\x1d')  c = '\n';
            }
            return rv;
        }
        std::vector<std::string> ls()
        {
            long n = i();
            std::vector<std::string> rv;
            for (long k = 0; k < n; ++k)  rv.push_back(s());
            return rv;
        }
        std::vector<long> li()
        {
            long n = i();
            std::vector<long> rv;
            for (long k = 0; k < n; ++k)  rv.push_back(i());
            return rv;
        }
    private:
        void bad()
        {
            std::cerr << "driver: malformed arguments\n";
            std::_Exit(97);
        }
        std::istringstream ss;
};

// minimal JSON writer
class J
{
    public:
        J() { }
        J(long x) : t(std::to_string(x)) { }
        J(int x) : t(std::to_string(x)) { }
        J(unsigned long x) : t(std::to_string(x)) { }
        J(bool x) : t(x ? "true" : "false") { }
        J(double x)
        {
            char buf[40];
            snprintf(buf, sizeof(buf), "%.17g", x);
            t = std::isfinite(x) ? buf : "\"notfinite\"";
        }
        J(const char* x)  { str(x); }
        J(const std::string& x)  { str(x); }
        template <class T> J(const std::vector<T>& v)
        {
            t = "[";
            bool first = true;
            for (size_t k = 0; k < v.size(); ++k)
            {
                if (!first)  t += ",";
                first = false;
                t += J(T(v[k])).t;
            }
            t += "]";
        }
        std::string t = "null";
    private:
        void str(const std::string& x)
        {
            t = "\"";
            for (char c : x)
            {
                if (c == '"' || c == '\\')  { t += '\\'; t += c; }
                else if ((unsigned char)(c) < 32)
                {
                    char buf[8];
                    snprintf(buf, sizeof(buf), "\\u%04x", c);
                    t += buf;
                }
                else  t += c;
            }
            t += "\"";
        }
};

class Obs
{
    public:
        void set(const std::string& k, const J& v)  { m[k] = v.t; }
        std::string str() const
        {
            std::string rv = "{";
            for (auto& kv : m)
            {
                if (rv.size() > 1)  rv += ",";
                rv += "\"" + kv.first + "\":" + kv.second;
            }
            return rv + "}";
        }
    private:
        std::map<std::string, std::string> m;
};

inline std::string excname(const std::exception& e)
{
    if (dynamic_cast<const std::invalid_argument*>(&e))  return "invalid_argument";
    if (dynamic_cast<const std::out_of_range*>(&e))  return "out_of_range";
    if (dynamic_cast<const std::domain_error*>(&e))  return "domain_error";
    if (dynamic_cast<const std::length_error*>(&e))  return "length_error";
    if (dynamic_cast<const std::logic_error*>(&e))  return "logic_error";
    if (dynamic_cast<const std::range_error*>(&e))  return "range_error";
    if (dynamic_cast<const std::overflow_error*>(&e))  return "overflow_error";
    if (dynamic_cast<const std::runtime_error*>(&e))  return "runtime_error";
    return "exception";
}

// where the successor looks for libraries and what to do when it fails
struct Program
{
    std::string libs, cwd;
    std::function<void()> cleanup;
    void leave()  { if (cleanup)  cleanup(); }
};
inline Program& program()
{
    static Program rv;
    return rv;
}

// Continue a behaviour in a fresh process, which gets the saved objects.
class Successor
{
    public:
        explicit Successor(const std::string& archive)
        {
            int in[2], out[2];
            if (pipe(in) || pipe(out))  fail("pipe");
            pid = fork();
            if (pid < 0)  fail("fork");
            if (pid == 0)
            {
                dup2(in[0], 0);
                dup2(out[1], 1);
                for (int fd : {in[0], in[1], out[0], out[1]})  close(fd);
                setenv("VERIF_SUCCESSOR", "1", 1);
                const Program& p = program();
                if (!p.cwd.empty() && chdir(p.cwd.c_str()))  std::_Exit(97);
                if (!p.libs.empty())  setenv("LD_LIBRARY_PATH", p.libs.c_str(), 1);
                execl("/proc/self/exe", "driver", (char*) 0);
                std::_Exit(97);
            }
            close(in[0]);
            close(out[1]);
            to = fdopen(in[1], "w");
            from = fdopen(out[0], "r");
            fprintf(to, "%lu\n", (unsigned long) archive.size());
            fwrite(archive.data(), 1, archive.size(), to);
        }
        // send one line and copy the answer
        void forward(const std::string& line)
        {
            fprintf(to, "%s\n", line.c_str());
            answer();
        }
        void answer()
        {
            fflush(to);
            std::string rv;
            int c;
            while ((c = getc(from)) != EOF && c != '\n')  rv += char(c);
            if (c == EOF)  end();
            std::cout << rv << "\n";
            std::cout.flush();
            if (c == EOF)  { program().leave(); std::_Exit(98); }
        }
        void end()
        {
            fclose(to);
            fclose(from);
            int status;
            waitpid(pid, &status, 0);
            if (WIFSIGNALED(status))
            {
                program().leave();
                std::cout.flush();
                signal(WTERMSIG(status), SIG_DFL);
                raise(WTERMSIG(status));
            }
            if (WEXITSTATUS(status))  { program().leave(); std::_Exit(WEXITSTATUS(status)); }
        }
    private:
        void fail(const char* what)
        {
            std::cerr << "driver: " << what << " failed\n";
            std::_Exit(97);
        }
        pid_t pid;
        FILE* to;
        FILE* from;
};

// Driver main loop.  The handler executes one operation and fills obs,
// the observer adds the state that is visible after every operation.
// The operation "handover" saves all objects and restores them in a fresh
// process that executes the rest of the behaviour.
inline int drive(std::function<void()> reset,
        std::function<void(const std::string&, Args&, Obs&)> handle,
        std::function<void(Obs&)> observe = nullptr,
        std::function<std::string(Args&)> save = nullptr,
        std::function<void(const std::string&, Obs&)> load = nullptr)
{
    std::string line;
    std::ios::sync_with_stdio(false);
    std::unique_ptr<Successor> next;
    auto finish = [&](Obs& o) {
        if (observe)  observe(o);
        std::cout << o.str() << "\n";
        std::cout.flush();
    };
    auto attempt = [&](Obs& o, std::function<void()> f) {
        try {
            f();
            o.set("exc", "");
            o.set("refused", false);
        }
        catch (const std::exception& e) {
            o.set("exc", excname(e));
            o.set("refused", true);
            if (getenv("VERIF_WHAT"))  o.set("what", e.what());
        }
    };
    if (getenv("VERIF_SUCCESSOR"))
    {
        std::getline(std::cin, line);
        std::string archive(std::stoul(line), '\0');
        std::cin.read(&archive[0], archive.size());
        Obs o;
        attempt(o, [&] { load(archive, o); });
        finish(o);
    }
    while (std::getline(std::cin, line))
    {
        Args a(line);
        std::string op = a.s();
        if (op == "reset")
        {
            if (next)  next->end();
            next.reset();
            reset();
            std::cout << "RESET\n";
            std::cout.flush();
            continue;
        }
        if (next)
        {
            next->forward(line);
            continue;
        }
        Obs o;
        if (op == "handover" && save)
        {
            std::string archive;
            attempt(o, [&] { archive = save(a); });
            if (archive.empty())
            {
                finish(o);
                continue;
            }
            next.reset(new Successor(archive));
            next->answer();
            continue;
        }
        attempt(o, [&] { handle(op, a, o); });
        finish(o);
    }
    if (next)  next->end();
    return 0;
}

#define VERIF_UNKNOWN_OP(op) \
    do { std::cerr << "driver: unknown operation " << op << "\n"; \
         std::_Exit(97); } while (false)

}   // namespace verif

#endif
