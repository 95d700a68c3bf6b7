// Conformance driver for DataPath.tla: data directories and loading of tables.
// A behaviour is executed with a copy of the library, which is placed in a
// scratch directory next to (or without) directories of data.
#include "common.hpp"
#include <cstring>
#include <fstream>
#include <climits>
#include <dirent.h>
#include <dlfcn.h>
#include <sys/stat.h>
#include <diffpy/runtimepath.hpp>
#include <diffpy/srreal/scatteringfactordata.hpp>
#include <diffpy/srreal/BVParametersTable.hpp>

using namespace verif;

namespace {

std::string base, realdata;

void must(bool ok, const std::string& what)
{
    if (ok)  return;
    std::cerr << "driver: " << what << " failed\n";
    program().leave();
    std::_Exit(97);
}

// remove anything in the scratch directory, links are not followed
void removeall(const std::string& p)
{
    if (base.size() < 8 || p.compare(0, base.size(), base) || base.find("verif-data-") == std::string::npos)  return;
    struct stat st;
    if (lstat(p.c_str(), &st))  return;
    if (S_ISDIR(st.st_mode))
    {
        std::vector<std::string> names;
        DIR* d = opendir(p.c_str());
        if (!d)  return;
        while (struct dirent* e = readdir(d))  names.push_back(e->d_name);
        closedir(d);
        for (auto& n : names)  if (n != "." && n != "..")  removeall(p + "/" + n);
        rmdir(p.c_str());
    }
    else  unlink(p.c_str());
}
void cleanup()
{
    if (!base.empty())  removeall(base);
    base.clear();
}

std::string place(const std::string& p)
{
    if (p == "i")  return base + "/inst/share/diffpy/libdiffpy-verif";
    if (p == "s")  return base + "/srct/src/runtime";
    return base + "/" + p;
}
std::string token(const std::string& dir)
{
    for (std::string p : {"a", "b", "c", "i", "s"})  if (place(p) == dir)  return p;
    return dir;
}

const char* datafile(const std::string& t)
{
    return t == "xray" ? "f0_WaasKirf.dat" : t == "ions" ? "ionlist.dat" : t == "neutron" ? "nsftable.dat" : "bvparm2011sel.cif";
}

// valid data with other values, and several kinds of errors after valid data
std::string content(const std::string& t, const std::string& kind)
{
    std::ostringstream f;
    int bad = kind == "other" ? 0 : kind[3] - '0';
    if (t == "xray")
    {
        f << "#F any\n#S  6  C\n#N 11\n#L a1 a2 a3 a4 a5 c b1 b2 b3 b4 b5\n 1 0.5 1 0 0.5 0.5 1 1 1 1 1\n";
        const char* B[] = {"", "#S 7\n", "#L a1\n 1 1 1 1 1 1 1 1 1 1 1\n", "#S 7 N\n#L a1\n 1 1 1 1 1 1 1 1 1 1\n", "#S 7 N\n#L a1\n 1 1 1 1 1 x 1 1 1 1 1\n",
            "#S 6 C\n#L a1\n 1 1 1 1 1 1 1 1 1 1 1\n", "#S 7 N\n#L a1\n"};
        f << B[bad];
    }
    else if (t == "ions")
    {
        f << "# other\nC 7 -4 +2 +4\n";
        const char* B[] = {"", "O\n", "O x\n", "", "+1 O\n", "O O O\n", ""};
        f << B[bad];
        for (int k = 0; k < (bad == 3 ? 300 : bad == 6 ? 442 : 600); ++k)  f << "X" << char('a' + k % 26) << char('a' + k / 26) << " " << k << "\n";
    }
    else if (t == "neutron")
    {
        f << "# other\n0-n-1,618 S,1/2,-37.0(6),0,-37.0(6),,43.01(2),,43.01(2),0\n1-H-1,99.985,1/2,-3.7423(12),10.817(5),-47.420(14),+/-,1.7583(10),80.27(6),82.03(6),0.3326(7)\n";
        if (bad != 6)  f << "1-H-2,0.0149,1,6.674(6),9.53(3),0.975(60),,5.592(7),2.05(3),7.64(3),0.000519(7)\n";
        f << "1-H-3,12.26 Y,1/2,4.792(27),4.18(15),6.56(37),,2.89(3),0.14(4),3.03(5),<6.0E-6\n6-C,,,1.25,,,,5.551(2),0.001(4),5.551(3),0.00350(7)\n";
        const char* B[] = {"", "7-N,,,1.5,,,,1,1,1\n", "7-,,,1.5,,,,1,1,1,1\n", "7-N,,,x,,,,1,1,1,1\n", "6-C,,,1.5,,,,1,1,1,1\n", "7-N,,,1.5,,,,1,1,1,1,1\n", ""};
        f << B[bad];
    }
    else
    {
        f << "#\nloop_\n _valence_param_atom_1\n _valence_param_B\n _valence_param_details\n\nAc 3   O  -2    3.125     0.37     b   ?\n";
        const char* B[] = {"", "Ac 3 F -1 2.13 0.37\n", "Ac x F -1 2.13 0.37 b ?\n", "Ac\n", "Ac 3 F x 2.13 0.37 b ?\n", "Ac 3 F -1 x 0.37 b\n", "Ac 3 F -1 2.13 x b\n"};
        f << B[bad] << "Al 3   F  -1    1.5     0.37     b   ?\n";
    }
    return f.str();
}

void makedir(const std::string& p)
{
    must(0 == mkdir(p.c_str(), 0755), "mkdir " + p);
}

std::string textof(const std::string& f, const std::string& x, const std::string& y)
{
    std::string p = base + "/" + x;
    if (f == "empty")  return "";
    if (f == "root")  return "/";
    if (f == "roots")  return "///";
    if (f == "abs")  return p;
    if (f == "slash")  return p + "/";
    if (f == "slashes")  return p + "///";
    if (f == "dot")  return p + "/.";
    if (f == "rel")  return x;
    if (f == "relslash")  return x + "/";
    if (f == "dotrel")  return "./" + x;
    if (f == "double")  return "//" + p;
    if (f == "inner")  return base + "//" + x;
    if (f == "below")  return p + "/below";
    if (f == "missing")  return base + "/missing";
    if (f == "dotdot")  return p + "/../" + y;
    VERIF_UNKNOWN_OP(f);
}

void handle(const std::string& op, Args& a, Obs& o)
{
    if (op == "nop")  return;
    if (op == "env")
    {
        std::string f = a.s(), x = a.s(), y = a.s();
        if (f == "unset")  unsetenv("DIFFPYRUNTIME");
        else  setenv("DIFFPYRUNTIME", textof(f, x, y).c_str(), 1);
    }
    else if (op == "query")
    {
        std::string f = a.s();
        std::string p = diffpy::runtimepath::datapath(f);
        if (f.empty())  o.set("file", "");
        else
        {
            size_t k = p.rfind('/');
            o.set("file", k == std::string::npos ? "?" : p.substr(k + 1));
            p.erase(k == 0 ? 1 : k);
            if (p == "//")  p = "/";
            // the directory itself is the same
            std::string q = diffpy::runtimepath::datapath("");
            if (p != q && !(p == "" && q == "/"))  p = p + " <> " + q;
        }
        o.set("place", token(p));
    }
    else if (op == "dir" || op == "file" || op == "remove" || op == "link")
    {
        std::string p = place(a.s());
        removeall(p);
        if (op == "file")  std::ofstream(p.c_str()) << "text\n";
        else if (op == "link")  must(0 == symlink(place(a.s()).c_str(), p.c_str()), "symlink");
        else if (op == "dir")
        {
            makedir(p);
            for (std::string t : {"xray", "ions", "neutron", "valence"})
            {
                std::string k = a.s(), name = datafile(t), f = p + "/" + name;
                if (k == "none")  continue;
                if (k == "good")  must(0 == symlink((realdata + "/" + name).c_str(), f.c_str()), "symlink");
                else  std::ofstream(f.c_str()) << content(t, k);
            }
        }
    }
    else if (op == "lookup")
    {
        using namespace diffpy::srreal;
        std::string t = a.s();
        if (t == "xray")  o.set("value", toint(1e6 * fxrayatq("C", 0)));
        else if (t == "ions")  o.set("value", long(electronnumber("C")));
        else if (t == "neutron")  o.set("value", toint(1e4 * bcneutron("C")));
        else  o.set("value", toint(1e3 * BVParametersTable().lookup("Ac3+", "O2-").mRo));
    }
    else  VERIF_UNKNOWN_OP(op);
}

// prepare the scratch directory for a copy of the library
std::string save(Args& a)
{
    std::string how = a.s();
    Dl_info lib;
    must(dladdr(reinterpret_cast<void*>(diffpy::runtimepath::datapath), &lib), "dladdr");
    char file[PATH_MAX + 1], real[PATH_MAX + 1];
    must(realpath(lib.dli_fname, file), "realpath of the library");
    std::string dir = file, name = dir.substr(dir.rfind('/') + 1);
    dir = dir.substr(0, dir.rfind('/')) + "/verif-data-XXXXXX";
    must(mkdtemp(&dir[0]), "mkdtemp");
    must(realpath(dir.c_str(), real), "realpath");
    base = real;
    for (std::string p : {"/inst", "/inst/lib", "/inst/share", "/inst/share/diffpy", "/srct", "/srct/build", "/srct/build/fast", "/srct/src"})
        makedir(base + p);
    std::string in = "/inst/lib", src = "/srct/build/fast";
    must(0 == link(file, (base + (how == "src" || how == "linked" ? src : in) + "/" + name).c_str()), "link");
    if (how == "linked")  must(0 == symlink((base + src + "/" + name).c_str(), (base + in + "/" + name).c_str()), "symlink");
    program().libs = how == "rel" ? "inst/lib" : base + (how == "src" ? src : in);
    program().cwd = base;
    std::string data = getenv("DIFFPYRUNTIME") ? getenv("DIFFPYRUNTIME") : "";
    must(!data.empty() && realpath(data.c_str(), real), "realpath of data");
    return base + "\n" + real + "\n";
}

void load(const std::string& archive, Obs& o)
{
    std::istringstream in(archive);
    std::getline(in, base);
    std::getline(in, realdata);
    unsetenv("DIFFPYRUNTIME");
    Dl_info lib;
    must(dladdr(reinterpret_cast<void*>(diffpy::runtimepath::datapath), &lib), "dladdr");
    must(std::string(lib.dli_fname).find("verif-data") != std::string::npos || 0 == strncmp(lib.dli_fname, "inst/", 5), "use of the copied library");
}

}   // namespace

int main()
{
    program().cleanup = cleanup;
    int rv = drive(cleanup, handle, nullptr, save, load);
    if (!getenv("VERIF_SUCCESSOR"))  cleanup();
    return rv;
}
