// SOURCES: factory_filter filter
// Filter types by name: registration, lookup, removal, dynamic loading.
#include "pbt.hpp"
#include "factory_filter.hpp"
#include <metaproxy/filter.hpp>
#include <fstream>
#include <iostream>
#include <sys/stat.h>
using namespace pbt;
namespace mp = metaproxy_1;
template<int N> struct F : mp::filter::Base {
    void process(mp::Package &) const {}
    void configure(const xmlNode *, bool, const char *) {}
    static mp::filter::Base *make() { made++; return new F<N>; }
    static int made;
};
template<int N> int F<N>::made = 0;
typedef mp::filter::Base *(*Cr)();
static Cr creators[] = { F<0>::make, F<1>::make, F<2>::make, F<3>::make };
static int kind(mp::filter::Base *b)
{
    if (dynamic_cast<F<0> *>(b)) return 0;
    if (dynamic_cast<F<1> *>(b)) return 1;
    if (dynamic_cast<F<2> *>(b)) return 2;
    if (dynamic_cast<F<3> *>(b)) return 3;
    return -1;
}
// types found in the program itself when loaded dynamically
extern "C" {
    struct metaproxy_1_filter_struct metaproxy_1_filter_in0 = { 0, "in0", F<0>::make };
    struct metaproxy_1_filter_struct metaproxy_1_filter_in3 = { 0, "in3", F<3>::make };
}
static std::string libdir;      // has metaproxy_filter_so1.so (kind -1), and a broken one

int main(int argc, char **argv)
{
    Check c; c.id = "C08";
    // a loadable module, built from the tree's own header
    char t[] = "/tmp/pbt.modXXXXXX";
    if (mkdtemp(t)) libdir = t;
    {
        std::ofstream f((libdir + "/m.cpp").c_str());
        f << "#include <metaproxy/filter.hpp>\n"
             "struct S : metaproxy_1::filter::Base { void process(metaproxy_1::Package &) const {} void configure(const xmlNode *, bool, const char *) {} };\n"
             "static metaproxy_1::filter::Base *mk() { return new S; }\n"
             "extern \"C\" { struct metaproxy_1_filter_struct metaproxy_1_filter_so1 = { 0, \"so1\", mk }; }\n";
    }
    const char *repo = getenv("VERIF_REPO");
    std::string inc = std::string(repo ? repo : "/repo") + "/include";
    std::string cmd = "g++ -w -shared -fPIC -I" + inc + " $(pkg-config --cflags libxml-2.0) -o " + libdir + "/metaproxy_filter_so1.so " + libdir + "/m.cpp >/dev/null 2>&1";
    bool have_so = system(cmd.c_str()) == 0;
    { std::ofstream f((libdir + "/metaproxy_filter_broken.so").c_str()); f << "not a library"; }
    if (have_so) { cmd = "cp " + libdir + "/metaproxy_filter_so1.so " + libdir + "/metaproxy_filter_nosym.so"; if (system(cmd.c_str())) have_so = false; }

    static bool so = have_so;
    c.add("history", 600000, 3000000, "a type is registered, then dropped or registered again, then created", [](Ctx &x) {
        std::cout.setstate(std::ios::failbit);
        static const std::vector<std::string> names = {"a", "b", "ab", "A", "", "log", "in0", "in3", "so1", "nosuch", "broken", "nosym", "a b", "in0x", "in"};
        mp::FactoryFilter f; std::map<std::string, int> model; bool again = false;     // kind; -1 loaded module
        int n = 1 + x.len(40);
        for (int i = 0; i < n; i++) {
            std::string nm = x.pick(names);
            switch (x.weighted({4, 2, 4, 2, 3})) {
            case 0: {
                int k = x.range(0, 3); bool fresh = !model.count(nm);
                x.desc << " add(" << nm << "," << k << ")";
                x.eq(f.add_creator(nm, creators[k]), fresh, "registering " + q(nm) + " succeeds iff the name is free");
                if (fresh) model[nm] = k; else again = true;
                break; }
            case 1:
                x.desc << " drop(" << nm << ")";
                x.eq(f.drop_creator(nm), model.erase(nm) == 1, "dropping " + q(nm) + " succeeds iff it was there");
                again = true; break;
            case 2: {
                x.desc << " create(" << nm << ")";
                mp::filter::Base *b = 0; bool nf = false; std::string what;
                try { b = f.create(nm); } catch (mp::FactoryFilter::NotFound &e) { nf = true; what = e.what(); }
                if (!model.count(nm)) {
                    bool made = b != 0; delete b;
                    x.check(nf && !made, "creating unknown type " + q(nm) + " must be refused");
                    x.check(what.find(nm) != std::string::npos, "message names the type: " + what);
                } else {
                    x.check(b != 0, "type " + q(nm) + " exists but was not created");
                    int k = kind(b);
                    mp::filter::Base *b2 = f.create(nm); bool distinct = b2 != b; delete b; delete b2;
                    x.eq(k, model[nm], "kind of filter created for " + q(nm));
                    x.check(distinct, "every creation makes a new filter");
                }
                break; }
            case 3: x.eq(f.exist(nm), model.count(nm) > 0, "exist " + q(nm)); break;
            case 4: {
                x.desc << " load(" << nm << ")";
                if (nm.empty()) break;
                bool known = model.count(nm) > 0; int k = nm == "in0" ? 0 : nm == "in3" ? 3 : nm == "so1" ? -1 : -2;
                if (nm == "so1" && !so) break;
                std::string path = x.chance(1, 5) && nm != "so1" ? "/nonexistent" : libdir;
                bool r = f.add_creator_dl(nm, path);
                x.eq(r, known || k != -2, "loading " + q(nm));
                if (!known && k != -2) model[nm] = k;
                break; }
            }
            for (auto &nn : names) x.eq(f.exist(nn), model.count(nn) > 0, "exist " + q(nn));
        }
        x.nontrivial = again && model.size() > 0;
    });
    int rc = run(c, argc, argv);
    for (const char *n : {"/m.cpp", "/metaproxy_filter_so1.so", "/metaproxy_filter_broken.so", "/metaproxy_filter_nosym.so"}) unlink((libdir + n).c_str());
    rmdir(libdir.c_str());
    return rc;
}
