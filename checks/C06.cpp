// SOURCES: router_flexml router_chain factory_filter xmlutil filter package origin session
// SHIM: core
// Routing: packages visit exactly the filters of their route, in order.
#include "pbt.hpp"
#include "router_flexml.hpp"
#include <metaproxy/router_chain.hpp>
#include <metaproxy/package.hpp>
#include <yaz/log.h>
#include <thread>
#include "../models/config_gen.hpp"
#include "../models/test_filter.hpp"
using namespace pbt;
namespace mp = metaproxy_1;
extern "C" { struct metaproxy_1_filter_struct metaproxy_1_filter_dyn1 = { 0, "dyn1", tf::mk_dyn1 }; }
static void quiet(int, const char *, void *) {}

struct Setup {
    cg::P conf; std::string xml; cg::Meaning m; mp::FactoryFilter f; std::unique_ptr<mp::RouterFleXML> r;
    std::map<std::string, std::map<std::string, int> > order;
    Setup(Ctx &x) {
        cg::Gen g{x}; conf = g.config(); cg::xml(x, conf, xml);
        cg::Validator v; m = v.run(conf);
        tf::world() = tf::World(); tf::fill(f);
        r.reset(new mp::RouterFleXML(xml, f, false));
        // labels identify filters: map model filter -> instance
        for (auto t : tf::world().made) if (t->label.empty()) x.fail("generator: label");
    }
    std::string name(const cg::FP &p) { return p->label; }
};
static std::string nm(const mp::filter::Base *b) { return b ? ((const tf::Rec *) b)->label : "-"; }

// model position
struct Pos { const std::vector<cg::FP> *route; size_t i; };
static std::string step(const cg::Meaning &m, Pos &p, const char *route)
{
    if (route && *route) {
        auto it = m.routes.find(route);
        if (it == m.routes.end()) return "-";
        p.route = &it->second; p.i = 0;
    }
    if (p.i >= p.route->size()) return "-";
    return (*p.route)[p.i++]->label;
}
static const std::vector<std::string> rn = {"start", "r1", "r2", "r3", "start2", "Start", "nosuch", "star"};

struct Act { char k; std::string route; };
typedef std::map<std::string, std::vector<Act> > Script;
static Script script(Ctx &x, const std::vector<std::string> &labels)
{
    Script s;
    for (auto &l : labels) {
        int n = x.weighted({1, 6, 2, 1});
        for (int i = 0; i < n; i++) {
            Act a; a.k = "MMMRCFX"[x.range(0, 6)];
            if (a.k == 'R' || (a.k == 'C' && x.coin()) || (a.k == 'F' && x.coin())) a.route = x.pick(rn);
            s[l].push_back(a);
        }
    }
    return s;
}
static const int LIMIT = 120;
struct Run { std::vector<std::string> trace; int steps = 0; };

static void real_process(const Script &s, Run &run, const tf::Rec *f, mp::Package &p)
{
    run.trace.push_back(f->label + "@" + std::to_string(p.session().id() & 0xff) + (p.session().is_closed() ? "c" : ""));
    auto it = s.find(f->label); if (it == s.end()) return;
    for (auto &a : it->second) {
        if (++run.steps > LIMIT) return;
        switch (a.k) {
        case 'M': p.move(); break;
        case 'R': p.move(a.route); break;
        case 'X': p.session().close(); break;
        case 'C': case 'F': {
            mp::Package q2(p.session(), p.origin());
            if (a.k == 'C') q2.copy_route(p); else q2.copy_filter(p);
            if (a.route.empty()) q2.move(); else q2.move(a.route);
            break; }
        }
        run.trace.push_back("." + f->label + (p.session().is_closed() ? "c" : ""));
    }
}
struct MPack { Pos pos; int id; bool closed; };
static void model_move(const cg::Meaning &m, const Script &s, Run &run, MPack &p, const std::string &route)
{
    std::string l = step(m, p.pos, route.c_str());
    if (l == "-") return;
    run.trace.push_back(l + "@" + std::to_string(p.id & 0xff) + (p.closed ? "c" : ""));
    auto it = s.find(l); if (it == s.end()) return;
    for (auto &a : it->second) {
        if (++run.steps > LIMIT) return;
        switch (a.k) {
        case 'M': model_move(m, s, run, p, ""); break;
        case 'R': model_move(m, s, run, p, a.route); break;
        case 'X': p.closed = true; break;
        case 'C': case 'F': { MPack q2 = p; model_move(m, s, run, q2, a.route); break; }
        }
        run.trace.push_back("." + l + (p.closed ? "c" : ""));
    }
}
static std::string join(const std::vector<std::string> &v) { std::string r; for (auto &s : v) r += s + " "; return r; }

int main(int argc, char **argv)
{
    yaz_log_set_handler(quiet, 0); yaz_log_init_level(0);
    Check c; c.id = "C06";
    c.add("positions", 160000, 1500000, "at least two routes and three moves that reach a filter", [](Ctx &x) {
        Setup s(x);
        x.desc << s.xml << " ops:";
        std::vector<std::pair<mp::RoutePos *, Pos> > ps;
        struct Clean { std::vector<std::pair<mp::RoutePos *, Pos> > &p; ~Clean() { for (auto &q2 : p) delete q2.first; } } cl{ps};
        auto fresh = [&] { mp::RoutePos *p = s.r->createpos(); x.check(p, "createpos"); ps.push_back({p, Pos{&s.m.routes[s.m.start], 0}}); };
        fresh();
        int hits = 0, n = 1 + x.len(40);
        for (int i = 0; i < n; i++) {
            size_t k = x.range(0, (int) ps.size() - 1);
            switch (x.weighted({8, 3, 1, 2, 1})) {
            case 0: case 1: case 2: {
                std::string route; const char *arg = 0;
                int w = x.range(0, 9);
                if (w >= 7) { route = x.pick(rn); arg = route.c_str(); } else if (w == 6) arg = "";
                x.desc << " " << k << ":" << (arg ? arg : "next");
                std::string got = nm(ps[k].first->move(arg)), want = step(s.m, ps[k].second, arg);
                x.eq(got, want, "filter at position");
                hits += want != "-"; break; }
            case 3: if (ps.size() < 6) { x.desc << " clone" << k; mp::RoutePos *p = ps[k].first->clone(); Pos mpz = ps[k].second; ps.push_back({p, mpz}); } break;
            case 4: if (ps.size() < 6) { x.desc << " new"; fresh(); } break;
            }
        }
        x.nontrivial = s.m.routes.size() > 1 && hits >= 3;
    });
    c.add("packages", 160000, 1500000, "the package passes three or more filters", [](Ctx &x) {
        Setup s(x);
        std::vector<std::string> labels; for (auto &f : s.m.all) labels.push_back(f->label);
        Script sc = script(x, labels);
        x.desc << s.xml << " script:";
        for (auto &e : sc) { x.desc << " " << e.first << "="; for (auto &a : e.second) x.desc << a.k << a.route << ","; }
        Run real, model;
        tf::world().on_process = [&](const tf::Rec *f, mp::Package &p) { real_process(sc, real, f, p); };
        mp::Session ses; mp::Origin org;
        {
            mp::Package p(ses, org); p.router(*s.r);
            int again = x.range(1, 3);
            MPack mpk{Pos{&s.m.routes[s.m.start], 0}, (int) ses.id(), false};
            for (int i = 0; i < again; i++) {
                std::string route = x.chance(1, 4) ? x.pick(rn) : "";
                if (route.empty()) p.move(); else p.move(route);
                model_move(s.m, sc, model, mpk, route);
                x.eq(p.session().is_closed(), mpk.closed, "closed state of the package's session");
                x.eq(p.session().id(), ses.id(), "session id of the package");
            }
        }
        tf::world().on_process = nullptr;
        x.eq(join(real.trace), join(model.trace), "trace");
        x.nontrivial = model.trace.size() >= 3;
    });
    c.add("chain", 100000, 800000, "chain of two or more filters", [](Ctx &x) {
        tf::world() = tf::World();
        int n = x.len(8);
        std::vector<std::unique_ptr<tf::Rec> > fs; std::vector<std::string> want;
        for (int i = 0; i < 5; i++) { fs.emplace_back(new tf::Rec("alpha")); fs.back()->label = "L" + std::to_string(i); }
        mp::RouterChain r; std::map<std::string, int> uses;
        for (int i = 0; i < n; i++) { int k = x.range(0, 4); r.append(*fs[k]); want.push_back(fs[k]->label); uses[fs[k]->label]++; }
        x.desc << join(want) << ":"; x.nontrivial = n > 1;
        std::vector<std::pair<mp::RoutePos *, size_t> > ps;
        struct Clean { std::vector<std::pair<mp::RoutePos *, size_t> > &p; ~Clean() { for (auto &q2 : p) delete q2.first; } } cl{ps};
        ps.push_back({r.createpos(), 0});
        int m = x.len(20);
        for (int i = 0; i < m; i++) {
            size_t k = x.range(0, (int) ps.size() - 1);
            int op = x.range(0, 7);
            if (op == 0 && ps.size() < 5) { mp::RoutePos *p = ps[k].first->clone(); size_t q2 = ps[k].second; ps.push_back({p, q2}); x.desc << " clone" << k; }
            else if (op == 1 && ps.size() < 5) { ps.push_back({r.createpos(), 0}); x.desc << " new"; }
            else {
                x.desc << " " << k;
                std::string got = nm(ps[k].first->move(op == 2 ? "x" : 0));
                x.eq(got, ps[k].second < want.size() ? want[ps[k].second++] : std::string("-"), "filter of chain");
            }
        }
        r.start(); int sig = x.range(0, 15); r.stop(sig);
        for (auto &f : fs) { x.eq(f->started > 0, uses[f->label] > 0, "started " + f->label); x.eq(f->stopped > 0, uses[f->label] > 0, "stopped " + f->label); if (f->stopped) x.eq(f->signo, sig, "signal"); }
        // a package through the chain
        std::vector<std::string> seen;
        tf::world().on_process = [&](const tf::Rec *f, mp::Package &p) { seen.push_back(f->label); p.move(); };
        mp::Session ses; mp::Origin o; mp::Package p(ses, o); p.router(r).move();
        x.eq(join(seen), join(want), "filters visited by a package");
        tf::world().on_process = nullptr;
    });
    c.add("threads", 900, 6000, "four threads route packages over one configuration with two or more routes", [](Ctx &x) {
        Setup s(x);
        std::vector<std::string> labels; for (auto &f : s.m.all) labels.push_back(f->label);
        const int T = 4; std::vector<Script> sc(T); std::vector<Run> real(T), model(T); std::vector<std::string> first(T);
        for (int t = 0; t < T; t++) { sc[t] = script(x, labels); for (auto &e : sc[t]) for (auto &a : e.second) if (a.k == 'X') a.k = 'M'; first[t] = x.coin() ? x.pick(rn) : ""; }
        x.desc << s.xml; x.nontrivial = s.m.routes.size() > 1;
        for (int t = 0; t < T; t++) {
            MPack k{Pos{&s.m.routes[s.m.start], 0}, 0, false}; model_move(s.m, sc[t], model[t], k, first[t]);
        }
        static thread_local int me = 0;
        std::vector<std::string> bad(T);
        tf::world().on_process = [&](const tf::Rec *f, mp::Package &p) { real_process(sc[me], real[me], f, p); };
        std::vector<std::thread> th;
        for (int t = 0; t < T; t++) th.emplace_back([&, t] {
            me = t;
            for (int k = 0; k < 20; k++) {
                real[t] = Run(); mp::Session ses; mp::Origin o;
                { mp::Package p(ses, o); p.router(*s.r); if (first[t].empty()) p.move(); else p.move(first[t]); }
                std::vector<std::string> a, b;
                for (auto &e : real[t].trace) a.push_back(e.substr(0, e.find('@')));
                for (auto &e : model[t].trace) b.push_back(e.substr(0, e.find('@')));
                if (a != b) { bad[t] = "thread trace " + join(a) + " expected " + join(b); return; }
            }
        });
        for (auto &t : th) t.join();
        tf::world().on_process = nullptr;
        for (auto &b : bad) if (!b.empty()) x.fail(b);
    });
    return run(c, argc, argv);
}
