// SOURCES: session
// VARIANTS: asan tsan
// Sessions: unique ids, copies that stay the same session, closing, per-session state.
#include "pbt.hpp"
#include <metaproxy/session.hpp>
#include <thread>
#include <algorithm>
#include <memory>
using namespace pbt;
namespace mp = metaproxy_1;

static void ids_threads(Ctx &x)
{
    int T = x.range(2, 8), N = x.range(1, 400);
    int mode = x.range(0, 2);
    x.desc << T << " threads x " << N << " sessions, mode " << mode; x.nontrivial = N > 20;
    std::vector<std::vector<unsigned long> > got(T);
    mp::Session before;
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        for (int i = 0; i < N; i++) {
            mp::Session s;
            if (mode == 1) { mp::Session c(s); got[t].push_back(c.id()); }
            else if (mode == 2) { std::unique_ptr<mp::Session> h(new mp::Session); got[t].push_back(h->id()); got[t].push_back(s.id()); }
            else got[t].push_back(s.id());
        }
    });
    for (auto &t : th) t.join();
    mp::Session after;
    std::set<unsigned long> all; size_t n = 0;
    all.insert(before.id()); all.insert(after.id()); n = 2;
    for (auto &v : got) {
        for (size_t i = 0; i < v.size(); i++) { all.insert(v[i]); n++; }
    }
    x.eq(all.size(), n, "number of distinct session ids");
}

static void map_threads(Ctx &x)
{
    int T = x.range(2, 6), N = x.range(1, 60);
    x.desc << T << " threads, " << N << " ops on one map"; x.nontrivial = N > 10;
    mp::session_map<std::string> m;
    std::vector<std::string> bad(T);
    std::vector<std::vector<int> > ops(T);
    for (int t = 0; t < T; t++) for (int i = 0; i < N; i++) ops[t].push_back(x.range(0, 8));
    std::vector<std::thread> th;
    for (int t = 0; t < T; t++) th.emplace_back([&, t] {
        mp::Session mine[3]; bool in[3] = {false, false, false};
        for (int o : ops[t]) {
            int k = o % 3; std::string v = "v";
            if (o / 3 == 0) { m.create(v, mine[k]); in[k] = true; }
            else if (o / 3 == 1) { m.release(mine[k]); in[k] = false; }
            if (m.exist(mine[k]) != in[k]) bad[t] = "presence of a session differs from what its own thread did";
        }
    });
    for (auto &t : th) t.join();
    for (auto &b : bad) if (!b.empty()) x.fail(b);
}

int main(int argc, char **argv)
{
    Check c; c.id = "C07";
    const char *v = getenv("PBT_VARIANT");
    bool tsan = v && !strcmp(v, "tsan");
    if (!tsan)
    c.add("history", 800000, 12000000, "five or more operations with a copy or assignment of a closed session", [](Ctx &x) {
        struct M { mp::Session s; unsigned long id; bool closed; };
        std::vector<M> v; std::set<unsigned long> given; bool interesting = false;
        int n = 1 + x.len(30);
        auto fresh = [&] {
            mp::Session s; x.check(given.insert(s.id()).second, "session id given twice: " + std::to_string(s.id()));
            x.check(!s.is_closed(), "a new session is open");
            v.push_back(M{s, s.id(), false}); };
        fresh();
        for (int i = 0; i < n; i++) {
            size_t a = x.range(0, (int) v.size() - 1), b = x.range(0, (int) v.size() - 1);
            switch (x.range(0, 5)) {
            case 0: x.desc << " new"; fresh(); break;
            case 1: { x.desc << " copy" << a; M m{v[a].s, v[a].id, v[a].closed}; v.push_back(m); interesting |= m.closed; break; }
            case 2: x.desc << " " << a << "=" << b; v[a].s = v[b].s; v[a].id = v[b].id; v[a].closed = v[b].closed; interesting |= v[b].closed; break;
            case 3: x.desc << " close" << a; v[a].s.close(); v[a].closed = true; break;
            case 4: x.desc << " self" << a; { mp::Session &r = v[a].s; v[a].s = r; } break;
            case 5: x.desc << " reopen?" << a; { mp::Session t(v[a].s); t.close(); } break;   // closing a copy leaves the original
            }
            for (auto &m : v) { x.eq(m.s.id(), m.id, "id"); x.eq(m.s.is_closed(), m.closed, "closed"); }
            x.eq(v[a].s == v[b].s, v[a].id == v[b].id, "equality");
            x.eq(v[a].s < v[b].s, v[a].id < v[b].id, "order");
        }
        x.nontrivial = interesting && n >= 5;
    });
    if (!tsan)
    c.add("map", 500000, 8000000, "a session is replaced or released and looked up again", [](Ctx &x) {
        mp::session_map<std::string> m; std::map<unsigned long, bool> model; std::vector<mp::Session> ss(x.range(1, 6));
        int n = x.len(30); bool rel = false;
        for (int i = 0; i < n; i++) {
            mp::Session s = ss[x.range(0, (int) ss.size() - 1)];
            if (x.chance(1, 5)) s.close();
            std::string val = "x";
            switch (x.range(0, 2)) {
            case 0: x.desc << " create" << s.id() - ss[0].id(); m.create(val, s); model[s.id()] = true; break;
            case 1: x.desc << " release" << s.id() - ss[0].id(); m.release(s); model.erase(s.id()); rel = true; break;
            }
            for (auto &t : ss) x.eq(m.exist(t), model.count(t.id()) > 0, "presence");
        }
        x.nontrivial = rel && n > 2;
    });
    c.add("id-threads", tsan ? 4000 : 16000, tsan ? 60000 : 200000, "more than 20 sessions made per thread", ids_threads, false);
    c.add("map-threads", tsan ? 4000 : 8000, tsan ? 60000 : 100000, "more than 10 operations per thread", map_threads, false);
    c.workers = tsan ? 4 : 8;
    return run(c, argc, argv);
}
