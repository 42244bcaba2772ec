// Abstract configurations: generator, mutations, XML, and the rules of validity.
#pragma once
#include "pbt.hpp"
#include <memory>
#include <algorithm>
namespace cg {
using pbt::Ctx;
struct E;
typedef std::shared_ptr<E> P;
struct E {
    std::string name; bool mp = true;         // in the metaproxy namespace or not
    std::vector<std::pair<std::string, std::string> > at;
    std::vector<P> ch; std::string text;
    const std::string *get(const std::string &n) const { const std::string *r = 0; for (auto &a : at) if (a.first == n) r = &a.second; return r; }
    std::string val(const std::string &n) const { const std::string *r = get(n); return r ? *r : ""; }
};
inline P mk(const std::string &n) { P p(new E); p->name = n; return p; }
inline P clone(const P &p) { P r(new E(*p)); for (auto &c : r->ch) c = clone(c); return r; }
inline std::string esc(const std::string &s) {
    std::string r; for (char c : s) r += c == '<' ? std::string("&lt;") : c == '&' ? std::string("&amp;") : c == '"' ? std::string("&quot;") : std::string(1, c); return r;
}
inline void xml(Ctx &x, const P &p, std::string &o, bool root = true) {
    o += p->mp ? "<mp:" : "<"; o += p->name;
    if (root) o += " xmlns:mp=\"http://indexdata.com/metaproxy\"";
    for (auto &a : p->at) o += " " + std::string(a.first == "base" ? "xml:" : "") + a.first + "=\"" + esc(a.second) + "\"";
    if (p->ch.empty() && p->text.empty()) { o += "/>"; return; }
    o += ">" + esc(p->text);
    for (auto &c : p->ch) { if (p->text.empty() && x.chance(1, 8)) o += x.pick({"\n", "  ", "<!-- filter -->", "<?pi x?>"}); xml(x, c, o, false); }
    if (x.chance(1, 8)) o += "<!-- end -->";
    o += "</" + std::string(p->mp ? "mp:" : "") + p->name + ">";
}
static const std::vector<std::string> types = {"alpha", "beta", "gamma", "dyn1"};
struct Gen {
    Ctx &x; std::vector<std::string> routes, ids; int label = 0;
    P option(bool may_route) {
        P v = mk(x.pick({"target", "hosts", "v2", "backend"}));
        if (may_route && x.chance(1, 2)) v->at.push_back({"route", x.pick(routes)});
        if (x.chance(1, 4)) v->at.push_back({"x", "y"});
        return v;
    }
    void body(P f) {
        P v = mk("v"); v->text = "L" + std::to_string(label++); f->ch.push_back(v);
        int n = x.len(3); for (int i = 0; i < n; i++) f->ch.push_back(option(true));
    }
    P rfilter(int depth) {
        if (depth > 0 && x.chance(1, 6)) {
            P fs = mk("filters"); int n = x.len(3);
            for (int i = 0; i < n; i++) fs->ch.push_back(rfilter(depth - 1));
            return fs;
        }
        P f = mk("filter");
        if (!ids.empty() && x.coin()) { f->at.push_back({"refid", x.pick(ids)}); if (x.chance(1, 10)) f->at.push_back({"type", x.pick(types)}); }
        else { f->at.push_back({"type", x.pick(types)}); body(f); }
        if (x.chance(1, 15)) f->at.push_back({"base", "b"});
        return f;
    }
    P config() {
        P r = mk("metaproxy"); if (x.coin()) r->at.push_back({"version", "1.0"});
        int nr = 1 + x.len(4);
        static const std::vector<std::string> rn = {"start", "r1", "r2", "r3", "start2", "Start"};
        for (int i = 0; i < nr; i++) { std::string n = x.pick(rn); if (std::find(routes.begin(), routes.end(), n) == routes.end()) routes.push_back(n); }
        if (x.chance(1, 6)) { P d = mk("dlpath"); d->text = "/nonexistent/lib"; r->ch.push_back(d); }
        P s = mk("start"); std::string sr = x.pick(routes);
        if (!(sr == "start" && x.chance(1, 3))) s->at.push_back({"route", sr});
        if (x.chance(1, 15)) s->at.push_back({"base", "b"});
        r->ch.push_back(s);
        if (x.chance(3, 4)) {
            P fs = mk("filters"); int n = x.len(5);
            static const std::vector<std::string> in = {"f", "g", "h", "f1", "F", "start"};
            for (int i = 0; i < n; i++) {
                std::string id = x.pick(in);
                if (std::find(ids.begin(), ids.end(), id) != ids.end()) continue;
                ids.push_back(id);
                P f = mk("filter");
                f->at.push_back({"id", id}); f->at.push_back({"type", x.pick(types)});
                if (x.chance(1, 15)) f->at.push_back({"base", "b"});
                if (x.coin()) std::swap(f->at[0], f->at[1]);
                body(f); fs->ch.push_back(f);
            }
            r->ch.push_back(fs);
        }
        P rs = mk("routes");
        for (auto &n : routes) {
            P rt = mk("route"); rt->at.push_back({"id", n});
            if (x.chance(1, 15)) rt->at.push_back({"base", "b"});
            int k = x.len(6); for (int i = 0; i < k; i++) rt->ch.push_back(rfilter(2));
            rs->ch.push_back(rt);
        }
        r->ch.push_back(rs);
        return r;
    }
};
inline void collect(const P &p, std::vector<P> &v) { v.push_back(p); for (auto &c : p->ch) collect(c, v); }
static const std::vector<std::string> some_names = {"metaproxy", "start", "filters", "routes", "route", "filter", "dlpath", "foo", "Filter", "reject"};
static const std::vector<std::string> some_attrs = {"id", "type", "refid", "route", "base", "foo", "ref", "name", "Type"};
static const std::vector<std::string> some_vals = {"start", "r1", "r2", "nosuch", "f", "g", "alpha", "beta", "nosuchtype", "", "alph", "alphaa", "dyn1", "dyn2", "start2"};
inline void mutate(Ctx &x, P root) {
    std::vector<P> all; collect(root, all);
    P p = all[x.range(0, (int) all.size() - 1)];
    switch (x.range(0, 9)) {
    case 0: p->name = x.pick(some_names); break;
    case 1: p->mp = !p->mp; break;
    case 2: if (!p->ch.empty()) p->ch.erase(p->ch.begin() + x.range(0, (int) p->ch.size() - 1)); break;
    case 3: if (!p->ch.empty()) { P c = clone(p->ch[x.range(0, (int) p->ch.size() - 1)]); p->ch.insert(p->ch.begin() + x.range(0, (int) p->ch.size()), c); } break;
    case 4: { std::string a = x.pick(some_attrs); if (!p->get(a)) p->at.push_back({a, x.pick(some_vals)}); break; }
    case 5: if (!p->at.empty()) p->at.erase(p->at.begin() + x.range(0, (int) p->at.size() - 1)); break;
    case 6: if (!p->at.empty()) p->at[x.range(0, (int) p->at.size() - 1)].second = x.pick(some_vals); break;
    case 7: if (p->ch.size() > 1) std::swap(p->ch[x.range(0, (int) p->ch.size() - 1)], p->ch[x.range(0, (int) p->ch.size() - 1)]); break;
    case 8: { P c = mk(x.pick(some_names)); if (x.coin()) c->at.push_back({x.pick(some_attrs), x.pick(some_vals)}); p->ch.insert(p->ch.begin() + x.range(0, (int) p->ch.size()), c); break; }
    case 9: p->ch.push_back(mk("reject")); break;
    }
}
// what a valid configuration means
struct Filt { std::string type, label; P node; };
typedef std::shared_ptr<Filt> FP;
struct Meaning { std::string start; std::map<std::string, std::vector<FP> > routes; std::vector<FP> all; };
struct Bad { std::string why; };
struct Unspecified {};
struct Validator {
    Meaning m; std::map<std::string, FP> ids;
    bool is(const P &p, const char *n) { return p && p->mp && p->name == n; }
    void only(const P &p, std::initializer_list<const char *> ok) {
        for (auto &a : p->at) { bool f = a.first == "base"; for (auto o : ok) f |= a.first == o; if (!f) throw Bad{"attribute " + a.first + " on " + p->name}; }
    }
    static std::string label(const P &p) { for (auto &c : p->ch) if (c->name == "v") return c->text; return ""; }
    FP make(const P &p) {
        std::string t = p->val("type");
        if (std::find(types.begin(), types.end(), t) == types.end()) throw Bad{"type " + t};
        for (auto &c : p->ch) if (c->name == "reject") throw Bad{"filter's own refusal"};
        FP f(new Filt); f->type = t; f->label = label(p); f->node = p; m.all.push_back(f);
        return f;
    }
    void in_route(const P &p, std::vector<FP> &out) {
        for (auto &c : p->ch) {
            if (is(c, "filters")) { in_route(c, out); continue; }
            if (!is(c, "filter")) throw Bad{"element " + c->name + " in route"};
            only(c, {"refid", "type"});
            std::string r = c->val("refid"), t = c->val("type");
            if (!r.empty()) { if (!ids.count(r)) throw Bad{"refid " + r}; out.push_back(ids[r]); }
            else if (!t.empty()) out.push_back(make(c));
            else throw Unspecified();
        }
    }
    void route_refs(const P &p) {
        for (auto &c : p->ch) {
            if (is(c, "filters")) route_refs(c);
            else if (is(c, "filter"))
                for (auto &o : c->ch) if (o->get("route") && !m.routes.count(o->val("route"))) throw Bad{"route " + o->val("route")};
        }
    }
    Meaning run(const P &r) {
        if (!is(r, "metaproxy")) throw Bad{"root"};
        size_t i = 0; auto at = [&](size_t k) { return k < r->ch.size() ? r->ch[k] : P(); };
        if (is(at(i), "dlpath")) i++;
        if (!is(at(i), "start")) throw Bad{"no start"};
        only(at(i), {"route"}); m.start = at(i)->get("route") ? at(i)->val("route") : "start"; i++;
        P fs;
        if (is(at(i), "filters")) {
            fs = at(i); i++;
            for (auto &c : fs->ch) {
                if (!is(c, "filter")) throw Bad{"element in filters"};
                only(c, {"id", "type"});
                FP f = make(c);
                if (ids.count(c->val("id"))) throw Bad{"duplicate filter"};
                ids[c->val("id")] = f;
            }
        }
        if (!is(at(i), "routes")) throw Bad{"no routes"};
        P rs = at(i); i++;
        if (rs->ch.empty()) throw Bad{"no route"};
        for (auto &c : rs->ch) {
            if (!is(c, "route")) throw Bad{"element in routes"};
            only(c, {"id"});
            std::vector<FP> v; in_route(c, v);
            if (m.routes.count(c->val("id"))) throw Bad{"duplicate route"};
            m.routes[c->val("id")] = v;
        }
        if (at(i)) throw Bad{"element after routes"};
        if (fs) route_refs(fs);
        for (auto &c : rs->ch) route_refs(c);
        if (!m.routes.count(m.start)) throw Bad{"start route"};
        return m;
    }
};
}
