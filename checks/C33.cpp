// SOURCES: kit filter_http_rewrite1
// VARIANTS: asan tsan
// Patterns replaced in the content of answers.
#include "../models/zkit.hpp"
#include "../models/anyz.hpp"
#include <atomic>
#include <memory>
#include <thread>
ZK_FILTER(http_rewrite1)
using namespace pbt;
using zk::Mem;
static std::string num(long n) { return std::to_string(n); }
static void need(bool ok, const std::string &m) { if (!ok) throw Fail(m); }
static void same(const std::string &a, const std::string &b, const std::string &w) { if (a != b) throw Fail(w + ": got <" + q(a.substr(0, 600)) + "> expected <" + q(b.substr(0, 600)) + ">"); }
struct Hooks { ~Hooks() { zk::hooks().fn = nullptr; } };
// ---- patterns, and a matcher of our own: alternatives of sequences of (sets with a repetition | groups | anchors)
struct Item; typedef std::vector<Item> Seq;
struct Item { int kind = 0; std::string set; bool neg = false, any = false; int lo = 1, hi = 1; bool lazy = false; std::vector<Seq> alts; int group = 0; std::string text; };
struct Pat { std::vector<Seq> alts; int groups = 0; std::string text; bool icase = false; };
static Item set_item(Ctx &x)
{
    Item i; int k = x.range(0, 9);
    if (k < 6) { char c = "abcAB12<>/\"= \n"[x.range(0, 13)]; i.set = c; i.text = c; }
    else if (k == 6) { i.set = "abc"; i.text = "[a-c]"; } else if (k == 7) { i.set = "ab"; i.neg = true; i.text = "[^ab]"; }
    else if (k == 8) { i.any = true; i.text = "."; } else { i.set = x.pick({".", "*", "(", "$", "\\"}); i.text = "\\" + i.set; }
    return i;
}
static Seq seq(Ctx &x, Pat &p, int depth)
{
    Seq s; int n = x.range(1, 3), solid = x.range(0, n - 1);
    for (int j = 0; j < n; j++) {
        if (depth < 2 && x.chance(1, 4)) { Item g; g.kind = 1; bool cap = x.chance(3, 4); g.group = cap ? ++p.groups : 0; int m = x.range(1, 2); g.text = cap ? "(" : "(?:"; for (int a = 0; a < m; a++) { g.alts.push_back(seq(x, p, depth + 1)); if (a) g.text += "|"; for (auto &t : g.alts.back()) g.text += t.text; } g.text += ")"; s.push_back(g); continue; }
        Item i = set_item(x); int r = x.range(0, 5);
        if (r == 1 && j != solid) { i.lo = 0; i.text += "?"; } else if (r == 2 && j != solid) { i.lo = 0; i.hi = 1 << 20; i.text += "*"; } else if (r == 3) { i.hi = 1 << 20; i.text += "+"; } else if (r == 4) { i.lo = 1; i.hi = 2; i.text += "{1,2}"; }
        if (i.hi > 1 && x.chance(1, 4)) { i.lazy = true; i.text += "?"; }
        s.push_back(i);
    }
    if (!depth && x.chance(1, 12)) { Item a; a.kind = 2; a.text = "\\b"; s.insert(s.begin(), a); }
    return s;
}
static Pat pattern(Ctx &x, bool icase) { Pat p; p.icase = icase; int n = x.chance(1, 4) ? 2 : 1; for (int a = 0; a < n; a++) { p.alts.push_back(seq(x, p, 0)); if (a) p.text += "|"; for (auto &t : p.alts.back()) p.text += t.text; } return p; }
typedef std::vector<std::pair<int, int> > Caps;
struct Matcher {
    const Pat &p; const std::string &s; Caps caps;
    Matcher(const Pat &p, const std::string &s) : p(p), s(s) {}
    static char low(char c) { return c >= 'A' && c <= 'Z' ? (char) (c + 32) : c; }
    bool in(const Item &i, char c) { if (i.any) return true; bool f = false; for (char k : i.set) if (k == c || (p.icase && low(k) == low(c))) f = true; return f != i.neg; }
    static bool word(char c) { return isalnum((unsigned char) c) && !((unsigned char) c & 0x80) || c == '_'; }
    bool rep(const Item &i, int n, int at, const std::function<bool(int)> &then) { bool more = n < i.hi && at < (int) s.size() && in(i, s[at]); if (n < i.lo) return more && rep(i, n + 1, at + 1, then); if (i.lazy) return then(at) || (more && rep(i, n + 1, at + 1, then)); return (more && rep(i, n + 1, at + 1, then)) || then(at); }
    bool run(const Seq &q, size_t j, int at, const std::function<bool(int)> &then)
    {
        if (j == q.size()) return then(at);
        const Item &i = q[j]; auto on = [&](int e) { return run(q, j + 1, e, then); };
        if (i.kind == 2) { bool a = at > 0 && word(s[at - 1]), b = at < (int) s.size() && word(s[at]); return a != b && on(at); }
        if (i.kind == 1) { for (auto &a : i.alts) { Caps old = caps; if (run(a, 0, at, [&](int e) { std::pair<int, int> o; if (i.group) { o = caps[i.group]; caps[i.group] = {at, e}; } if (on(e)) return true; if (i.group) caps[i.group] = o; return false; })) return true; caps = old; } return false; }
        return rep(i, 0, at, on);
    }
    bool at(int b, int &e) { for (auto &a : p.alts) { caps.assign(p.groups + 1, {-1, -1}); if (run(a, 0, b, [&](int z) { e = z; return true; })) { caps[0] = {b, e}; return true; } } return false; }
};
struct Rule { Pat p; std::string type, mode; std::vector<std::pair<int, std::string> > rep; std::string rep_text; bool have_rep = true; };
static std::string apply(const Rule &r, const std::string &s, bool &hit)
{
    std::string o; int at = 0; bool all = r.mode.find('g') != std::string::npos;
    while (at < (int) s.size()) { Matcher m(r.p, s); int e; bool done = false; if (m.at(at, e)) { hit = true; for (auto &t : r.rep) if (t.first < 0) o += t.second; else { auto c = t.first <= r.p.groups ? m.caps[t.first] : std::make_pair(-1, -1); if (c.first >= 0) o += s.substr(c.first, c.second - c.first); } at = e; done = !all; } else o += s[at++]; if (done) break; }
    return o + (at < (int) s.size() ? s.substr(at) : "");
}
static Rule rule(Ctx &x)
{
    Rule r; r.mode = x.pick({"", "", "g", "g", "i", "gi", "ig"}); r.p = pattern(x, r.mode.find('i') != std::string::npos); r.type = x.pick({"text/html", "text/html", "text/plain", "text/html; charset=utf-8"}); int n = x.range(0, 3);
    for (int i = 0; i < n; i++) { int k = x.range(0, 3); if (k < 2) { std::string l = x.pick({"x", "YZ", "<b>", "a", "\xc3\xa6", "&"}); r.rep.push_back({-1, l}); r.rep_text += l; } else if (k == 2) { r.rep.push_back({0, ""}); r.rep_text += "$&"; } else { int g = x.range(1, 2); if (g > r.p.groups) continue; r.rep.push_back({g, ""}); r.rep_text += "$" + num(g); } }
    r.have_rep = n > 0; return r;
}
static std::string attr(const std::string &s) { std::string r; for (char c : s) if (c == '\n') r += "&#10;"; else r += zk::esc(std::string(1, c)); for (size_t p = 0; (p = r.find('"', p)) != std::string::npos; p += 6) r.replace(p, 1, "&quot;"); return r; }
static std::string config(Ctx &x, const Rule &r) { std::vector<std::string> v{" pattern=\"" + attr(r.p.text) + "\"", " content-type=\"" + attr(r.type) + "\""}; if (r.have_rep) v.push_back(" replacement=\"" + attr(r.rep_text) + "\""); if (!r.mode.empty()) v.push_back(" mode=\"" + r.mode + "\""); std::string s; while (!v.empty()) { int i = x.range(0, (int) v.size() - 1); s += v[i]; v.erase(v.begin() + i); } return "<replace" + s + "/>"; }
static std::string content(Ctx &x) { std::string s; int n = x.pick<int>({0, 1, 5, 12, 30}); for (int i = 0; i < n; i++) { int k = x.range(0, 19); if (k == 0) s += '\0'; else if (k == 1) s += "\xc3\xa6"; else if (k == 2) s += "\r\n"; else s += "abcabABC12<>/\"= \n.*($\\"[x.range(0, 21)]; } return s; }
static Z_GDU *answer(Ctx &x, ODR o, const std::string &type, const std::string &body)
{
    Z_GDU *g = z_get_HTTP_Response(o, x.pick<int>({200, 200, 404, 302})); Z_HTTP_Response *h = g->u.HTTP_Response; h->headers = 0; if (x.coin()) z_HTTP_header_add(o, &h->headers, "X-A", "abc 12"); if (!type.empty()) z_HTTP_header_add(o, &h->headers, x.pick({"Content-Type", "content-type"}).c_str(), type.c_str()); if (x.coin()) z_HTTP_header_add(o, &h->headers, "Location", "/abc"); h->content_buf = body.empty() && x.coin() ? 0 : odr_strdupn(o, body.data(), body.size()); h->content_len = (int) body.size(); return g;
}
static Z_GDU *ask(Ctx &x, ODR o, const std::string &body) { Z_GDU *g = z_get_HTTP_Request(o); Z_HTTP_Request *h = g->u.HTTP_Request; h->method = odr_strdup(o, x.pick({"GET", "POST"}).c_str()); h->path = odr_strdup(o, x.pick({"/", "/abc?a=1"}).c_str()); h->version = odr_strdup(o, "1.1"); h->headers = 0; z_HTTP_header_add(o, &h->headers, "Host", "abc"); z_HTTP_header_add(o, &h->headers, "Content-Type", "text/html"); if (!body.empty()) { h->content_buf = odr_strdupn(o, body.data(), body.size()); h->content_len = (int) body.size(); } return g; }
static void rewrite(Ctx &x)
{
    Hooks h; std::vector<Rule> rules; std::string conf; int nr = x.range(0, 3); for (int i = 0; i < nr; i++) { rules.push_back(rule(x)); conf += config(x, rules.back()); if (x.chance(1, 10)) conf += "<!-- c -->"; }
    if (x.chance(1, 10)) conf += "<replace content-type=\"text/html\" replacement=\"none\"/>";
    x.desc << conf; Mem keep; std::string seen; Z_GDU *back = 0; bool close = false;
    zk::hooks().fn = [&](const zk::Hook *, zk::mp::Package &p) { if (p.session().is_closed() || !p.request().get()) return; seen = zk::encode(p.request().get()); if (back) p.response() = back; if (close) p.session().close(); };
    zk::Net net({&metaproxy_1_filter_http_rewrite1}, zk::route("start", "<filter type=\"http_rewrite1\">" + conf + "</filter>" + zk::hook("rest"))); std::unique_ptr<zk::Client> cl(new zk::Client(net)); bool any = false;
    int n = x.range(1, 3); for (int i = 0; i < n; i++) {
        if (cl->closed) cl.reset(new zk::Client(net));
        Mem o; int k = x.range(0, 14); close = x.chance(1, 8);
        if (k == 0) { Z_APDU *a = zk::init(o), *r = zk::init_reply(o, a, 0, 0); Z_GDU g; g.which = Z_GDU_Z3950; g.u.z3950 = r; back = &g; std::string was = zk::encode(back); x.desc << " z3950"; Z_GDU *v = cl->send(a); same(v ? zk::encode(v) : "none", was, "Z39.50 answer"); back = 0; continue; }
        Z_GDU *g = ask(x, o, content(x)); std::string req = zk::encode(g); seen = "";
        if (k == 1) { back = 0; x.desc << " unanswered"; Z_GDU *v = cl->send(g); need(!v, "answer out of nothing"); }
        else if (k == 2) { Z_GDU *r = anyz::wrap(o, zk::close_reply(o, zk::close(o), 3, "abc")); std::string was = zk::encode(r); back = r; x.desc << " answered with a Close"; Z_GDU *v = cl->send(g); same(v ? zk::encode(v) : "none", was, "answer"); }
        else {
            std::string type = x.pick({"text/html", "text/html", "text/html", "text/plain", "text/html; charset=utf-8", "TEXT/HTML", ""}), body = content(x), want = body; bool hit = false; for (auto &r : rules) if (r.type == type && !want.empty()) want = apply(r, want, hit); any = any || hit; if (hit) x.label("replaced");
            x.desc << " " << type << " <" << q(body) << ">"; Z_GDU *r = answer(x, o, type, body); back = r; Mem o2; ODR w = odr_createmem(ODR_ENCODE); std::string hdr = zk::encode(r); odr_destroy(w); Z_GDU *v = cl->send(g); need(v && v->which == Z_GDU_HTTP_Response, "no HTTP answer"); Z_HTTP_Response *a = v->u.HTTP_Response;
            same(std::string(a->content_buf ? a->content_buf : "", a->content_len), want, "content"); a->content_buf = (char *) body.data(); a->content_len = (int) body.size(); same(zk::encode(v), hdr, "all but the content"); }
        same(seen, req, "request"); need(cl->closed == close, close ? "session still open" : "session closed"); back = 0;
    }
    x.nontrivial = any;
}
// ---- sessions at a time
static void together(Ctx &x)
{
    Hooks h; std::vector<Rule> rules; std::string conf; int nr = x.range(1, 3); for (int i = 0; i < nr; i++) { rules.push_back(rule(x)); rules[i].type = "text/html"; conf += config(x, rules.back()); } x.desc << conf;
    zk::hooks().fn = [&](const zk::Hook *, zk::mp::Package &p) { if (p.session().is_closed() || !p.request().get()) return; Z_HTTP_Request *r = p.request().get()->u.HTTP_Request; Mem o; Z_GDU *g = z_get_HTTP_Response(o, 200); g->u.HTTP_Response->headers = 0; z_HTTP_header_add(o, &g->u.HTTP_Response->headers, "Content-Type", "text/html"); g->u.HTTP_Response->content_buf = odr_strdupn(o, r->content_buf, r->content_len); g->u.HTTP_Response->content_len = r->content_len; p.response() = g; };
    zk::Net net({&metaproxy_1_filter_http_rewrite1}, zk::route("start", "<filter type=\"http_rewrite1\">" + conf + "</filter>" + zk::hook("rest")));
    int nt = x.range(2, 4); std::vector<std::string> in, want, bad(nt); bool hit = false; for (int i = 0; i < nt; i++) { std::string s = content(x) + "a"; in.push_back(s); for (auto &r : rules) if (!s.empty()) s = apply(r, s, hit); want.push_back(s); x.desc << " <" << q(in[i]) << ">"; }
    std::vector<std::thread> ts; for (int i = 0; i < nt; i++) ts.emplace_back([&, i] { try { for (int r = 0; r < 3; r++) { zk::Client cl(net); Mem o; Z_GDU *g = z_get_HTTP_Request(o); g->u.HTTP_Request->content_buf = odr_strdupn(o, in[i].data(), in[i].size()); g->u.HTTP_Request->content_len = (int) in[i].size(); Z_GDU *v = cl.send(g); need(v && v->which == Z_GDU_HTTP_Response, "no HTTP answer"); same(std::string(v->u.HTTP_Response->content_buf ? v->u.HTTP_Response->content_buf : "", v->u.HTTP_Response->content_len), want[i], "content"); } } catch (Fail &f) { bad[i] = f.what(); } }); for (auto &t : ts) t.join(); for (auto &b : bad) x.check(b.empty(), b);
    x.nontrivial = hit;
}
static void configs(Ctx &x)
{
    bool good = x.coin(); std::string c = good ? x.pick({"", "<!-- c -->", "<replace/>", "<replace pattern=\"a\"/>", "<replace pattern=\"a\" mode=\"gi\" replacement=\"$1\" content-type=\"t\"/>"}) : x.pick({"<Replace pattern=\"a\"/>", "<replace Pattern=\"a\"/>", "<replace pattern=\"a\" type=\"t\"/>", "<rule/>", "<replace pattern=\"a\"/><x/>"});
    x.desc << c; bool ok = true; try { zk::Net net({&metaproxy_1_filter_http_rewrite1}, zk::route("start", "<filter type=\"http_rewrite1\">" + c + "</filter>")); } catch (std::exception &) { ok = false; } x.check(ok == good, ok ? "accepted" : "refused"); x.nontrivial = true;
}
int main(int argc, char **argv)
{
    zk::quiet(); Check c; c.id = "C33";
    c.add("rewrite", 30000, 500000, "something replaced", rewrite);
    c.add("together", 4000, 60000, "something replaced", together);
    c.add("configs", 500, 5000, "each", configs);
    return run(c, argc, argv);
}
