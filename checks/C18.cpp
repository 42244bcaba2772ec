// SOURCES: kit filter_http_rewrite html_parser
// VARIANTS: asan tsan
// Rewriting of HTTP requests and responses by rules, against a small pattern matcher and document model.
#include "../models/zkit.hpp"
#include <thread>
#include <atomic>
ZK_FILTER(http_rewrite)
using namespace pbt;
typedef std::map<std::string, std::string> Vars;
// ---- patterns
struct El { int k = 0; std::string s; int lo = 1, hi = 1; std::vector<El> in; std::string name; bool opt = false; int num = 0; };
// k: 0 literal, 1 class (+ * ?), 2 named group, 3 plain group, 4 (?:), 5 (?=lit), 6 (?!lit), 7 negated class
typedef std::vector<El> Pat;
static std::string lit_re(Ctx &x, const std::string &s) { std::string r; for (char c : s) { if (strchr("()[].?*+{}$^|\\", c)) r += '\\'; r += c; } return r; }
static std::string text_of(Ctx &x, const Pat &p)
{
    std::string r; for (auto &e : p) {
        std::string q = e.lo == 1 && e.hi == 1 ? "" : e.lo == 0 && e.hi == 1 ? "?" : e.lo == 0 ? "*" : "+";
        switch (e.k) {
        case 0: r += lit_re(x, e.s); break;
        case 1: r += "[" + e.s + "]" + q; break;
        case 7: r += "[^" + e.s + "]" + q; break;
        case 2: r += (x.coin() ? "(?<" : "(?P<") + e.name + ">" + text_of(x, e.in) + ")" + (e.opt ? "?" : ""); break;
        case 3: r += "(" + text_of(x, e.in) + ")" + (e.opt ? "?" : ""); break;
        case 4: r += "(?:" + text_of(x, e.in) + ")" + (e.opt ? "?" : ""); break;
        case 5: r += "(?=" + lit_re(x, e.s) + ")"; break;
        case 6: r += "(?!" + lit_re(x, e.s) + ")"; break;
        }
    }
    return r;
}
struct Cap { int b = -1, e = -1; };
// matching with continuations; greedy, leftmost.  Explosive cases are left out
struct TooMuch {}; static thread_local long t_steps;
struct M {
    const std::string &t; size_t end; std::vector<Cap> caps;
    typedef std::function<bool(size_t)> K;
    bool seq(const Pat &p, size_t i, size_t at, const K &k) {
        if (++t_steps > 60000) throw TooMuch();
        if (i == p.size()) return k(at);
        const El &e = p[i]; K next = [&](size_t a) { return seq(p, i + 1, a, k); };
        switch (e.k) {
        case 0: return t.compare(at, e.s.size(), e.s) == 0 && next(at + e.s.size());
        case 5: return t.compare(at, e.s.size(), e.s) == 0 && next(at);
        case 6: return t.compare(at, e.s.size(), e.s) != 0 && next(at);
        case 1: case 7: {
            int n = 0; while (n < e.hi && at + n < t.size() && (e.s.find(t[at + n]) != std::string::npos) == (e.k == 1)) n++;
            for (; n >= e.lo; n--) if (next(at + n)) return true;
            return false; }
        default: {
            auto keep = caps; bool cap = e.k != 4;
            if (seq(e.in, 0, at, [&](size_t a) { Cap o; if (cap) { o = caps[e.num]; caps[e.num].b = (int) at; caps[e.num].e = (int) a; } if (next(a)) return true; if (cap) caps[e.num] = o; return false; })) return true;
            caps = keep; return e.opt && next(at); }
        }
    }
};
static int number(Pat &p, int n) { for (auto &e : p) { if (e.k == 2 || e.k == 3) e.num = ++n; if (e.k >= 2 && e.k <= 4) n = number(e.in, n); } return n; }
static bool nullable(const Pat &p) { for (auto &e : p) { if (e.k == 0) return false; if ((e.k == 1 || e.k == 7) && e.lo) return false; if (e.k >= 2 && e.k <= 4 && !e.opt && !nullable(e.in)) return false; } return true; }
static void names(const Pat &p, std::vector<std::pair<int, std::string> > &v) { for (auto &e : p) { if (e.k == 2) v.emplace_back(e.num, e.name); if (e.k >= 2 && e.k <= 4) names(e.in, v); } }
static std::string sample(Ctx &x, const Pat &p)
{
    std::string r; for (auto &e : p) switch (e.k) {
        case 0: r += e.s; break; case 5: r += e.s; break; case 6: break;
        case 1: for (int n = x.range(e.lo, std::max(e.lo, std::min(e.hi, 3))); n > 0; n--) r += e.s[x.range(0, (int) e.s.size() - 1)]; break;
        case 7: for (int n = x.range(e.lo, std::max(e.lo, std::min(e.hi, 3))); n > 0; n--) r += e.s.find('z') == std::string::npos ? 'z' : 'w'; break;
        default: if (!e.opt || x.coin()) r += sample(x, e.in); }
    return r;
}
struct Tok { bool var = false; std::string s; };
struct Replace { Pat p; bool anchor = false; int groups = 0; std::vector<Tok> to; std::string from_text, to_text; };
typedef std::vector<Replace> Rule;
static const std::vector<std::string> NAMES = {"host", "path", "proto", "x1", "A"};
static Pat gen_pat(Ctx &x, int depth)
{
    Pat p; for (int n = x.range(1, depth ? 2 : 4); n > 0; n--) {
        El e; int k = x.weighted({8, 4, depth < 2 ? 4 : 0, depth < 2 ? 2 : 0, depth < 2 ? 1 : 0, 1, 1, 3});
        static const int map[] = {0, 1, 2, 3, 4, 5, 6, 7}; e.k = map[k];
        if (e.k == 0 || e.k == 5 || e.k == 6) e.s = x.coin() ? x.pick({"http://", "foo", "://", "/", "cx", "(", ".js", "a.b", "?q=", "[", "$"}) : x.str1("abc/.", 3);
        else if (e.k == 1) { e.s = x.pick({"abc", "a-c", "a/", "(b", "ab)", "^a" }); if (e.s == "a-c") e.s = "ac-"; if (e.s == "^a") e.s = "a^"; }
        else if (e.k == 7) e.s = x.pick({" /", "ab", "/?# ", "(", " ()", "z"});
        else { e.in = gen_pat(x, depth + 1); e.name = x.pick(NAMES); e.opt = x.chance(1, 5); }
        if (e.k == 1 || e.k == 7) switch (x.range(0, 3)) { case 0: break; case 1: e.hi = 1000000; break; case 2: e.lo = 0; e.hi = 1000000; break; default: e.lo = 0; e.hi = 1; }
        p.push_back(e);
    }
    if (p.empty()) { El e; e.s = "a"; p.push_back(e); }
    return p;
}
static Replace gen_replace(Ctx &x)
{
    Replace r; do r.p = gen_pat(x, 0); while (0);
    if (nullable(r.p)) { El e; e.s = x.pick({"a", "foo", "http://", "/"}); r.p.insert(r.p.begin() + x.range(0, (int) r.p.size()), e); }
    r.groups = number(r.p, 0); r.anchor = x.chance(1, 5); r.from_text = (r.anchor ? "^" : "") + text_of(x, r.p);
    for (int n = x.range(0, 4); n > 0; n--) { Tok t; t.var = x.coin(); t.s = t.var ? (x.chance(1, 8) ? "unset" : x.pick(NAMES)) : x.str1("ab/:$\\{}.", 4); r.to.push_back(t); }
    for (auto &t : r.to) if (t.var) r.to_text += "${" + t.s + "}"; else for (char c : t.s) { if (c == '$' || c == '\\') r.to_text += '\\'; r.to_text += c; }
    return r;
}
static bool apply(const Rule &rule, Vars &vars, std::string &txt, bool anchor, const std::vector<std::string> &skip)
{
    std::string out; size_t at = 0; bool any = false, first = anchor;
    for (;;) {
        const Replace *best = 0; size_t bb = 0, be = 0; std::vector<Cap> bc;
        for (auto &r : rule) {
            if (r.anchor && !first) continue;
            for (size_t s = at; s <= txt.size(); s++) {
                M m{txt, txt.size(), std::vector<Cap>(r.groups + 1)}; size_t e = 0;
                if (m.seq(r.p, 0, s, [&](size_t a) { e = a; return true; })) { if (!best || s < bb) { best = &r; bb = s; be = e; bc = m.caps; } break; }
                if (r.anchor) break;
            }
        }
        if (!best) break;
        first = false; any = true; std::vector<std::pair<int, std::string> > nm; names(best->p, nm); std::sort(nm.begin(), nm.end());
        for (auto &n : nm) vars[n.second] = bc[n.first].b < 0 ? "" : txt.substr(bc[n.first].b, bc[n.first].e - bc[n.first].b);
        std::string hit = txt.substr(bb, be - bb); bool sk = false; for (auto &l : skip) if (hit.find(l) != std::string::npos) sk = true;
        out += txt.substr(at, bb - at);
        if (sk) out += hit; else for (auto &t : best->to) if (!t.var) out += t.s; else { auto v = vars.find(t.s); if (v != vars.end()) out += v->second; }
        at = be;
    }
    out += txt.substr(at); txt = out; if (txt.size() > 600) throw TooMuch(); return any;
}
static bool quoted(const Rule &rule, Vars &vars, std::string &s, bool html, const std::vector<std::string> &skip)
{
    std::string out; size_t i = 0; bool any = false;
    while (i < s.size()) {
        std::string q; if (html && s.compare(i, 6, "&quot;") == 0) q = "&quot;"; else if (s[i] == '"' || s[i] == '\'') q = s.substr(i, 1);
        if (q.empty()) {
            if (s.compare(i, 2, "//") == 0) { size_t e = s.find('\n', i); if (e == std::string::npos) e = s.size(); out += s.substr(i, e - i); i = e; } else out += s[i++];
            continue;
        }
        size_t b = i + q.size(), e = b; while (e < s.size() && s[e] != '\n' && !(s.compare(e, q.size(), q) == 0 && (q.size() > 1 || s[e - 1] != '\\'))) e++;
        if (e == s.size()) { out += s.substr(i); break; }
        std::string l = s.substr(b, e - b); if (apply(rule, vars, l, true, skip)) any = true;
        size_t c = s[e] == '\n' ? 1 : q.size(); out += q + l + s.substr(e, c); i = e + c;
    }
    s = out; return any;
}
// ---- configuration
struct Within { std::vector<std::string> tag, attr, header; bool reqline = false, ql = false; std::vector<int> rules; };
struct Content { std::string type; std::vector<std::string> mime; bool any = false; std::vector<Within> w; };
struct Phase { std::vector<Rule> rules; std::vector<Content> c; bool safe = true; };
static std::string lower(std::string s) { for (char &c : s) c = tolower((unsigned char) c); return s; }
static bool hit(const std::vector<std::string> &alts, const std::string &s) { for (auto &a : alts) if (a == ".*" || lower(a) == lower(s)) return true; return false; }
static std::string alts(const std::vector<std::string> &v) { std::string r; for (auto &s : v) { if (!r.empty()) r += "|"; for (char c : s) { if (c == '+' || (c == '.' && s != ".*")) r += '\\'; r += c; } } return r; }
static Rule rule_of(const Phase &p, const Within &w) { Rule r; for (int i : w.rules) for (auto &e : p.rules[i]) r.push_back(e); return r; }
static bool exec(const Phase &p, const Within &w, Vars &v, std::string &t, bool anchor, const std::vector<std::string> &skip) { Rule r = rule_of(p, w); return w.ql ? quoted(r, v, t, true, skip) : apply(r, v, t, anchor, skip); }
static std::vector<std::string> some(Ctx &x, std::vector<std::string> from) { std::vector<std::string> v; for (int n = x.range(1, 2); n > 0; n--) v.push_back(x.pick(from)); return v; }
static Phase gen_phase(Ctx &x)
{
    Phase p; for (int n = x.range(1, 3); n > 0; n--) { Rule r; for (int k = x.weighted({1, 5, 4, 2}); k > 0; k--) r.push_back(gen_replace(x)); p.rules.push_back(r); }
    std::vector<std::string> types; int n = x.range(1, 4); for (int i = 0; i < n; i++) types.push_back(x.pick({"headers", "html", "html", "quoted-literal"}));
    for (auto &t : types) {
        Content c; c.type = t; if (t != "headers") { if (x.chance(1, 5)) c.any = true; else c.mime = some(x, {"text/html", "text/xml", "application/javascript", "application/xhtml+xml", ".*"}); }
        for (int k = x.range(t == "headers" ? 1 : 0, 3); k > 0; k--) {
            Within w; for (int r = x.weighted({0, 4, 1}); r > 0; r--) w.rules.push_back(x.range(0, (int) p.rules.size() - 1));
            if (t == "headers") { if (x.coin()) w.reqline = true; if (!w.reqline || x.chance(1, 4)) w.header = some(x, {"Link", "Location", "X-A", "Host", "content-type", "x-a"}); w.ql = x.chance(1, 6); }
            else if (t == "html") { if (x.coin()) w.tag = some(x, {"a", "script", "style", "b", ".*", "IMG"}); w.attr = some(x, {"href", "src", "onclick", "#text", "style", ".*"}); if (x.chance(1, 3) && !w.tag.empty()) w.attr = {"#text"}; w.ql = x.chance(1, 3); }
            c.w.push_back(w);
        }
        p.c.push_back(c);
    }
    return p;
}
static std::string phase_xml(const Phase &p, const char *el)
{
    std::string r = std::string("<") + el + " verbose=\"0\">"; for (size_t i = 0; i < p.rules.size(); i++) { r += "<rule name=\"r" + std::to_string(i) + "\">"; for (auto &e : p.rules[i]) r += "<rewrite from=\"" + zk::esc(e.from_text) + "\" to=\"" + zk::esc(e.to_text) + "\"/>"; r += "</rule>"; }
    for (auto &c : p.c) {
        r += "<content type=\"" + c.type + "\"" + (c.mime.empty() ? "" : " mime=\"" + alts(c.mime) + "\"") + ">";
        for (auto &w : c.w) { std::string ru; for (int k : w.rules) ru += (ru.empty() ? "r" : ",r") + std::to_string(k); r += "<within" + (w.tag.empty() ? "" : " tag=\"" + alts(w.tag) + "\"") + (w.attr.empty() ? "" : " attr=\"" + alts(w.attr) + "\"") + (w.header.empty() ? "" : " header=\"" + alts(w.header) + "\"") + (w.reqline ? " reqline=\"1\"" : "") + (w.ql ? " type=\"quoted-literal\"" : "") + " rule=\"" + ru + "\"/>"; }
        r += "</content>";
    }
    return r + "</" + el + ">";
}
// ---- messages
typedef std::vector<std::pair<std::string, std::string> > Heads;
struct Node { int k; std::string tag; std::vector<std::pair<std::string, std::pair<std::string, std::string> > > at; bool self = false; std::vector<Node> in; std::string text; };   // 0 text 1 element 2 comment
struct Case { std::string path, scheme_bind; Heads rh, sh; std::string rbody, sbody; std::vector<Node> doc; bool html = false; std::vector<std::pair<std::string, std::string> > skips; };
static std::string words(Ctx &x, const Phase &p, bool quotes, bool safe)
{
    std::string r; for (int n = x.len(6); n > 0; n--) switch (x.weighted({5, 4, quotes ? 3 : 0, 1})) {
        case 0: { auto &rl = x.pick(p.rules); if (rl.empty()) { r += "foo"; break; } std::string s = sample(x, rl[x.range(0, (int) rl.size() - 1)].p); r += s; break; }
        case 1: r += safe ? x.str("abcx/.:?=()zw$", 5) : x.str("abcx /.:?=()zw$,;", 6); break;
        case 2: { std::string q = x.pick({"\"", "'", "&quot;"}); r += q + (p.rules[0].empty() ? "foo" : sample(x, p.rules[0][0].p)) + x.str("abc/", 3) + (x.chance(1, 8) ? "\\" : "") + (x.chance(1, 6) ? (x.coin() ? "\n" : "") : q); break; }
        default: r += x.pick({"http://host/path", "https://h", "//", "foo", "cx"}); }
    bool anch = false; for (auto &rl : p.rules) for (auto &e : rl) anch |= e.anchor;     // ^ also matches after a line break: not modelled
    for (char &c : r) if (c == '<' || (anch && c == '\n') || c == '>' || (safe && (c == ' ' || c == '#'))) c = '_';
    return r;
}
static std::vector<Node> nodes(Ctx &x, const Phase &p, int depth)
{
    std::vector<Node> v; for (int n = x.range(depth ? 0 : 1, 4); n > 0; n--) {
        Node d; d.k = x.weighted({3, depth < 3 ? 5 : 0, 1});
        if (d.k == 0) { if (!v.empty() && v.back().k != 1) continue; d.text = words(x, p, true, false); }
        else if (d.k == 2) { continue; }
        else {
            d.tag = x.pick({"a", "A", "b", "img", "div", "script", "style", "p"});
            for (int k = x.range(0, 3); k > 0; k--) {
                std::string sep = x.pick({"\"", "'", "", "-"}), val = words(x, p, true, false); if (sep == "\"" || sep == "'") { std::string o; for (char c : val) if (c != sep[0]) o += c; val = o; }
                else if (sep.empty()) { std::string o; for (char c : val) if (isalnum((unsigned char) c) || strchr("./:", c)) o += c; while (!o.empty() && (o[0] == '/' || o.back() == '/')) { if (o[0] == '/') o = o.substr(1); else o.pop_back(); } val = "z" + o + "z"; }
                d.at.push_back({x.pick({"href", "HREF", "src", "onclick", "style", "class", "data-x"}), {sep, val}});
            }
            d.self = lower(d.tag) != "script" && x.chance(1, 5) && (d.at.empty() || !d.at.back().second.first.empty()); bool raw = lower(d.tag) == "script" || lower(d.tag) == "style";
            if (!d.self) { if (raw) { if (x.chance(4, 5)) { Node t; t.k = 0; t.text = words(x, p, true, false); d.in.push_back(t); } } else d.in = nodes(x, p, depth + 1); }
        }
        v.push_back(d);
    }
    return v;
}
// input and expected output of a document
struct Doc {
    const Phase &p; const Content *c; Vars &v; const std::vector<std::string> &skip; std::vector<const Within *> st; std::string in, out;
    void text(const std::string &t) { if (t.empty()) return; in += t; std::string s = t; if (c && !st.empty()) exec(p, *st.back(), v, s, false, skip); out += s; }
    void pop(const std::string &tag) { if (!st.empty() && hit(st.back()->tag, tag)) st.pop_back(); }
    void run(const std::vector<Node> &ns) {
        for (auto &n : ns) {
            if (n.k == 0) { text(n.text); continue; }
            in += "<" + n.tag; out += "<" + n.tag;
            if (c) for (auto &w : c->w) if (!w.tag.empty() && hit(w.tag, n.tag) && hit(w.attr, "#text")) { st.push_back(&w); break; }
            for (auto &a : n.at) {
                std::string val = a.second.second, sep = a.second.first; in += " " + a.first; out += " " + a.first; if (sep == "-") continue;
                in += "=" + sep + val + sep; if (c) for (auto &w : c->w) if ((w.tag.empty() || hit(w.tag, n.tag)) && hit(w.attr, a.first)) { exec(p, w, v, val, true, skip); break; }
                out += "=" + sep + val + sep;
            }
            if (n.self) { pop(n.tag); in += "/>"; out += "/>"; continue; }
            in += ">"; out += ">"; run(n.in); pop(n.tag); in += "</" + n.tag + ">"; out += "</" + n.tag + ">";
        }
    }
};
static std::string body_model(const Phase &p, const std::string &ct, const std::string &body, const std::vector<Node> &doc, bool html, Vars &v, const std::vector<std::string> &skip)
{
    if (body.empty() || ct == "-") return body;
    const Content *c = 0; for (auto &k : p.c) if (k.type != "headers" && (k.any || hit(k.mime, ct))) { c = &k; break; }
    if (!c || body.find('\0') != std::string::npos) return body;
    if (c->type == "html") { if (!html) return "?"; Doc d{p, c, v, skip}; d.run(doc); return d.out; }
    std::string s = body; if (!c->w.empty()) { Rule r = rule_of(p, c->w[0]); quoted(r, v, s, false, skip); } return s;
}
static const Content *heads_content(const Phase &p) { for (auto &c : p.c) if (c.type == "headers") return &c; return 0; }
static void heads_model(const Phase &p, Heads &h, Vars &v)
{
    const Content *c = heads_content(p); if (!c) return;
    for (auto &e : h) for (auto &w : c->w) if (hit(w.header, e.first)) exec(p, w, v, e.second, true, {});
}
static Heads heads_of(Z_HTTP_Header *h) { Heads v; for (; h; h = h->next) if (strcasecmp(h->name, "Content-Length")) v.emplace_back(h->name, h->value); return v; }
static std::string show(const Heads &h) { std::string r; for (auto &e : h) r += e.first + ": " + e.second + "\\n"; return r; }
struct World {
    std::unique_ptr<zk::Net> net; Phase rq, rs;
    World(const Phase &a, const Phase &b, bool with_rq = true, bool with_rs = true) : rq(a), rs(b) { net.reset(new zk::Net({&metaproxy_1_filter_http_rewrite}, zk::route("start", "<filter type=\"http_rewrite\">" + (with_rq ? phase_xml(a, "request") : std::string()) + (with_rs ? phase_xml(b, "response") : std::string()) + "</filter>" + zk::hook("b")))); if (!with_rq) rq = Phase(); if (!with_rs) rs = Phase(); }
    ~World() { zk::hooks().fn = nullptr; }
};
static Case gen_case(Ctx &x, const Phase &rq, const Phase &rs)
{
    Case c; c.path = x.coin() ? "http://h.example/" + words(x, rq, false, true) : "/" + words(x, rq, false, true); c.scheme_bind = x.pick({"@:9000", "ssl:@:9001", "tcp:@:9000"});
    if (!x.chance(1, 5)) c.rh.emplace_back("Host", x.pick({"h.example", "foo", "a.b:80"}));
    for (int n = x.range(0, 3); n > 0; n--) c.rh.emplace_back(x.pick({"Link", "X-A", "Referer", "Location"}), "v" + words(x, rq, false, true));
    auto bodies = [&](const Phase &p, Heads &h, std::string &b, std::vector<Node> *d) {
        std::string ct = x.pick({"text/html", "text/html", "TEXT/HTML", "text/xml", "application/javascript", "image/png", "-"}); if (ct != "-") h.emplace_back("Content-Type", ct);
        if (x.chance(1, 8)) return;
        bool ashtml = false; const Content *cc = 0; for (auto &k : p.c) if (k.type != "headers" && (k.any || hit(k.mime, ct))) { cc = &k; break; }
        if (cc && cc->type == "html") ashtml = true;
        if (ashtml) { std::vector<Node> ns = nodes(x, p, 0); Vars v; std::vector<std::string> none; Doc dd{p, 0, v, none}; dd.run(ns); b = dd.in; if (d) { *d = ns; c.html = true; } else b = ""; }
        else { b = words(x, p, true, false); for (char &ch : b) (void) ch; if (x.chance(1, 8) && !b.empty()) b[x.range(0, (int) b.size() - 1)] = 0; }
    };
    std::vector<Node> none; if (x.chance(1, 4)) bodies(rq, c.rh, c.rbody, 0);
    for (int n = x.range(0, 3); n > 0; n--) c.sh.emplace_back(x.pick({"Link", "X-A", "Location", "link"}), "v" + words(x, rs, false, true));
    c.html = false; bodies(rs, c.sh, c.sbody, &c.doc);
    if (x.chance(1, 4)) for (int n = x.range(1, 2); n > 0; n--) c.skips.emplace_back(x.pick({".*", "http", "nomatch", "h.example", "https"}), x.pick({"a", "foo", "http", "/", "z"}));
    return c;
}
struct Out { std::string path; Heads rh, sh; std::string rb, sb; bool got = false; };
// run one exchange through the filter
static std::string exchange(World &w, const Case &c, Out &o, bool badskip = false)
{
    zk::Mem m; Z_GDU *g = z_get_HTTP_Request(m); Z_HTTP_Request *r = g->u.HTTP_Request; r->method = (char *) "GET"; r->version = (char *) "1.1"; r->path = odr_strdup(m, c.path.c_str()); r->headers = 0;
    for (auto &h : c.rh) z_HTTP_header_add(m, &r->headers, h.first.c_str(), h.second.c_str());
    for (auto &s : c.skips) z_HTTP_header_add(m, &r->headers, "X-Metaproxy-SkipLink", (s.first + " " + s.second).c_str());
    if (badskip) { z_HTTP_header_add(m, &r->headers, "X-Metaproxy-SkipLink", "( a"); z_HTTP_header_add(m, &r->headers, "X-Metaproxy-SkipLink", ".* [b"); z_HTTP_header_add(m, &r->headers, "X-Metaproxy-SkipLink", "none"); }
    r->content_buf = (char *) c.rbody.data(); r->content_len = (int) c.rbody.size();
    zk::mp::Session s; zk::mp::Origin og; og.set_tcpip_address("127.0.0.1 " + c.scheme_bind, s.id()); zk::mp::Package p(s, og); p.router(*w.net->r); p.request() = g;
    p.move(); Z_GDU *a = p.response().get();
    if (!a || a->which != Z_GDU_HTTP_Response) return "no HTTP response";
    o.sh = heads_of(a->u.HTTP_Response->headers); o.sb.assign(a->u.HTTP_Response->content_buf ? a->u.HTTP_Response->content_buf : "", a->u.HTTP_Response->content_len); return "";
}
static thread_local const Case *t_case; static thread_local Out *t_out;
static void backend(const zk::Hook *, zk::mp::Package &p)
{
    Z_GDU *g = p.request().get(); if (!g || g->which != Z_GDU_HTTP_Request) return;
    Z_HTTP_Request *r = g->u.HTTP_Request; t_out->got = true; t_out->path = r->path; t_out->rh = heads_of(r->headers); t_out->rb.assign(r->content_buf ? r->content_buf : "", r->content_len);
    zk::mp::odr m; Z_GDU *a = z_get_HTTP_Response(m, 200); Z_HTTP_Response *s = a->u.HTTP_Response; s->headers = 0; for (auto &h : t_case->sh) z_HTTP_header_add(m, &s->headers, h.first.c_str(), h.second.c_str());
    s->content_buf = (char *) t_case->sbody.data(); s->content_len = (int) t_case->sbody.size(); p.response() = a;
}
static bool model(const World &w, const Case &c, Out &o)
{
    t_steps = 0; try {

    Vars v; std::string url = c.path, proto = c.scheme_bind.compare(0, 4, "ssl:") ? "http" : "https", host; bool has = false; for (auto &h : c.rh) if (lower(h.first) == "host") { host = h.second; has = true; break; }
    bool abs = url.compare(0, 7, "http://") == 0 || url.compare(0, 8, "https://") == 0; o.path = c.path;
    if (abs || has) { std::string full = abs ? url : proto + "://" + host + url; const Content *k = heads_content(w.rq); if (k) for (auto &t : k->w) if (t.reqline && exec(w.rq, t, v, full, true, {})) o.path = full; }
    std::string page = o.path; if (page.compare(0, 7, "http://") && page.compare(0, 8, "https://") && has) page = proto + "://" + host + page;
    std::vector<std::string> skip; for (auto &s : c.skips) if (s.first == ".*" || page.find(s.first == "h.example" ? "h.example" : s.first) != std::string::npos) skip.push_back(s.second);
    o.rh = c.rh; heads_model(w.rq, o.rh, v); auto ct = [](const Heads &h) { for (auto &e : h) if (lower(e.first) == "content-type") return e.second; return std::string("-"); };
    o.rb = body_model(w.rq, ct(o.rh), c.rbody, {}, false, v, skip);
    o.sh = c.sh; heads_model(w.rs, o.sh, v); o.sb = body_model(w.rs, ct(o.sh), c.sbody, c.doc, c.html, v, skip); o.got = true;
    } catch (TooMuch &) { return false; }
    return true;
}
static bool usable(const Case &c, const Out &m)      // what HTTP itself can carry
{
    if (m.path.empty() || m.path.find_first_of(" \n") != std::string::npos) return false;
    for (auto *h : {&m.rh, &m.sh}) for (auto &e : *h) if (e.second.empty() || e.second[0] == ' ' || e.second.back() == ' ' || e.second.find('\n') != std::string::npos || lower(e.first) == "transfer-encoding") return false;
    return m.rb != "?" && m.sb != "?";
}
static bool compare(const Out &got, const Out &want, std::string &why)
{
    if (!got.got) { why = "request not passed on"; return false; }
    if (got.path != want.path) why = "request line: got <" + got.path + "> expected <" + want.path + ">"; else if (show(got.rh) != show(want.rh)) why = "request headers: got <" + show(got.rh) + "> expected <" + show(want.rh) + ">";
    else if (got.rb != want.rb) why = "request body: got <" + got.rb + "> expected <" + want.rb + ">"; else if (show(got.sh) != show(want.sh)) why = "response headers: got <" + show(got.sh) + "> expected <" + show(want.sh) + ">";
    else if (got.sb != want.sb) why = "response body: got <" + got.sb + "> expected <" + want.sb + ">";
    return why.empty();
}
static bool mark(Ctx &x, const Case &c, const Out &m)
{
    bool ch = false; if (m.path != c.path) { x.label("request line rewritten"); ch = true; } if (m.rh != c.rh) { x.label("request header rewritten"); ch = true; } if (m.sh != c.sh) { x.label("response header rewritten"); ch = true; } if (m.sb != c.sbody) { x.label("response body rewritten"); ch = true; } if (m.rb != c.rbody) x.label("request body rewritten");
    return ch;
}
static void exchanges(Ctx &x)
{
    Phase a = gen_phase(x), b = gen_phase(x); bool wa = x.chance(9, 10), wb = x.chance(9, 10); x.desc << phase_xml(a, "request") << phase_xml(b, "response"); World w(a, b, wa, wb); zk::hooks().fn = backend;
    for (int n = x.range(1, 4); n > 0; n--) {
        Case c = gen_case(x, a, b); Out m, o; if (!model(w, c, m) || !usable(c, m)) { x.label("skipped"); continue; }
        t_case = &c; t_out = &o; x.desc << "\n " << c.scheme_bind << " " << c.path << " " << show(c.rh) << " [" << c.rbody << "] -> " << show(c.sh) << " [" << c.sbody << "]"; for (auto &s : c.skips) x.desc << " skip " << s.first << " " << s.second;
        bool bs = x.chance(1, 20); std::string e = exchange(w, c, o, bs); x.check(e.empty(), e); std::string why; x.check(compare(o, m, why), why); if (mark(x, c, m)) x.nontrivial = true;
    }
}
static void threads(Ctx &x)
{
    Phase a = gen_phase(x), b = gen_phase(x); World w(a, b); zk::hooks().fn = backend; int T = x.range(2, 4); std::vector<std::vector<Case> > cs(T); std::vector<std::vector<Out> > ms(T); std::vector<std::string> bad(T); std::vector<std::thread> th; std::atomic<int> go(0); x.desc << phase_xml(a, "request") << phase_xml(b, "response");
    for (int t = 0; t < T; t++) for (int n = x.range(1, 4); n > 0; n--) { Case c = gen_case(x, a, b); Out m; if (!model(w, c, m) || !usable(c, m)) continue; if (mark(x, c, m)) x.nontrivial = true; cs[t].push_back(c); ms[t].push_back(m); }
    for (int t = 0; t < T; t++) th.emplace_back([&, t] { go++; while (go < T) {} for (int rep = 0; rep < 3; rep++) for (size_t i = 0; i < cs[t].size(); i++) { Out o; t_case = &cs[t][i]; t_out = &o; std::string e = exchange(w, cs[t][i], o); if (e.empty()) compare(o, ms[t][i], e); if (!e.empty()) { bad[t] = e; return; } } });
    for (auto &t : th) t.join();
    for (auto &s : bad) if (!s.empty()) x.fail(s);
}
// patterns that match nothing at all somewhere: any result, but a result
static void empties(Ctx &x)
{
    std::string from = x.pick({"x*", "()", "a?", "(?<host>b*)", "^", "$", "(?=a)", "\\b", "^a*", "(a|)"}), to = x.pick({"", "y", "${host}", "xx"}); x.desc << from << " => " << to; x.nontrivial = true;
    std::string ph = "<rule name=\"r\"><rewrite from=\"" + zk::esc(from) + "\" to=\"" + to + "\"/></rule><content type=\"headers\"><within header=\".*\" rule=\"r\"/></content><content type=\"html\" mime=\".*\"><within attr=\"href\" rule=\"r\"/><within tag=\"b\" attr=\"#text\" rule=\"r\"/></content>";
    zk::Net net({&metaproxy_1_filter_http_rewrite}, zk::route("start", "<filter type=\"http_rewrite\"><response>" + ph + "</response></filter>" + zk::hook("b"))); zk::hooks().fn = backend;
    Case c; c.path = "/"; c.sh = {{"Content-Type", "text/html"}, {"X-A", "v" + x.str("abx ", 6) + "v"}}; c.sbody = "<b>" + x.str("abx ", 8) + "</b><a href=\"" + x.str("abx ", 8) + "\">"; Out o; t_case = &c; t_out = &o; zk::Mem m; Z_GDU *g = z_get_HTTP_Request(m); g->u.HTTP_Request->path = (char *) "/"; zk::Client cl(net);
    Z_GDU *r = cl.send(g); zk::hooks().fn = nullptr; x.check(r && r->which == Z_GDU_HTTP_Response, "no response"); std::string b(r->u.HTTP_Response->content_buf ? r->u.HTTP_Response->content_buf : "", r->u.HTTP_Response->content_len); x.check(b.compare(0, 3, "<b>") == 0 && b.find("</b><a href=\"") != std::string::npos, "document damaged: " + b);
    // what the rule does not match stays, in order
    std::string left, orig; for (char ch : b) if (ch == ' ') left += ch; for (char ch : c.sbody) if (ch == ' ') orig += ch; x.eq(left, orig, "unmatched characters");
}
static void config(Ctx &x)
{
    x.nontrivial = true; bool threw = false; int k = x.range(0, 13); static const char *bad[] = {"<rule name=\"a\"><rewrite from=\"a\" to=\"$b\"/></rule>", "<rule name=\"a\"><rewrite from=\"a\" to=\"x${b\"/></rule>", "<rule name=\"a\"><rewrite from=\"(a\" to=\"b\"/></rule>", "<rule name=\"a\"><rewrite from=\"(?&lt;a_b>a)\" to=\"b\"/></rule>", "<rule name=\"a\"><rewrite from=\"(?&lt;ab\" to=\"b\"/></rule>", "<rule name=\"a\"><rewrite form=\"a\" to=\"b\"/></rule>", "<rule name=\"a\"><replace from=\"a\" to=\"b\"/></rule>", "<content type=\"html\"><within attr=\"a\" rule=\"nosuch\"/></content>", "<rule name=\"a\"/><content type=\"html\"><within attr=\"a\" rule=\"a,nosuch\"/></content>", "<rule name=\"a\"/><content mime=\"text/html\"><within attr=\"a\" rule=\"a\"/></content>", "<rule name=\"a\"/><content type=\"html\"><within attr=\"a\" type=\"js\" rule=\"a\"/></content>", "<rules/>", "<rule name=\"a\"><rewrite from=\"a\" to=\"$\"/></rule>", "<rule name=\"a\"/><content type=\"html\" mime=\"(\"/>"};
    std::string c = bad[k]; x.desc << c; std::string el = x.coin() ? "request" : "response"; std::string xml = "<filter type=\"http_rewrite\"><" + el + ">" + c + "</" + el + "></filter>"; if (x.chance(1, 8)) { xml = "<filter type=\"http_rewrite\"><requests/></filter>"; }
    try { zk::Net n({&metaproxy_1_filter_http_rewrite}, zk::route("start", xml)); } catch (std::exception &) { threw = true; }
    x.eq(threw, true, "configuration refused");
}
int main(int argc, char **argv)
{
    zk::quiet();
    Check c; c.id = "C18";
    c.add("exchanges", 16000, 200000, "a rule changed something", exchanges)
     .add("threads", 150, 3000, "a rule changed something", threads, false)
     .add("empties", 300, 6000, "all (patterns that can match nothing)", empties)
     .add("config", 200, 1000, "all", config);
    return run(c, argc, argv);
}
