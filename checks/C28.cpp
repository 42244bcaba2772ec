// SOURCES: kit filter_http_client
// SHIM: core net
// VARIANTS: asan tsan
// The HTTP client: a request reaches the server it names with its contents, and the answer of that server comes back.
#include "../models/netkit.hpp"
ZK_FILTER(http_client)
#include <fstream>
using namespace pbt;
typedef std::vector<std::pair<std::string, std::string> > Hdrs;
static std::string num(long n) { return std::to_string(n); }
static std::string low(std::string s) { for (auto &c : s) c = (char) tolower((unsigned char) c); return s; }
// what the server is to do with a request, by the number in its path
struct Plan { int code = 200; std::string reason; Hdrs hdrs; std::string body, mode; std::vector<int> cuts; int hops = 0; bool absolute = false; int nap = 0; bool head = false; int redirect = 302; };
struct Seen { int port; std::string line, peer, body; Hdrs hdrs; };
static std::string show(const Hdrs &h) { std::string r; for (auto &x : h) r += x.first + "=" + x.second + "|"; return r; }
static bool one_of(const std::string &n, std::initializer_list<const char *> l) { for (auto x : l) if (low(x) == low(n)) return true; return false; }
static Hdrs drop(const Hdrs &h, std::initializer_list<const char *> l) { Hdrs r; for (auto &x : h) if (!one_of(x.first, l)) r.push_back(x); return r; }
static std::string find(const Hdrs &h, const char *n, int *count = 0) { std::string r; int c = 0; for (auto &x : h) if (low(x.first) == low(n)) { if (!c) r = x.second; c++; } if (count) *count = c; return r; }
static const char *BIND = "http_client bind_host: the request line contains the address bound to";
static bool listed(const std::string &key) { static const std::string all = [] { std::ifstream f((std::string(getenv("PBT_HOME")) + "/known-findings.txt")); std::stringstream s; s << f.rdbuf(); return s.str(); }(); return all.find("known: property=C28 " + key) != std::string::npos; }
static void parse(const std::string &raw, Seen &s)
{
    size_t e = raw.find("\r\n\r\n"), p = raw.find("\r\n"); s.line = raw.substr(0, p); s.body = raw.substr(e + 4);
    while (p < e) { p += 2; size_t n = raw.find("\r\n", p); std::string l = raw.substr(p, n - p); size_t c = l.find(": "); s.hdrs.push_back(c == std::string::npos ? std::make_pair(l, std::string()) : std::make_pair(l.substr(0, c), l.substr(c + 2))); p = n; }
}
struct World {
    nk::Target t; std::mutex m; std::map<int, Plan> plans; std::map<int, std::vector<Seen> > seen; std::vector<std::string> at; std::string dead; std::atomic<int> passed{0};
    static int key_of(const std::string &line) { size_t p = line.find("/k"); return p == std::string::npos ? -1 : atoi(line.c_str() + p + 2); }
    static int hop_of(const std::string &line) { size_t p = line.find("/hop~"); return p == std::string::npos ? 0 : atoi(line.c_str() + p + 5); }
    nk::Target::Out reply(nk::Target::Link &k, const nk::Msg &q) {
        nk::Target::Out o; Seen s; s.port = k.port; s.peer = k.peer; parse(q.raw, s); int key = key_of(s.line), hop = hop_of(s.line); Plan p;
        { std::lock_guard<std::mutex> l(m); seen[key].push_back(s); auto i = plans.find(key); if (i == plans.end()) { o.close = true; return o; } p = i->second; }
        o.nap = p.nap;
        if (hop < p.hops) { o.bytes = "HTTP/1.1 " + num(p.redirect) + " Elsewhere\r\nLocation: " + (p.absolute ? "http://" + at[(k.port + 1) % 2] : "") + "/k" + num(key) + "/hop~" + num(hop + 1) + "\r\nX-Hop: " + num(hop) + "\r\nContent-Length: 0\r\n\r\n"; return o; }
        if (p.mode == "silent") { o.close = true; return o; }
        if (p.mode == "junk") { o.bytes = "\x30\x05hello" + std::string(30, '\xff'); o.close = true; return o; }
        o.bytes = "HTTP/1.1 " + num(p.code) + " " + p.reason + "\r\n"; size_t half = p.hdrs.size() / 2; auto add = [&](size_t a, size_t b) { for (; a < b; a++) o.bytes += p.hdrs[a].first + ": " + p.hdrs[a].second + "\r\n"; };
        add(0, half);
        if (p.mode == "chunked") {
            o.bytes += "Transfer-Encoding: chunked\r\n"; add(half, p.hdrs.size()); o.bytes += "\r\n"; size_t a = 0; char h[20];
            for (size_t i = 0; i <= p.cuts.size() && a < p.body.size(); i++) { size_t n = i < p.cuts.size() ? std::min<size_t>(p.cuts[i], p.body.size() - a) : p.body.size() - a; if (!n) continue; snprintf(h, sizeof h, i & 1 ? "%zX\r\n" : "%zx\r\n", n); o.bytes += h; o.bytes.append(p.body, a, n); o.bytes += "\r\n"; a += n; }
            o.bytes += "0\r\n\r\n"; return o;
        }
        if (p.mode == "close") { add(half, p.hdrs.size()); o.bytes += "\r\n" + p.body; o.close = true; return o; }
        if (p.mode != "bare") o.bytes += "Content-Length: " + num((long) p.body.size()) + "\r\n"; add(half, p.hdrs.size()); o.bytes += "\r\n"; if (!p.head) o.bytes += p.body; return o;
    }
    World() {
        t.answer = [this](nk::Target::Link &k, const nk::Msg &q) { return reply(k, q); };
        for (int i = 0; i < 3; i++) at.push_back("127.0.0.1:" + num(t.listen_tcp())); dead = "127.0.0.1:" + num(t.listen_tcp(-1, false)); t.go();
        zk::hooks().fn = [this](const zk::Hook *, zk::mp::Package &p) { passed++; Z_GDU *g = p.request().get(); if (!g) return; zk::Mem o; if (g->which == Z_GDU_HTTP_Request) { p.response() = z_get_HTTP_Response(o, 299); } else p.response() = zk::init_reply(o, g->u.z3950, 0, ""); };
    }
    ~World() { zk::hooks().fn = nullptr; }
};
struct Conf { std::string xml, proxy, def; int redirects = 0; bool xff = false, bind = false; };
static Conf conf(Ctx &x, World &w)
{
    Conf c; std::vector<std::string> e;
    if (x.coin()) { c.def = std::string("http://") + w.at[x.range(0, 1)] + x.pick({"", "", "/base", "/a/b"}); e.push_back("<default-host>" + c.def + "</default-host>"); }
    if (x.chance(1, 4)) { c.proxy = w.at[2]; e.push_back("<proxy>" + c.proxy + "</proxy>"); }
    if (x.coin()) { c.redirects = x.range(0, 3); e.push_back("<max-redirects>" + num(c.redirects) + "</max-redirects>"); }
    if (x.coin()) { c.xff = x.coin(); e.push_back(std::string("<x-forwarded-for>") + (c.xff ? "true" : "false") + "</x-forwarded-for>"); }
    if (x.chance(1, 3)) { c.bind = x.coin(); e.push_back(std::string("<bind_host>") + (c.bind ? "1" : "0") + "</bind_host>"); }
    while (e.size()) { int i = x.range(0, (int) e.size() - 1); c.xml += e[i]; e.erase(e.begin() + i); }
    return c;
}
static std::string word(Ctx &x, int n) { return x.str1("abcXYZ019._-", n); }
static std::string blob(Ctx &x, int kind) { std::string r; if (kind == 0) return r; if (kind == 1) return x.str1("abc <>&\"\r\n0123", 40); if (kind == 2) return x.bytes(60); int n = x.range(1000, kind == 3 ? 20000 : 150000); uint32_t h = (uint32_t) x.range(0, 100000); for (int i = 0; i < n; i++) { h = h * 1103515245 + 12345; r += (char) (h >> 16); } return r; }
// one request, what the server shall do, what shall come of it
struct Req {
    int key; std::string method, path, version, target; Hdrs hdrs; std::string body; Plan plan; std::string kind, proxy; int port = -1; std::string want_path, bind; std::string peer;
};
static Req make(Ctx &x, World &w, const Conf &c, int key, const std::string &peer, const std::string &bind)
{
    Req r; r.key = key; r.peer = peer; r.bind = bind; r.method = x.pick({"GET", "GET", "POST", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH"}); r.version = x.chance(1, 5) ? "1.0" : "1.1";
    std::string tail = "/k" + num(key); int segs = x.range(0, 3); for (int i = 0; i < segs; i++) tail += "/" + x.str("abcXYZ019._-~%2F+=,;:!$&'()*", 8);
    if (x.coin()) { tail += "?"; tail += x.str("abc=&%20+/?:;,.", 30); }
    int t = x.weighted({4, 4, 1, 1, 1}); if (t == 0 && c.def.empty() && x.chance(3, 4)) t = 1; std::string frag = x.chance(1, 12) ? "#" + word(x, 4) : "";
    if (t == 0) { r.path = tail + frag; if (c.def.empty()) r.kind = "none"; else { size_t s = c.def.find('/', 7); r.target = c.def.substr(7, s == std::string::npos ? std::string::npos : s - 7); r.want_path = (s == std::string::npos ? "" : c.def.substr(s)) + tail; } }
    else if (t == 1) { r.target = w.at[x.range(0, 1)]; r.path = "http://" + r.target + tail + frag; r.want_path = tail; }
    else if (t == 2) { r.target = w.dead; r.path = "http://" + w.dead + tail; r.want_path = tail; r.kind = "unreachable"; }
    else if (t == 3) { r.path = x.pick({"*", "a", "foo/bar", "http://", "http://no.such.host.invalid/x", "http://127.0.0.1:x/"}); r.path += r.path.back() == '/' ? tail.substr(1) : ""; r.kind = "unreachable"; r.target = "bad"; }
    else { r.path = ""; r.kind = "none"; }
    r.proxy = c.proxy; std::vector<std::pair<std::string, std::string> > h;
    int n = x.len(10), lots = 0; for (int i = 0; i < n; i++) { int k = x.range(0, 8); std::string v = !lots++ && x.chance(1, 6) ? std::string((size_t) x.range(200, 2000), 'v') : x.str1("abc019,;=/ \"()", 12); while (v.size() && v.back() == ' ') v.pop_back(); while (v.size() && v[0] == ' ') v.erase(0, 1); h.push_back({k < 5 ? "X-" + word(x, 5) : k == 5 ? "Accept" : k == 6 ? "Cookie" : k == 7 ? "Content-Type" : "Authorization", v}); }
    auto put = [&](const std::string &a, const std::string &b) { h.insert(h.begin() + x.range(0, (int) h.size()), {a, b}); };
    if (x.coin()) put(x.pick({"Host", "host"}), x.pick({"front.example.com", "10.0.0.1:80"}));
    if (x.coin()) put(x.pick({"User-Agent", "user-agent"}), "me/" + word(x, 3));
    if (x.chance(1, 3)) put(x.pick({"X-Forwarded-For", "x-forwarded-for"}), x.pick({"10.9.8.7", "10.9.8.7, 10.0.0.2"}));
    if (x.chance(1, 5)) put("Connection", x.pick({"close", "Keep-Alive"}));
    if (x.chance(1, 4)) { int k = x.range(0, 6); r.proxy = k < 5 ? w.at[k % 3] : k == 5 ? w.dead : ""; put("X-Metaproxy-Proxy", r.proxy); }
    r.hdrs = h; if (r.method != "GET" && r.method != "HEAD" && x.chance(4, 5)) r.body = blob(x, x.weighted({1, 4, 3, 1, 1}));
    if (r.kind != "none") { if (r.proxy.size()) { if (r.target == "bad") r.kind = "odd"; else { r.kind = r.proxy == w.dead ? "unreachable" : ""; r.want_path = "http://" + r.target + r.want_path; r.target = r.proxy; } } for (int i = 0; i < 3; i++) if (w.at[i] == r.target) r.port = i; }
    // the answer
    Plan &p = r.plan; p.code = x.pick({200, 200, 200, 201, 206, 400, 403, 404, 500, 503}); p.reason = x.pick({"OK", "Fine", "Not so good"}); p.head = r.method == "HEAD";
    int m = x.len(8); for (int i = 0; i < m; i++) p.hdrs.push_back({x.coin() ? "X-" + word(x, 5) : x.pick({"Set-Cookie", "Content-Type", "Server", "ETag", "Location", "Connection"}), x.str1("abc019,;=/", 20)}); if (x.chance(1, 8)) p.hdrs.push_back({"Connection", x.pick({"close", "Keep-Alive"})});
    p.body = p.head ? "" : blob(x, x.weighted({1, 4, 3, 2, 1})); p.mode = x.pick({"length", "length", "length", "chunked", "chunked", "close", "silent", "junk"}); if (p.head && p.mode != "silent" && p.mode != "junk") p.mode = "length";
    if (p.mode == "close") { Hdrs d = drop(p.hdrs, {"Connection"}); p.hdrs = d; p.hdrs.push_back({"Connection", "close"}); }
    if (p.mode == "chunked") for (int i = x.len(20); i > 0; i--) p.cuts.push_back(x.range(1, x.coin() ? 10 : 4000));
    if (x.chance(1, 10)) { p.code = x.pick({204, 304}); p.body = ""; p.mode = "bare"; }
    if (x.chance(1, 5)) { p.hops = x.range(1, 4); p.absolute = x.coin(); p.redirect = x.pick({301, 302, 307}); } if (x.chance(1, 6)) p.nap = x.range(1, 6);
    if (r.kind.empty()) r.kind = p.mode == "silent" || p.mode == "junk" ? "broken" : "ok";
    return r;
}
static Z_GDU *gdu(ODR o, const Req &r)
{
    Z_GDU *g = z_get_HTTP_Request(o); Z_HTTP_Request *h = g->u.HTTP_Request; h->method = odr_strdup(o, r.method.c_str()); h->version = odr_strdup(o, r.version.c_str()); h->path = odr_strdup(o, r.path.c_str()); h->headers = 0;
    for (auto &p : r.hdrs) z_HTTP_header_add(o, &h->headers, p.first.c_str(), p.second.c_str());
    if (r.body.size()) { h->content_buf = odr_strdupn(o, r.body.data(), r.body.size()); h->content_len = (int) r.body.size(); }
    return g;
}
static void judge(Ctx &x, World &w, const Conf &c, const Req &r, zk::Client &cl, Z_GDU *g)
{
    std::vector<Seen> seen; { std::lock_guard<std::mutex> l(w.m); seen = w.seen[r.key]; }
    x.check(g && g->which == Z_GDU_HTTP_Response, "no HTTP response but " + zk::print(g)); Z_HTTP_Response *h = g->u.HTTP_Response; std::string body(h->content_buf ? h->content_buf : "", h->content_buf ? h->content_len : 0); Hdrs hd; for (Z_HTTP_Header *i = h->headers; i; i = i->next) hd.push_back({i->name, i->value});
    std::string conn; for (auto &p : r.hdrs) if (p.first == "Connection") { conn = p.second; break; }
    if (r.kind == "none") { x.eq(h->code, 404, "code for a request without target"); x.check(seen.empty(), "a server was asked"); x.check(body.find("no target URI specified") != std::string::npos, "no explanation: " + body); }
    else if (r.kind == "unreachable") { x.eq(h->code, 502, "code for a server that cannot be reached"); x.check(seen.empty(), "another server was asked"); }
    else if (r.kind == "odd") return;
    else {
        int follow = std::min(r.plan.hops, c.redirects); x.eq((int) seen.size(), follow + 1, "requests at the servers"); Seen &s = seen[0]; bool gone = r.kind == "broken" && r.plan.hops <= c.redirects;
        x.eq(s.port, r.port, "server asked");
        std::string line = r.method + " " + r.want_path + " HTTP/1.1", odd = r.method + " " + r.want_path + " " + r.bind + " HTTP/1.1";
        if (c.bind) { s.line == odd && listed(BIND) ? known_finding(BIND) : x.eq(s.line, line, "request line"); x.eq(s.peer, r.bind, "address the connection was made from"); }
        else x.eq(s.line, line, "request line");
        x.eq(s.body, r.body, "body at the server"); int nh = 0; std::string host = find(s.hdrs, "Host", &nh); x.eq(nh, 1, "Host headers at the server"); if (r.proxy.empty()) x.eq(host, r.target, "Host at the server");
        x.eq(show(drop(s.hdrs, {"Host", "User-Agent", "Content-Length", "X-Forwarded-For"})), show(drop(r.hdrs, {"Host", "User-Agent", "X-Forwarded-For", "X-Metaproxy-Proxy"})), "headers at the server"); x.eq(find(s.hdrs, "X-Metaproxy-Proxy"), std::string(), "X-Metaproxy-Proxy at the server");
        std::string old = find(r.hdrs, "X-Forwarded-For"); int nu = 0; std::string ua = find(s.hdrs, "User-Agent", &nu), mine = find(r.hdrs, "User-Agent"); x.eq(nu, 1, "User-Agent headers at the server"); if (mine.size()) x.eq(ua, mine, "User-Agent at the server"); int nx = 0; std::string got = find(s.hdrs, "X-Forwarded-For", &nx); x.eq(got, c.xff ? (old.empty() ? "" : old + ", ") + r.peer : old, "X-Forwarded-For"); x.eq(nx, got.empty() ? 0 : 1, "X-Forwarded-For headers");
        for (int i = 1; i <= follow; i++) { Seen &k = seen[i]; x.check(k.line.find("/k" + num(r.key) + "/hop~" + num(i)) != std::string::npos, "redirect followed to " + k.line); x.eq(k.port, r.proxy.size() ? r.port : r.plan.absolute ? (r.port + i) % 2 : r.port, "server redirected to"); }
        if (gone) { x.eq(h->code, 502, "code for a server that breaks off"); }
        else if (r.plan.hops > c.redirects) { x.eq(h->code, r.plan.redirect, "code of a redirect that is not followed"); x.eq(find(hd, "X-Hop"), num(follow), "redirect passed on"); }
        else {
            x.eq(h->code, r.plan.code, "code"); x.check(body == r.plan.body, "body of " + num((long) r.plan.body.size()) + " " + r.plan.mode + ": got " + num((long) body.size()) + " " + q(body.substr(0, 100)));
            x.eq(show(drop(hd, {"Content-Length"})), show(r.plan.hdrs), "headers of the response"); int nc = 0; std::string cl_ = find(hd, "Content-Length", &nc); if (body.size()) { x.eq(cl_, num((long) body.size()), "Content-Length"); } x.check(nc <= 1, "Content-Length twice");
        }
    }
    x.eq(w.passed.load(), 0, "HTTP requests passed on");
    bool keep = r.version == "1.0" ? conn == "Keep-Alive" : conn != "close"; x.eq(cl.closed, !keep, "session closed");
}
static std::string text(const Req &r, const World &w) { std::string p = r.path; for (int i = 0; i < 4; i++) { std::string a = i < 3 ? w.at[i] : w.dead; for (size_t f; (f = p.find(a)) != std::string::npos;) p.replace(f, a.size(), i < 3 ? "$" + num(i) : "dead"); } return r.method + " " + q(p) + " " + r.version + " body " + num((long) r.body.size()) + " " + num((long) r.hdrs.size()) + " headers -> " + (r.kind == "ok" ? num(r.plan.code) + " " + r.plan.mode + " " + num((long) r.plan.body.size()) + " hops " + num(r.plan.hops) : r.kind) + "; "; }
static std::unique_ptr<zk::Net> start(const Conf &c) { return std::unique_ptr<zk::Net>(new zk::Net({&metaproxy_1_filter_http_client}, zk::route("start", "<filter type=\"http_client\">" + c.xml + "</filter>" + zk::hook("rest")))); }
static void requests(Ctx &x)
{
    World w; Conf c = conf(x, w); std::string sh = c.xml; for (int i = 0; i < 3; i++) for (size_t f; (f = sh.find(w.at[i])) != std::string::npos;) sh.replace(f, w.at[i].size(), "$" + num(i)); x.desc << sh << ": ";
    std::unique_ptr<zk::Net> net = start(c); int ns = x.range(1, 2), no = 0, good = 0; std::vector<std::unique_ptr<zk::Client> > cs; std::vector<std::string> peer, bind; std::vector<bool> open(ns, true);
    for (int i = 0; i < ns; i++) { peer.push_back("10.1.1." + num(i + 1)); bind.push_back("127.0." + num(getpid() % 250 + 1) + "." + num(x.range(3, 200))); cs.emplace_back(new zk::Client(*net)); cs[i]->o = zk::mp::Origin(); cs[i]->o.set_tcpip_address(peer[i] + " " + bind[i], cs[i]->s.id()); }
    int n = 1 + x.len(8);
    for (int i = 0; i < n; i++) {
        int k = x.range(0, ns - 1); zk::Client &cl = *cs[k]; cl.closed = false;
        if (x.chance(1, 12)) { // anything but HTTP is for others
            zk::Mem o; Z_GDU *g = cl.send(zk::init(o, {}, "z" + num(i))); x.check(zk::init_of(g) && zk::get_ref(g->u.z3950) == "z" + num(i), "Z39.50 request not passed on"); x.eq(w.passed.load(), 1, "Z39.50 requests passed on"); w.passed = 0; x.label("Z39.50"); continue;
        }
        if (!open[k]) continue;
        Req r = make(x, w, c, ++no, peer[k], bind[k]); x.desc << text(r, w); { std::lock_guard<std::mutex> l(w.m); w.plans[r.key] = r.plan; }
        zk::Mem o; Z_GDU *g = cl.send(gdu(o, r)); judge(x, w, c, r, cl, g); x.label(r.kind == "ok" ? r.plan.hops ? "redirect" : r.plan.mode : r.kind); if (r.proxy.size()) x.label("proxy"); good += r.kind == "ok"; if (cl.closed) open[k] = false;
    }
    for (auto &cl : cs) { int before = w.passed; cl->hangup(); x.eq(w.passed - before, 1, "end of the session passed on"); }
    x.eq(w.t.trouble, std::string(), "server"); x.nontrivial = good >= 2;
}
static void threads(Ctx &x)
{
    World w; Conf c = conf(x, w); std::unique_ptr<zk::Net> net = start(c); int nt = x.range(2, 6), no = 0; struct Who { std::vector<Req> q; std::vector<zk::Mem *> m; std::vector<Z_GDU *> g; std::string bad; }; std::vector<Who> ws(nt); x.desc << c.xml << ": ";
    for (int i = 0; i < nt; i++) for (int k = x.range(1, 5); k > 0; k--) { Req r = make(x, w, c, ++no, "10.1.1." + num(i + 1), "127.0." + num(getpid() % 250 + 1) + "." + num(x.range(3, 200))); x.desc << i << " " << text(r, w); w.plans[r.key] = r.plan; ws[i].q.push_back(r); }
    int total = 0; for (auto &k : ws) total += (int) k.q.size();
    std::vector<std::thread> th; std::atomic<int> ready{0};
    for (int i = 0; i < nt; i++) th.emplace_back([&, i] {
        ready++; while (ready < nt) sched_yield(); Who &k = ws[i];
        for (auto &r : k.q) { zk::Client cl(*net); cl.o = zk::mp::Origin(); cl.o.set_tcpip_address(r.peer + " " + r.bind, cl.s.id()); zk::Mem o; Z_GDU *g = cl.send(gdu(o, r)); try { judge(x, w, c, r, cl, g); } catch (Fail &f) { k.bad = text(r, w) + std::string(f.what()); } cl.gone = true; if (k.bad.size()) break; }
    });
    for (auto &t : th) t.join(); for (auto &k : ws) x.check(k.bad.empty(), k.bad); x.nontrivial = total >= 6; x.label("threads " + num(nt));
}
static void configs(Ctx &x)
{
    bool good = true, undecided = false; std::string xml; int n = x.range(1, 4);
    for (int i = 0; i < n; i++) {
        int k = x.range(0, 9);
        if (k == 0) { std::string h = x.pick({"http://a", "https://b:1/x", "localhost", "localhost:80", "/x", "", "http:/a", "x://"}); xml += "<default-host>" + h + "</default-host>"; if (h.find("://") == std::string::npos) good = false; }
        else if (k == 1) xml += "<proxy>a:1</proxy>";
        else if (k == 2) xml += "<max-redirects>" + num(x.range(0, 9)) + "</max-redirects>";
        else if (k == 3) xml += "<x-forwarded-for>" + x.pick({"true", "false", "1", "0"}) + "</x-forwarded-for>";
        else if (k == 4) xml += "<bind_host>" + x.pick({"true", "false", "1", "0"}) + "</bind_host>";
        else if (k == 5) { xml += "<" + x.pick({"default_host", "maxredirects", "x_forwarded_for", "bind-host", "Proxy", "host", "timeout"}) + ">1</x>"; size_t a = xml.rfind('<'), b = xml.rfind('<', a - 1); std::string nm = xml.substr(b + 1, xml.find('>', b) - b - 1); xml.replace(a, 4, "</" + nm + ">"); good = false; }
        else if (k == 6) xml += "<!-- c -->";
        else if (k == 7) xml += "\n  ";
        else if (k == 8) xml += "<proxy/>";
        else { xml += "<max-redirects/>"; }
    }
    x.desc << xml; bool ok = true; std::string why; try { Conf c; c.xml = xml; start(c); } catch (std::exception &e) { ok = false; why = e.what(); }
    if (!undecided) x.check(ok == good, ok ? "accepted" : "refused: " + why); x.nontrivial = !good || n > 1; x.label(good ? "good" : "bad");
}
int main(int argc, char **argv)
{
    signal(SIGPIPE, SIG_IGN); zk::quiet();
    Check c; c.id = "C28"; c.case_wall_s = 60;
    c.add("requests", 7000, 100000, "two or more answers of a server", requests);
    c.add("threads", 600, 6000, "six or more requests", threads);
    c.add("configs", 1500, 20000, "a refused one, or more than one element", configs);
    return run(c, argc, argv);
}
