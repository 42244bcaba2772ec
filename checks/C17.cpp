// SOURCES: kit filter_http_file plainfile
// Static files: the files below the document root, exactly, and nothing else.
#include "../models/zkit.hpp"
#include <sys/stat.h>
#include <fstream>
#include <signal.h>
ZK_FILTER(http_file)
using namespace pbt;
// a scratch tree; every file says which one it is
struct Tree {
    std::string top; std::map<std::string, std::string> files; std::set<std::string> dirs;
    void put(const std::string &n, const std::string &c) { std::ofstream f(top + "/" + n, std::ios::binary); f << c; f.close(); files[n] = c; }
    void dir(const std::string &n) { mkdir((top + "/" + n).c_str(), 0755); dirs.insert(n); }
    Tree() {
        char t[] = "/tmp/c17.XXXXXX"; if (!mkdtemp(t)) { perror("mkdtemp"); _exit(2); } top = t;
        for (auto d : {"r", "r/docs", "r/docs/sub", "r/docs-private", "r/docsx", "r/other", "r/docs/a.d"}) dir(d);
        for (auto f : {"secret.txt", "r/index.html", "r/docs/index.html", "r/docs/noext", "r/docs/a.tar.gz", "r/docs/sub/c.xml", "r/docs/sub/.hidden", "r/docs/sp ace.txt", "r/docs/p+q.txt", "r/docs/q?h#i.txt", "r/docs/%41.html", "r/docs/a.d/noext", "r/docs-private/index.html", "r/docsx/c.xml", "r/docsindex.html", "r/docs.html", "r/other/a.txt", "r/other/.html", "r/docs/x.", "r/docs/\xc3\xa6.txt"}) put(f, std::string("this is ") + f);
        put("r/docs/empty.txt", ""); std::string b; for (int i = 0; i < 256; i++) b += (char) i; put("r/docs/bytes.bin", b + b);
        put("r/docs/limit.bin", std::string(1000000, 'y')); put("r/docs/big.bin", std::string(1000001, 'x'));
    }
    void drop() { for (auto &f : files) unlink((top + "/" + f.first).c_str()); for (auto i = dirs.rbegin(); i != dirs.rend(); ++i) rmdir((top + "/" + *i).c_str()); rmdir(top.c_str()); }
    // what the file system has at a path: 0 nothing or not a file
    const std::string *at(const std::string &path) const {
        std::string n = path; if (n.compare(0, top.size() + 1, top + "/")) return 0;
        n = n.substr(top.size() + 1); std::string cur; std::vector<std::string> seg; size_t i = 0;
        while (i <= n.size()) { size_t e = n.find('/', i); if (e == std::string::npos) e = n.size(); seg.push_back(n.substr(i, e - i)); i = e + 1; }
        for (size_t k = 0; k < seg.size(); k++) {
            if (k && files.count(cur)) return 0;                 // a file is no directory
            if (seg[k].empty() || seg[k] == ".") { if (k + 1 == seg.size()) return 0; continue; }
            cur += (cur.empty() ? "" : "/") + seg[k]; if (!files.count(cur) && !dirs.count(cur)) return 0;
        }
        auto it = files.find(cur); return it == files.end() ? 0 : &it->second;
    }
};
static Tree *tree;
static int hexv(char c) { return isdigit((unsigned char) c) ? c - '0' : isxdigit((unsigned char) c) ? (c | 32) - 'a' + 10 : -1; }
static std::string decode(const std::string &s)
{
    std::string r; for (size_t i = 0; i < s.size(); i++) { if (s[i] == '+') r += ' '; else if (s[i] == '%' && i + 2 < s.size() && hexv(s[i + 1]) >= 0 && hexv(s[i + 2]) >= 0) { r += (char) (hexv(s[i + 1]) * 16 + hexv(s[i + 2])); i += 2; } else r += s[i]; }
    return std::string(r.c_str());
}
struct Area { std::string prefix, root; bool raw = false, pass = false; };
struct World {
    std::unique_ptr<zk::Net> net; std::string raw; int passed = 0;
    World(const std::string &conf) {
        net.reset(new zk::Net({&metaproxy_1_filter_http_file}, zk::route("start", "<filter type=\"http_file\">" + conf + "</filter>" + zk::hook("b"))));
        zk::hooks().fn = [this](const zk::Hook *, zk::mp::Package &p) { if (!p.request().get()) return; passed++; raw = zk::encode(p.request().get()); zk::mp::odr o; Z_GDU *g = z_get_HTTP_Response(o, 299); p.response() = g; };
    }
    ~World() { zk::hooks().fn = nullptr; }
};
static std::string area_xml(const Area &a, bool flags) { return "<area><documentroot>" + zk::esc(a.root) + "</documentroot><prefix>" + zk::esc(a.prefix) + "</prefix>" + (a.raw ? "<raw>true</raw>" : flags ? "<raw>false</raw>" : "") + (a.pass ? "<passthru>true</passthru>" : flags ? "<passthru>0</passthru>" : "") + "</area>"; }
static std::string enc(Ctx &x, const std::string &s, bool any)
{
    std::string r; static const char *h = "0123456789abcdefABCDEF";
    for (unsigned char c : s) {
        bool must = c <= 32 || c >= 127 || strchr("%+?#", c);
        if (c == ' ' && x.coin()) r += '+'; else if (must || (any && x.chance(1, 6))) { r += '%'; r += h[c >> 4]; int lo = c & 15; r += lo > 9 && x.coin() ? h[lo + 6] : h[lo]; } else r += (char) c;
    }
    return r;
}
// one request, as far as HTTP is concerned
struct Req { std::string path, method = "GET", version = "1.1", conn; };
static Z_GDU *build(ODR o, const Req &q)
{
    Z_GDU *g = z_get_HTTP_Request(o); Z_HTTP_Request *r = g->u.HTTP_Request; r->method = odr_strdup(o, q.method.c_str()); r->path = odr_strdup(o, q.path.c_str()); r->version = odr_strdup(o, q.version.c_str());
    z_HTTP_header_add(o, &r->headers, "Host", "localhost"); if (!q.conn.empty()) z_HTTP_header_add(o, &r->headers, "Connection", q.conn.c_str()); return g;
}
static void exchange(Ctx &x, World &w, const std::vector<Area> &areas, const std::map<std::string, std::string> &mime, const Req &q, std::string *how = 0)
{
    zk::Mem o; zk::Client c(*w.net); Z_GDU *rq = build(o, q); std::string before = zk::encode(rq); w.passed = 0;
    std::string p = q.path; size_t k = p.find('#'); if (k != std::string::npos) p.erase(k); k = p.find('?'); if (k != std::string::npos) p.erase(k); p = decode(p);
    const Area *a = 0; std::string rest;
    if (p.find("..") == std::string::npos) for (auto &e : areas) {
        if (e.root.empty() || p.compare(0, e.prefix.size(), e.prefix)) continue;
        rest = p.substr(e.prefix.size()); bool boundary = rest.empty() || rest[0] == '/' || e.prefix.empty() || e.prefix.back() == '/'; if (!boundary) continue;
        a = &e; break;
    }
    Z_GDU *g = c.send(rq); Z_HTTP_Response *r = g && g->which == Z_GDU_HTTP_Response ? g->u.HTTP_Response : 0; x.check(r, "no HTTP response");
    int want; std::string body; const std::string *f = 0;
    if (!a) want = 299;
    else {
        std::string fn = a->root; if (!rest.empty() && rest[0] != '/' && fn.back() != '/') fn += "/"; fn += rest; f = tree->at(fn);
        want = q.method != "GET" || !f ? a->pass ? 299 : q.method != "GET" ? 405 : 404 : f->size() > 1000000 ? 404 : 200;
    }
    x.desc << " [" << q.method << " " << q.path << " HTTP/" << q.version << " " << q.conn << " -> " << want << "]";
    std::string got(r->content_buf ? r->content_buf : "", r->content_len);
    if (how) *how = std::to_string(want);
    x.label(std::to_string(want) + (a && a->raw ? " raw" : ""));
    if (a && a->raw && want == 200) { if (f->compare(0, 5, "HTTP/")) want = 500; else return; }
    x.eq(r->code, want, "status for " + p + " with content " + got.substr(0, 60));
    if (want == 299) { x.eq(w.passed, 1, "times passed on"); x.check(w.raw == before, "request changed on its way"); return; }
    x.eq(w.passed, 0, "times passed on");
    if (want == 200) {
        x.check(got == *f, "content of " + p + ": " + got.substr(0, 60) + " (" + std::to_string(got.size()) + " bytes)"); std::string base = rest.substr(rest.rfind('/') == std::string::npos ? 0 : rest.rfind('/') + 1); if (rest.empty()) base = a->root.substr(a->root.rfind('/') + 1);
        std::string ct = "application/octet-stream"; size_t d = base.rfind('.'); if (d != std::string::npos) { auto m = mime.find(base.substr(d + 1)); if (m != mime.end() && !m->second.empty()) ct = m->second; }
        const char *t = z_HTTP_header_lookup(r->headers, "Content-Type"); x.eq(std::string(t ? t : ""), ct, "content type of " + p); x.label(ct == "application/octet-stream" ? "default type" : "known type");
    }
    bool keep = q.version == "1.0" ? q.conn == "Keep-Alive" : q.conn != "close"; const char *cn = z_HTTP_header_lookup(r->headers, "Connection");
    x.eq(c.closed, !keep, "connection ends"); x.eq(std::string(cn ? cn : ""), std::string(keep ? "Keep-Alive" : ""), "Connection header"); x.eq(std::string(r->version), std::string(q.version == "1.0" ? "1.0" : "1.1"), "version");
}
static std::vector<Area> areas(Ctx &x)
{
    std::vector<Area> v; for (int n = x.range(1, 3); n > 0; n--) {
        Area a; a.prefix = x.pick({"/docs", "/docs/", "/", "", "/docs/sub", "/d", "/a b", "/docs.html", "/other"}); a.root = tree->top + x.pick({"/r", "/r/docs", "/r/docs/", "/r/", "/r/docs/sub", "/r/docs/.", "/r/.", "/r/docs.html", "/none"});
        if (x.chance(1, 12)) a.root = ""; a.pass = x.chance(1, 4); v.push_back(a);
    }
    return v;
}
static std::string path(Ctx &x, const std::vector<Area> &as)
{
    static const std::vector<std::string> seg = {"docs", "sub", "index.html", "noext", "a.tar.gz", "c.xml", ".hidden", "sp ace.txt", "p+q.txt", "q?h#i.txt", "%41.html", "a.d", "empty.txt", "bytes.bin", "limit.bin", "big.bin", "docs-private", "docsx", "other", "a.txt", ".html", "x.", "\xc3\xa6.txt", ".", "..", "", "secret.txt", "none", "docs.html", "docsindex.html", "r", "\1"};
    std::string p; if (x.chance(4, 5)) {      // a file that is there, below an area
        const Area &a = x.pick(as); std::vector<std::string> in; std::string rt = a.root; while (rt.size() && (rt.back() == '/' || rt.back() == '.')) rt.pop_back();
        for (auto &f : tree->files) { std::string full = tree->top + "/" + f.first; if (full.compare(0, rt.size(), rt) == 0) in.push_back(full.substr(rt.size())); }
        if (!in.empty()) { std::string t = x.pick(in); if (a.prefix.size() && a.prefix.back() == '/' && t.size() && t[0] == '/') t = t.substr(1); p = a.prefix + t; if (x.chance(1, 5)) p.insert(x.range(0, (int) p.size()), x.pick({"/", "./", "/.", ".", "../", "..", "-", "//", "%"})); }
    }
    if (p.empty()) { if (x.coin()) p = x.pick(as).prefix; for (int n = x.range(0, 4); n > 0; n--) p += (x.chance(9, 10) ? "/" : "") + x.pick(seg); }
    if (p.empty() && x.coin()) p = "/";
    std::string r = enc(x, p, x.coin()); if (x.chance(1, 30)) r += x.pick({"%", "%4", "%zz", "%00", "%00..", "%2e%2e"});
    if (x.chance(1, 6)) r += x.pick({"?a=b", "?", "#", "#frag", "?x=/../y", "#..", "?a#b", "#a?b", "?a=%2e%2e"});
    return r.empty() ? "/" : r;
}
static Req request(Ctx &x, const std::vector<Area> &as)
{ Req q; q.path = path(x, as); if (x.chance(1, 8)) q.method = x.pick({"POST", "HEAD", "PUT", "get", "DELETE"}); q.version = x.chance(1, 4) ? "1.0" : "1.1"; q.conn = x.pick({"", "", "close", "Keep-Alive"}); return q; }
static void files(Ctx &x)
{
    auto as = areas(x); std::string conf; for (auto &a : as) { conf += area_xml(a, x.coin()); x.desc << a.prefix << "=>" << a.root.substr(a.root.empty() ? 0 : tree->top.size()) << (a.pass ? " passthru" : "") << "; "; } World w(conf);
    for (int n = x.range(1, 8); n > 0; n--) { std::string h; exchange(x, w, as, {}, request(x, as), &h); if (h == "200") x.nontrivial = true; }
}
// the file of types, lines of any length
static void types(Ctx &x)
{
    std::map<std::string, std::string> mime; std::ostringstream f; static const std::vector<std::string> ext = {"txt", "html", "xml", "gz", "bin", "noext", "tar.gz", "d", "HTML", "hidden", "d/noext"}; int n = x.range(0, 8); bool longl = false;
    for (int i = 0; i < n; i++) {
        std::string nl = i + 1 == n && x.chance(1, 4) ? "" : "\n";
        switch (x.weighted({6, 1, 1, 1})) {
        case 0: { std::string t = x.pick({"text/plain", "text/html", "application/xml", "a/b", "x"}); f << t; for (int k = x.len(10); k > 0; k--) { std::string e = x.pick(ext); f << x.pick({" ", "\t", "   ", " \t "}); if (x.chance(1, 8)) { std::string pad = std::string(x.pick({1, 50, 200, 240, 254, 255, 256, 300, 2000}), 'p'); f << pad << " "; mime[pad] = t; longl = true; } f << e; mime[e] = t; } if (x.chance(1, 5)) f << " "; f << nl; break; }
        case 1: f << "# text/none txt html xml" << nl; break;
        case 2: f << nl; break;
        default: f << " text/indented txt" << nl; }
    }
    std::string fn = tree->top + "/mime.types" + std::to_string(getpid()); { std::ofstream s(fn, std::ios::binary); s << f.str(); } std::string show = f.str(); x.desc << show.substr(0, 300); x.nontrivial = longl || mime.size() > 1;
    Area a; a.prefix = "/"; a.root = tree->top + "/r/docs"; World w("<mimetypes>" + fn + "</mimetypes>" + area_xml(a, false)); unlink(fn.c_str());
    for (auto p : {"/index.html", "/noext", "/a.tar.gz", "/sub/c.xml", "/sub/.hidden", "/p%2bq.txt", "/bytes.bin", "/a.d/noext", "/x."}) { Req q; q.path = p; exchange(x, w, {a}, mime, q); }
}
// ready-made responses
static void raws(Ctx &x)
{
    std::string body = x.bytes(60), c; int code = x.pick({200, 201, 302, 404, 500, 999}); bool valid = x.coin(); std::vector<std::pair<std::string, std::string> > hs; for (int i = x.range(0, 3); i > 0; i--) hs.emplace_back("X-" + x.str1("abc", 4) + std::to_string(i), x.str1("xyz=; ", 8) + "q");
    if (valid) { c = "HTTP/1.1 " + std::to_string(code) + " Fine\r\n"; for (auto &h : hs) c += h.first + ": " + h.second + "\r\n"; c += "Content-Length: " + std::to_string(body.size()) + "\r\n\r\n" + body; x.nontrivial = true; }
    else c = x.pick({"", "HTTP/1.1 ", "HTTP/", "GET / HTTP/1.0\r\n\r\n", "<html>", "\x30\x82"}) + body;
    std::string base = "raw.http" + std::to_string(getpid()), fn = "r/docs/" + base; tree->put(fn, c); Area a; a.prefix = "/raw"; a.root = tree->top + "/r/docs"; a.raw = true; a.pass = x.coin(); World w(area_xml(a, false)); zk::Mem o; zk::Client cl(*w.net); Req q; q.path = "/raw/" + base; x.desc << c.substr(0, 60);
    Z_GDU *g = cl.send(build(o, q)); tree->files.erase(fn); unlink((tree->top + "/" + fn).c_str()); x.check(g, "no response"); x.eq(w.passed, 0, "passed on");
    if (valid) {
        x.check(g->which == Z_GDU_HTTP_Response, "no HTTP response"); Z_HTTP_Response *r = g->u.HTTP_Response; x.eq(r->code, code, "status"); x.check(std::string(r->content_buf ? r->content_buf : "", r->content_len) == body, "content");
        for (auto &h : hs) { const char *v = z_HTTP_header_lookup(r->headers, h.first.c_str()); std::string want = h.second; size_t b = want.find_first_not_of(' '); want = want.substr(b); x.eq(std::string(v ? v : "(none)"), want, "header " + h.first); }
    }
}
static void config(Ctx &x)
{
    x.nontrivial = true; std::string c; bool bad = true, threw = false; Area a; a.prefix = "/x"; a.root = tree->top;
    switch (x.range(0, 5)) {
    case 5: c = "<mimetypes>" + tree->top + "</mimetypes>"; try { World w(c); } catch (zk::mp::filter::FilterException &) {} return;      // a directory
    case 0: c = "<" + std::string(x.pick({"areas", "root", "mime", "Area"})) + "/>"; break;
    case 1: c = "<area><documentroot>/x</documentroot><docroot>/a</docroot></area>"; break;
    case 2: c = "<mimetypes>" + tree->top + "/nosuch</mimetypes>"; break;
    case 3: c = area_xml(a, true); bad = false; break;
    default: c = "<area><prefix>/x</prefix></area>"; bad = false; }
    x.desc << c; try { World w(c + (x.coin() ? area_xml(a, false) : "")); } catch (zk::mp::filter::FilterException &e) { threw = true; }
    x.eq(threw, bad, "configuration refused");
}
// what is not HTTP passes
static void other(Ctx &x)
{
    Area a; a.prefix = ""; a.root = tree->top; World w(area_xml(a, false)); zk::Client c(*w.net); zk::Mem o; Z_APDU *q = x.coin() ? zk::init(o) : zk::search(o, zk::Search()); x.nontrivial = true; yazpp_1::GDU g(q); std::string before = zk::encode(g.get()); c.send(g.get()); x.eq(w.passed, 1, "passed on"); x.check(w.raw == before, "changed");
}
int main(int argc, char **argv)
{
    zk::quiet(); signal(SIGPIPE, SIG_IGN); Tree t; tree = &t;
    Check c; c.id = "C17";
    c.add("files", 12000, 300000, "a file is served", files)
     .add("types", 800, 20000, "more than one extension, or a line of 255 bytes or more", types)
     .add("raws", 1500, 40000, "a well-formed stored response", raws)
     .add("config", 100, 500, "all", config)
     .add("other", 50, 500, "all", other);
    int r = run(c, argc, argv); t.drop(); return r;
}
