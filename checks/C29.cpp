// SOURCES: kit filter_zoom torus url_recipe
// SHIM: core net
// VARIANTS: asan tsan
// The ZOOM client: a search reaches the target that its database stands for, as that target's profile wants it, and what the target has comes back.
#include "../models/netkit.hpp"
#include <yaz/diagbib1.h>
#include <yaz/diagsrw.h>
#include <yaz/match_glob.h>
#include <yaz/facet.h>
#include <yaz/otherinfo.h>
#include <yaz/oid_db.h>
#include <libxslt/xsltutils.h>
#include <dirent.h>
#include <sys/stat.h>
#include <yaz/pquery.h>
ZK_FILTER(zoom)
using namespace pbt;
static std::string num(long n) { return std::to_string(n); }
static std::string uri(const std::string &s) { std::string r; for (unsigned char c : s) { char b[8]; if (isalnum(c) || strchr("-_.~", c)) r += (char) c; else { snprintf(b, sizeof b, "%%%02X", c); r += b; } } return r; }
static std::string unuri(const std::string &s) { std::string r; for (size_t i = 0; i < s.size(); i++) if (s[i] == '%' && i + 2 < s.size()) { r += (char) strtol(s.substr(i + 1, 2).c_str(), 0, 16); i += 2; } else r += s[i] == '+' ? ' ' : s[i]; return r; }
static std::string base64(const std::string &s) { static const char *a = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; std::string r; for (size_t i = 0; i < s.size(); i += 3) { unsigned v = 0; for (int k = 0; k < 3; k++) v = v << 8 | (i + k < s.size() ? (unsigned char) s[i + k] : 0); for (int k = 0; k < 4; k++) r += i + k > s.size() ? '=' : a[v >> (18 - 6 * k) & 63]; } return r; }
// --- what is asked for
struct Tree { int op = -1; std::shared_ptr<Tree> l, r; std::string field, term; };
typedef std::shared_ptr<Tree> TreeP;
static std::string word(const std::string &t) { return t.find(' ') == std::string::npos ? t : "\"" + t + "\""; }
static const char *ops[] = {"and", "or", "not"};
// cql: with the names of fields in CQL; otherwise those in CCL
static std::string infix(const Tree &t, bool cql) { if (t.op < 0) { std::string f = cql ? t.field : t.field == "title" ? "ti" : t.field == "author" ? "au" : t.field == "any" ? "zz" : t.field; return (f.empty() ? "" : f + "=") + word(t.term); } auto sub = [&](const Tree &u) { return u.op < 0 ? infix(u, cql) : "(" + infix(u, cql) + ")"; }; return sub(*t.l) + " " + ops[t.op] + " " + sub(*t.r); }
static bool uses(const Tree &t, const std::string &f) { return t.op < 0 ? t.field == f : uses(*t.l, f) || uses(*t.r, f); }
static std::string first_of(const Tree &t, const std::set<std::string> &fs) { if (t.op < 0) return fs.count(t.field) ? t.field : ""; std::string a = first_of(*t.l, fs); return a.size() ? a : first_of(*t.r, fs); }
struct Target {
    std::string udb, zdb, auth, auth_mode, syntax, elements, encoding, extra, version, retry, sru, cf, sub, proxy, cf_q; bool transform = false, piggyback = true, no_piggyback_given = true, dead = false, refuse = false; int port = 0;
    std::map<std::string, std::string> map;   // title, author, "" -> attribute value (use)
    std::map<std::string, std::string> sort;
    std::string shape = "local";              // local, or how the service presents it
};
struct Conf { std::string xml, transform = "pz2", raw = "raw", marcxml = "marcxml", passthru = "F", realm; bool record_xsl = false, remote = false, content = false; std::vector<Target> ts; };
static std::string pqf(const Tree &t, const Target &k, bool raw) { if (t.op < 0) { auto i = k.map.find(t.field); std::string a = raw ? t.field : i == k.map.end() ? "" : i->second; return (a.empty() ? "" : "@attr 1=" + a + " ") + word(t.term); } return std::string("@") + ops[t.op] + " " + pqf(*t.l, k, raw) + " " + pqf(*t.r, k, raw); }
static std::string cql_out(const Tree &t, const Target &k, bool raw) { if (t.op < 0) { auto i = k.map.find(t.field); std::string a = raw ? t.field : i == k.map.end() ? "" : i->second; return (a.empty() ? "" : a + " = ") + word(t.term); } auto sub = [&](const Tree &u) { std::string s = cql_out(u, k, raw); return u.op < 0 ? s : "(" + s + ")"; }; return sub(*t.l) + " " + ops[t.op] + " " + sub(*t.r); }
// what the target does with the queries that have a number
struct Plan { long hits = 3; int cap = 1000; std::vector<std::string> fate{"ok"}; size_t used = 0; bool ok = false; std::set<long> sur, bad; bool latin = false; std::string pfault; };
struct Seen { int port, link; std::string auth, db, query, headers, syn, esn; long start = 0, count = 0; bool facets = false; std::map<std::string, std::string> args; };
static Z_AttributeList *zget_attributes(const char *n, ODR o) { Z_FacetList *f = yaz_pqf_parse_facet_list(o, (std::string("@attr 1=") + n).c_str()); return f->elements[0]->attributes; }
static std::string marc(const std::string &b) { char h[64]; std::string f = std::string("10\x1f") + "a" + b + "\x1e"; snprintf(h, sizeof h, "245%04d00000\x1e", (int) f.size()); std::string d = h; int base = 24 + (int) d.size(), total = base + (int) f.size() + 1; snprintf(h, sizeof h, "%05dnam  22%05d   4500", total, base); return h + d + f + "\x1d"; }
static std::string content(int key, long pos, const std::string &syn, const std::string &esn) { return "t" + num(key) + "e;" + num(pos) + ";" + syn + ";" + esn; }
static const std::string LATIN = "\xe6", LATIN8 = "\xc3\xa6";
static std::string body_of(int key, long pos, const std::string &syn, const std::string &esn, bool latin, bool bad) { std::string c = content(key, pos, syn, esn); if (syn == "usmarc") return marc(c + (latin ? LATIN : "")); if (syn == "sutrs") return c; return bad ? "<r><b>" : "<r><b>" + c + "</b></r>"; }
static std::string syn_name(const Odr_oid *s) { if (!s) return "-"; for (auto n : {"xml", "usmarc", "sutrs"}) { const Odr_oid *k = yaz_string_to_oid(yaz_oid_std(), CLASS_RECSYN, n); if (!oid_oidcmp(s, k)) return n; } return zk::oid_text(s); }
struct World {
    nk::Target t; std::mutex m; std::map<int, Plan> plans; std::map<int, std::vector<Seen> > seen; std::vector<std::string> at; std::string dead, trouble; std::set<int> refuse;
    struct Link { bool inited = false; std::string auth, db; int key = -1; }; std::map<int, Link> ls; std::atomic<int> passed{0};
    std::vector<std::string> asked; std::function<std::string(const std::string &)> torus;   // requests for target profiles
    std::string dir;
    std::vector<std::string> asked_now() { std::lock_guard<std::mutex> l(m); std::vector<std::string> r; r.swap(asked); return r; }
    static int key_of(const std::string &q) { for (size_t p = 0; (p = q.find('t', p)) != std::string::npos; p++) { char *e; long k = strtol(q.c_str() + p + 1, &e, 10); if (e != q.c_str() + p + 1 && *e == 'e') return (int) k; } return -1; }
    static std::string http(int code, const std::string &b) { return "HTTP/1.1 " + num(code) + " X\r\nContent-Type: text/xml\r\nContent-Length: " + num(b.size()) + "\r\n\r\n" + b; }
    std::string fate(Plan &p) { if (p.ok) return "ok"; std::string f = p.fate[p.used < p.fate.size() ? p.used : p.fate.size() - 1]; p.used++; if (f == "ok") p.ok = true; return f; }
    nk::Target::Out reply(nk::Target::Link &k, const nk::Msg &q) {
        std::lock_guard<std::mutex> l(m); nk::Target::Out o;
        if (q.g->which == Z_GDU_HTTP_Request) {
            Z_HTTP_Request *r = q.g->u.HTTP_Request; std::string path = r->path; if (path == "http://localhost/") { o.bytes = http(404, ""); return o; } if (!path.compare(0, 2, "/~")) { asked.push_back(path); o.bytes = torus ? torus(path) : ""; if (o.bytes.empty()) o.close = true; return o; }
            size_t c = path.find('?'); Seen s; s.port = k.port; s.link = k.id; s.db = path.substr(0, c); std::string a = c == std::string::npos ? std::string(r->content_buf ? r->content_buf : "", r->content_len) : path.substr(c + 1), v = r->method; v += " ";
            while (a.size()) { size_t e = a.find('&'); std::string one = a.substr(0, e); a.erase(0, e == std::string::npos ? e : e + 1); size_t d = one.find('='); s.args[unuri(one.substr(0, d))] = d == std::string::npos ? "" : unuri(one.substr(d + 1)); }
            s.headers = q.raw.substr(0, q.raw.find("\r\n\r\n") + 2); s.query = s.args["query"]; s.start = atol(s.args["startRecord"].c_str()); s.count = atol(s.args["maximumRecords"].c_str()); int key = key_of(s.query); seen[key].push_back(s); auto i = plans.find(key); if (i == plans.end()) { trouble = "unknown query " + s.query; o.close = true; return o; }
            Plan &p = i->second; std::string f = fate(p); if (p.ok && p.pfault.size()) { f = p.pfault; p.pfault.clear(); }
            if (f == "drop") { o.close = true; return o; }
            if (f == "500") { o.bytes = http(500, "x"); return o; }
            std::string x = "<zs:searchRetrieveResponse xmlns:zs=\"http://www.loc.gov/zing/srw/\"><zs:version>1.1</zs:version><zs:numberOfRecords>" + num(f == "ok" ? p.hits : 0) + "</zs:numberOfRecords>";
            if (f.compare(0, 5, "diag:") == 0) { size_t e = f.find(':', 5); x += "<zs:diagnostics xmlns:d=\"http://www.loc.gov/zing/srw/diagnostic/\"><d:diagnostic><d:uri>info:srw/diagnostic/1/" + f.substr(5, e - 5) + "</d:uri><d:details>" + f.substr(e + 1) + "</d:details></d:diagnostic></zs:diagnostics>"; }
            else { x += "<zs:records>"; for (long n = s.start; n < s.start + s.count && n <= p.hits; n++) x += "<zs:record><zs:recordSchema>s</zs:recordSchema><zs:recordPacking>xml</zs:recordPacking><zs:recordData>" + body_of(key, n, "xml", s.args.count("recordSchema") ? s.args["recordSchema"] : "-", false, false) + "</zs:recordData><zs:recordPosition>" + num(n) + "</zs:recordPosition></zs:record>"; x += "</zs:records>"; }
            o.bytes = http(200, x + "</zs:searchRetrieveResponse>"); return o;
        }
        Z_APDU *a = q.apdu(); zk::Mem mem; Link &li = ls[k.id]; Z_APDU *r = 0;
        if (a->which != Z_APDU_initRequest && !li.inited) trouble = "not initialised";
        switch (a->which) {
        case Z_APDU_initRequest: { if (li.inited) trouble = "second init"; bool no = refuse.count(k.port); r = zk::init_reply(mem, a, 0, 0); for (int b : {Z_Options_search, Z_Options_present}) ODR_MASK_SET(r->u.initResponse->options, b); *r->u.initResponse->result = !no; li.inited = true; li.auth = zk::auth_text(a->u.initRequest->idAuthentication); break; }
        case Z_APDU_searchRequest: {
            Z_SearchRequest *sr = a->u.searchRequest; Seen s; s.port = k.port; s.link = k.id; s.auth = li.auth; s.db = sr->num_databaseNames == 1 ? sr->databaseNames[0] : "?"; s.query = zk::query_text(sr->query); s.facets = sr->additionalSearchInfo || sr->otherInfo; int key = key_of(s.query); seen[key].push_back(s); li.key = key; li.db = s.db; auto i = plans.find(key); if (i == plans.end()) { trouble = "unknown query " + s.query; o.close = true; return o; }
            std::string f = fate(i->second); if (f == "drop") { o.close = true; return o; }
            if (f.compare(0, 5, "diag:") == 0) { size_t e = f.find(':', 5); r = zk::search_reply(mem, a, atoi(f.c_str() + 5), f.c_str() + e + 1); break; }
            r = zk::search_reply(mem, a, 0, 0); if (s.facets) { Z_FacetList *fl = facet_list_create(mem, 1); Z_FacetField *ff = facet_field_create(mem, zget_attributes("title", mem), 2); for (int j = 0; j < 2; j++) facet_field_term_set(mem, ff, facet_term_create_cstr(mem, ("f" + num(key) + "-" + num(j)).c_str(), key + j), j); facet_list_field_set(mem, fl, ff, 0); yaz_oi_set_facetlist(&r->u.searchResponse->additionalSearchInfo, mem, fl); } *r->u.searchResponse->resultCount = i->second.hits; *r->u.searchResponse->searchStatus = 1; break; }
        case Z_APDU_presentRequest: {
            Z_PresentRequest *pr = a->u.presentRequest; auto i = plans.find(li.key); if (i == plans.end()) { o.close = true; return o; }Plan &p = i->second; long st = (long) *pr->resultSetStartPoint, n = (long) *pr->numberOfRecordsRequested;
            Seen s; s.port = k.port; s.link = k.id; s.start = st; s.count = n; s.auth = "present"; seen[li.key].push_back(s);
            if (p.pfault.size()) { std::string f = p.pfault; p.pfault.clear(); if (f == "drop") { o.close = true; return o; } size_t e = f.find(':', 5); r = zk::present_reply(mem, a, atoi(f.c_str() + 5), f.c_str() + e + 1); break; }
            if (st < 1 || n < 0 || st + n - 1 > p.hits) { r = zk::present_reply(mem, a, 13, 0); trouble = "present " + num(st) + "+" + num(n) + " of " + num(p.hits); break; }
            if (n > p.cap) n = p.cap; std::string sn = syn_name(pr->preferredRecordSyntax), es = zk::esn_text(pr->recordComposition); Odr_oid *so = pr->preferredRecordSyntax ? pr->preferredRecordSyntax : zk::syntax(mem, "xml"); Z_NamePlusRecordList *rl = zk::record_list(mem, (int) n);
            for (long j = 0; j < n; j++) rl->records[j] = p.sur.count(st + j) ? zget_surrogateDiagRec(mem, li.db.c_str(), 14, ("s" + num(st + j)).c_str()) : zk::record(mem, li.db, so, body_of(li.key, st + j, sn, es, p.latin, p.bad.count(st + j)));
            r = zk::present_reply(mem, a, 0, 0); r->u.presentResponse->records = zk::records(mem, rl); *r->u.presentResponse->numberOfRecordsReturned = n; *r->u.presentResponse->nextResultSetPosition = st + n <= p.hits ? st + n : 0; break; }
        default: trouble = std::string("unexpected ") + zk::name(a->which); o.close = true; return o;
        }
        Z_GDU g; g.which = Z_GDU_Z3950; g.u.z3950 = r; o.bytes = zk::encode(&g); return o;
    }
    World() {
        for (int i = 0; i < 3; i++) at.push_back("127.0.0.1:" + num(t.listen_tcp()));
        int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); dead_fd = fd; if (::bind(fd, (struct sockaddr *) &a, sizeof a)) {} socklen_t n = sizeof a; ::getsockname(fd, (struct sockaddr *) &a, &n); dead = "127.0.0.1:" + num(ntohs(a.sin_port));
        t.answer = [this](nk::Target::Link &k, const nk::Msg &q) { return reply(k, q); }; t.go(); zk::hooks().fn = [this](const zk::Hook *, zk::mp::Package &p) { if (p.request().get()) passed++; };
        static std::atomic<int> n_{0}; dir = "/tmp/c29." + num(getpid()) + "." + num(++n_); mkdir(dir.c_str(), 0700);
    }
    int dead_fd;
    ~World() { zk::hooks().fn = nullptr; ::close(dead_fd); for (auto f : {"r.xsl", "e.xsl", "cf.cfg"}) unlink((dir + "/" + f).c_str()); if (DIR *d = opendir(dir.c_str())) { while (struct dirent *e = readdir(d)) if (!strncmp(e->d_name, "cf.", 3)) unlink((dir + "/" + e->d_name).c_str()); closedir(d); } rmdir(dir.c_str()); }
    void file(const char *n, const std::string &s) { FILE *f = fopen((dir + "/" + n).c_str(), "w"); fwrite(s.data(), 1, s.size(), f); fclose(f); }
};
static const char *XSL_HEAD = "<xsl:stylesheet version=\"1.0\" xmlns:xsl=\"http://www.w3.org/1999/XSL/Transform\"><xsl:output method=\"xml\" omit-xml-declaration=\"yes\"/>";
static std::string xsl(const std::string &n) { return std::string(XSL_HEAD) + "<xsl:template match=\"/\"><pz n=\"" + n + "\"><xsl:value-of select=\"//*[local-name()='b' or local-name()='sa' or @code='a']\"/></pz></xsl:template></xsl:stylesheet>"; }
static const std::string COPY = std::string(XSL_HEAD) + "<xsl:template match=\"/\"><xsl:copy-of select=\"*\"/></xsl:template></xsl:stylesheet>";
static const std::string WRAP = std::string(XSL_HEAD) + "<xsl:template match=\"/\"><rx><xsl:copy-of select=\"*\"/></rx></xsl:template></xsl:stylesheet>";
static const char *CCL[] = {"term", "ti", "au"}; static const char *FIELD[] = {"", "title", "author"};
static std::string fields(const World &w, const Target &t, const std::set<std::string> &base)
{
    std::string r; auto el = [&](const char *n, const std::string &v) { if (v.size()) r += std::string("<") + n + ">" + zk::esc(v) + "</" + n + ">"; };
    el("udb", t.udb); el("zurl", (t.dead ? w.dead : w.at[t.port]) + (t.zdb.empty() ? "" : "/" + t.zdb)); el("authentication", t.auth); el("authenticationMode", t.auth_mode); el("requestSyntax", t.syntax); el("elementSet", t.elements); el("recordEncoding", t.encoding); el("extraArgs", t.extra); el("sruVersion", t.version); el("retryOnFailure", t.retry); el("sru", t.sru); el("cfAuth", t.cf); el("cfSubDB", t.sub); el("cfProxy", t.proxy); el("cf_q", t.cf_q);
    if (t.transform) el("literalTransform", xsl(t.udb)); if (!t.no_piggyback_given) el("piggyback", t.piggyback ? "1" : "0");
    for (int i = 0; i < 3; i++) if (t.map.count(FIELD[i]) && !base.count(FIELD[i])) el((std::string("cclmap_") + CCL[i]).c_str(), "1=" + t.map.at(FIELD[i]));
    for (auto &s : t.sort) el(("sortmap_" + s.first).c_str(), s.second);
    r += "<unknown>x</unknown>"; return r;
}
static Conf conf(Ctx &x, World &w)
{
    Conf c; std::set<std::string> base; std::string maps, local, attrs; c.remote = x.chance(1, 2); if (x.chance(1, 6)) base.insert("author"); if (x.chance(1, 6)) c.transform = x.pick({"?pz2", "tt"}); if (x.chance(1, 8)) c.raw = x.pick({"?rr", "rr"}); if (x.chance(1, 8)) c.marcxml = "mm"; c.record_xsl = x.chance(1, 4); if (x.chance(1, 3)) c.realm = "R0";
    for (auto &f : base) maps += "<cclmap><qual name=\"" + std::string(f == "author" ? "au" : "ti") + "\"><attr type=\"u\" value=\"dc.creator\"/></qual></cclmap>";
    int n = x.range(1, 4);
    for (int i = 0; i < n; i++) {
        Target t; t.udb = "d" + num(i); t.port = x.range(0, 1); t.zdb = x.pick({"Default", "Zdb", "a/b", ""}); if (x.chance(1, 3)) t.sru = x.pick({"get", "post"}); bool web = t.sru.size();
        if (t.zdb.empty() && web) t.zdb = "s"; if (t.zdb == "a/b" && !web) t.zdb = "ab";
        t.auth = x.pick({"", "", "u/p", "u", "u p", "u g p"}); if (web && x.chance(1, 3)) t.auth_mode = x.pick({"url", "basic"}); if (x.chance(1, 2)) t.syntax = x.pick({"usmarc", "xml", "sutrs", "nosuch", "a very long name of a syntax"}); if (t.syntax == "sutrs") t.syntax = "xml"; if (x.chance(1, 3)) t.elements = x.pick({"B", "full"}); if (!web && x.chance(1, 3)) { int e = x.range(0, 2); t.encoding = e == 0 ? "iso-8859-1" : e == 1 ? "utf-8" : std::string(150, 'x'); }
        if (web && x.chance(1, 4)) t.extra = "ex=1"; if (web && x.chance(1, 4)) t.version = "1.1"; t.retry = x.pick({"", "", "0", "1"}); if (!web && x.chance(1, 5)) { t.cf = "C/A"; if (x.coin()) t.sub = "S D"; if (x.chance(1, 3)) t.proxy = w.dead; if (x.coin()) t.cf_q = "a&b"; }
        t.transform = x.chance(1, 2); t.no_piggyback_given = x.coin(); if (!t.no_piggyback_given) t.piggyback = x.coin(); if (x.chance(1, 14)) t.dead = true; else if (!web && x.chance(1, 20)) { t.port = 2; if (t.zdb.empty()) t.zdb = "Zdb"; }
        t.map[""] = web ? x.pick({"", "any"}) : x.pick({"", "1016"}); if (t.map[""].empty()) t.map.erase(""); if (base.count("author")) t.map["author"] = "dc.creator"; else if (x.chance(4, 5)) t.map["author"] = web ? "dc.creator" : "1003"; if (x.chance(9, 10)) t.map["title"] = web ? "dc.title" : x.pick({"4", "5"});
        if (x.coin()) t.sort["title"] = "1=4"; if (c.remote && x.coin()) t.shape = x.pick({"record", "records", "tight", "spaced", "layer0"}); if (c.remote && x.chance(1, 12)) t.shape = x.pick({"none", "two", "badroot", "notxml", "404", "gone"}); c.ts.push_back(t);
        if (t.shape == "local") local += "<record>" + (x.coin() ? "<layer>" + fields(w, t, base) + "</layer>" : fields(w, t, base)) + "</record>";
    }
    w.refuse.insert(2);
    for (auto &p : {std::make_pair("element_transform", c.transform), std::make_pair("element_raw", c.raw), std::make_pair("element_marcxml", c.marcxml)}) attrs += std::string(" ") + p.first + "=\"" + p.second + "\"";
    if (c.record_xsl) { w.file("r.xsl", WRAP); attrs += " record_xsl=\"" + w.dir + "/r.xsl\""; } if (c.realm.size()) attrs += " realm=\"" + c.realm + "\"";
    if (c.remote) { std::string u = "http://" + w.at[2] + "/~t?q=%query&d=%db&r=%realm"; attrs += " url=\"" + zk::esc(u) + "\""; auto ts = c.ts; auto ww = &w; w.torus = [ts, ww, base](const std::string &path) {
        size_t a = path.find("&d="), b = path.find("&r="); std::string db = unuri(path.substr(a + 3, b - a - 3)); const Target *t = 0; for (auto &k : ts) if (k.udb == db && k.shape != "local") t = &k; if (!t) return World::http(200, "<records/>");
        std::string f = fields(*ww, *t, base), sp; if (t->shape == "record") return World::http(200, "<record>" + f + "</record>"); if (t->shape == "records") return World::http(200, "<?xml version=\"1.0\"?>\n<records> <x/><record>\n" + f + "</record></records>"); if (t->shape == "tight") return World::http(200, "<records><record><layer>" + f + "</layer></record></records>"); if (t->shape == "spaced") return World::http(200, "<records><record>\n <layer name=\"final\">\n" + f + "\n </layer>\n</record>\n</records>"); if (t->shape == "layer0") return World::http(200, "<record>" + f + "<layer/></record>");
        if (t->shape == "none") return World::http(200, "<records><other/></records>"); if (t->shape == "two") return World::http(200, "<records><record>" + f + "</record><record>" + f + "</record></records>"); if (t->shape == "badroot") return World::http(200, "<nothing>" + f + "</nothing>"); if (t->shape == "notxml") return World::http(200, "<records>"); if (t->shape == "404") return World::http(404, "nope"); return std::string(); }; }
    c.xml = "<torus" + attrs + "><records>" + local + "</records></torus>" + maps + "<fieldmap cql=\"cql.serverChoice\"/><fieldmap cql=\"title\" ccl=\"ti\"/><fieldmap cql=\"author\" ccl=\"au\"/><fieldmap cql=\"any\" ccl=\"zz\"/>"; return c;
}
// --- an operation of a client
struct Op { int kind = 0; /* 0 search 1 present */ int key = 0; std::string db, udb, syn, esn, esn2, text, sort_text; std::vector<std::pair<std::string, std::string> > args; std::string bad_arg; int type = 1; TreeP tree; std::vector<std::pair<std::string, bool> > sort; std::string broken; Plan plan; int ssub = 0, lslb = 1, mspn = 0, start = 1, num = 1; std::string pfault, ref; int ndb = 1; bool facets = false, spec = false; };
static TreeP tree(Ctx &x, int depth, int type, const std::string &must)
{
    TreeP t(new Tree); if (depth > 0 && x.chance(1, 2)) { t->op = x.range(0, 2); bool left = x.coin(); t->l = tree(x, depth - 1, type, left ? must : ""); t->r = tree(x, depth - 1, type, left ? "" : must); return t; }
    t->term = must.size() ? must : x.pick({"aa", "b b", "c1", "dd ee ff"}); if (type == 1) t->field = x.pick({"", "4", "1016"}); else t->field = x.pick({"", "", "title", "title", "author", "author"}); if (type == 104 && x.chance(1, 20)) t->field = x.pick({"subject", "any"}); if (type == 2 && x.chance(1, 20)) t->field = "any"; return t;
}
static void webify(Tree &t) { if (t.op < 0) { if (t.field == "4") t.field = "dc.title"; else if (t.field == "1016") t.field = "any"; } else { webify(*t.l); webify(*t.r); } }
static Op make(Ctx &x, const World &w, const Conf &c, int key, const std::string &last_db, bool session_realm = false)
{
    Op o; o.key = key; o.ref = x.chance(1, 3) ? "r" + num(key) : ""; const Target *t = &c.ts[x.range(0, (int) c.ts.size() - 1)]; o.udb = t->udb; if (x.chance(1, 15)) o.udb = x.pick({"nosuch", "D0", "d0d1"});
    o.syn = x.pick({"xml", "xml", "xml", "usmarc", "", "sutrs"}); if (o.syn == "sutrs" && t->sru.size()) o.syn = ""; o.esn = x.pick({"pz2", "raw", "marcxml", "F", "", "B", "tt", "rr", "mm"}); o.esn2 = x.coin() ? o.esn : x.pick({"", "raw", "F"});
    if (x.chance(2, 5)) { o.kind = 1; o.start = x.range(1, 8); o.num = x.range(1, 6); if (x.chance(1, 10)) { o.start = x.pick<int>({0, -1, 1, 1000}); o.num = x.pick<int>({0, -3, 1, 20000}); } if (x.chance(1, 15)) o.pfault = x.pick({"diag:14:pp", "diag:1:", "drop"}); o.spec = x.chance(1, 30); return o; }
    if (last_db.size() && x.chance(1, 2)) { o.db = last_db; o.udb = last_db.substr(0, last_db.find(',')); for (auto &k : c.ts) if (k.udb == o.udb) t = &k; std::string a = last_db.size() > o.udb.size() ? last_db.substr(o.udb.size() + 1) : ""; while (a.size()) { size_t e = a.find('&'); std::string one = a.substr(0, e); a.erase(0, e == std::string::npos ? e : e + 1); size_t d = one.find('='); o.args.push_back({one.substr(0, d), unuri(one.substr(d + 1))}); } }
    else {
        if (x.chance(1, 3)) { o.args.push_back({"user", x.pick({"U", "v/w"})}); if (x.coin()) o.args.push_back({"password", x.pick({"P", "q&r"})}); } if (x.chance(1, 5)) o.args.push_back({"x-a", x.pick({"1", "two 2"})}); if (x.chance(1, 8)) o.args.push_back({"retry", x.pick({"0", "1"})}); if (x.chance(1, 10)) o.args.push_back({"nocproxy", "1"}); if (x.chance(1, 6)) o.args.push_back({"realm", x.pick({"R1", "r 2"})}); if (t->sru.size() && x.chance(1, 4)) { std::string l; for (int k = x.range(1, 3); k > 0; k--) l += (l.empty() ? "" : ",") + (x.coin() ? w.dead : w.at[x.range(0, 1)]); o.args.push_back({"proxy", l}); } else if (t->cf.size() && x.chance(1, 8)) o.args.push_back({"proxy", w.dead}); if (x.chance(1, 12)) o.args.push_back({x.pick({"foo", "User", "xa", "content"}), "1"});
        o.db = o.udb; for (size_t i = 0; i < o.args.size(); i++) o.db += (i ? "&" : ",") + o.args[i].first + "=" + uri(o.args[i].second); if (o.args.empty() && x.chance(1, 20)) o.db += ",";
    }
    for (auto &a : o.args) if (o.bad_arg.empty() && a.first != "user" && a.first != "password" && a.first != "x-a" && a.first != "retry" && a.first != "nocproxy" && a.first != "proxy" && !(a.first == "realm" && !session_realm)) o.bad_arg = a.first;
    o.ndb = x.chance(1, 30) ? x.pick<int>({2, 3}) : 1; o.type = x.pick<int>({1, 1, 2, 104, 104}); bool web = t->sru.size(); o.tree = tree(x, 2, o.type, "t" + num(key) + "e"); if (web && o.type == 1) webify(*o.tree);
    if (o.type == 104 && !web && x.chance(1, 4)) for (int k = x.range(1, 2); k > 0; k--) o.sort.push_back({x.pick({"title", "date"}), x.coin()});
    if (x.chance(1, 12)) { if (o.type == 104) o.broken = x.pick({"a and", "(a", "a sortby", "a=(b"}); else if (o.type == 2) o.broken = x.pick({"", "a and", "(a", "a)", " "}); else o.broken = x.chance(1, 2) ? "type" : ""; if (o.type == 2 && o.broken.empty()) o.broken = "\n"; }
    Plan &p = o.plan; p.hits = x.pick<int>({0, 1, 3, 7, 12}); if (x.chance(1, 4)) p.cap = x.range(1, 3); if (x.chance(1, 8)) { std::string d = web ? x.pick({"diag:10:dd", "diag:16:e e", "500"}) : x.pick({"diag:114:zz", "diag:2:y y", "diag:108:q"}); int k = x.range(0, 3); if (k == 0) p.fate = {d, "ok"}; else if (k == 1) p.fate = {d}; else if (k == 2) p.fate = {"drop", "ok"}; else p.fate = {"drop"}; }
    if (!web) { for (int k = 0; k < 3; k++) if (x.chance(1, 8)) p.sur.insert(x.range(1, 8)); if (x.chance(1, 8)) p.bad.insert(x.range(1, 5)); } p.latin = x.chance(1, 3); o.facets = !web && x.chance(1, 6);
    if (x.coin()) { o.ssub = x.range(0, 4); o.lslb = o.ssub + x.range(1, 8); o.mspn = x.range(0, 5); } else if (x.chance(1, 3)) { o.lslb = 0; } return o;
}
static std::string show(const World &w, const Op &o) { std::ostringstream s; if (o.kind) s << "present " << o.start << "+" << o.num << " " << o.syn << "/" << o.esn << (o.spec ? " spec" : "") << (o.pfault.empty() ? "" : " target:" + o.pfault) << "; "; else { s << "search " << q(o.db) << (o.ndb > 1 ? "+" : "") << " " << o.type << " " << (o.broken.size() ? "broken " + q(o.broken) : infix(*o.tree, true)); for (auto &k : o.sort) s << " sort " << k.first << (k.second ? " up" : " down"); if (o.ssub || o.lslb != 1) s << " piggyback " << o.ssub << "," << o.lslb << "," << o.mspn << " " << o.esn << "," << o.esn2; s << " " << o.syn << " hits " << o.plan.hits; for (auto &f : o.plan.fate) if (f != "ok" || o.plan.fate.size() > 1) s << " " << f; if (o.facets) s << " facets"; s << "; "; } std::string r = s.str(); for (size_t f; (f = r.find(w.dead)) != std::string::npos;) r.replace(f, w.dead.size(), "dead"); for (int i = 0; i < 3; i++) { std::string a = uri(w.at[i]); for (size_t f; (f = r.find(a)) != std::string::npos;) r.replace(f, a.size(), "$" + num(i)); } { std::string a = uri(w.dead); for (size_t f; (f = r.find(a)) != std::string::npos;) r.replace(f, a.size(), "dead"); } return r; }
// what a client knows
struct User { zk::Client *c = 0; std::string realm, db; /* of the last search */ const Target *t = 0; int key = -1; bool set = false, unsure = false; long hits = 0; Plan plan; int good = 0, records = 0; };
static bool names(const char *e, const std::string &conf) { if (conf.empty()) return false; if (conf[0] == '?') return !e || conf.substr(1) == e; return e && conf == e; }
static void need(bool ok, const std::string &m) { if (!ok) throw Fail(m); }
template<class A, class B> static void same(const A &got, const B &want, const std::string &what) { if (!(got == want)) { std::ostringstream s; s << what << ": got <" << got << "> expected <" << want << ">"; throw Fail(s.str()); } }
static void records(const Conf &c, const User &u, const std::string &db, const Z_Records *rs, long start, long n, const std::string &S, const std::string &E)
{
    zk::Recs r = zk::recs((Z_Records *) rs); same(r.diag, std::string(), "diagnostic instead of records"); if (start < 1 || n < 0) n = 0; long last = std::min(start + n - 1, u.hits), count = std::max(0L, last - start + 1); same((long) r.body.size(), count, "number of records from " + num(start));
    const Target &t = *u.t; bool web = t.sru.size(), retrieval = false, transform = false, second = false, turbo = false; const char *e = E.empty() ? 0 : E.c_str();
    if (S == "xml") { if (names(e, c.transform)) retrieval = transform = turbo = true; else if (names(e, c.raw)) retrieval = turbo = true; else if (names(e, c.marcxml)) retrieval = true; else if (c.record_xsl) retrieval = transform = second = turbo = true; }
    std::string syn = retrieval ? t.syntax : S, esn = retrieval && E != c.passthru ? t.elements : E; if (syn != "usmarc" && syn != "xml" && syn != "sutrs") syn = ""; if (web) syn = "xml"; if (esn.empty()) esn = "-";
    for (long i = 0; i < count; i++) {
        long pos = start + i; std::string what = "record " + num(pos); same(r.db[i], db, "database of " + what); if (!web && u.plan.sur.count(pos)) { same(r.body[i], "!14:s" + num(pos), what); continue; }
        bool bad = u.plan.bad.count(pos) && !web; std::string kind = syn.empty() ? "xml" : syn, b = content(u.key, pos, syn.empty() ? "-" : syn, esn), full = body_of(u.key, pos, syn.empty() ? "-" : syn, esn, u.plan.latin, bad);
        if (!retrieval) { same(r.syn[i], zk::oid_text(yaz_string_to_oid(yaz_oid_std(), CLASS_RECSYN, kind.c_str())), "syntax of " + what); same(r.body[i], full, what); continue; }
        if (kind == "usmarc" && u.plan.latin) { if (t.encoding == "iso-8859-1") b += LATIN8; else continue; }     // not told the encoding: up to the conversion
        if (t.encoding.size() > 100 && r.body[i][0] == '!') continue;                                     // no such encoding
        bool done = transform && t.transform; if (bad && kind == "xml" && done) { same(r.body[i].substr(0, 5), std::string("!14:x"), what + " that is no XML"); continue; }
        same(r.syn[i], zk::oid_text(yaz_oid_recsyn_xml), "syntax of " + what);
        if (done) { std::string want = "<pz n=\"" + t.udb + "\">" + b + "</pz>"; if (second) want = "<rx>" + want + "</rx>"; std::string got = r.body[i]; while (got.size() && got.back() == '\n') got.pop_back(); same(got, want, what); }
        else if (kind == "xml") same(r.body[i], full, what);
        else { need(r.body[i].find(">" + b + "<") != std::string::npos, what + ": " + r.body[i] + " lacks " + b); need((r.body[i].find("http://www.indexdata.com/turbomarc") != std::string::npos) == turbo && (r.body[i].find("http://www.loc.gov/MARC21/slim") != std::string::npos) == !turbo, what + " is " + r.body[i].substr(0, 80)); }
    }
}
static std::string code_of(const std::string &d) { return d.substr(0, d.find(':')); }
static Z_APDU *apdu(ODR o, const Op &op)
{
    if (op.kind) { zk::Present p; p.start = op.start; p.num = op.num; p.syn = op.syn; p.esn = op.esn; p.ref = op.ref; Z_APDU *a = zk::present(o, p); if (op.spec) { Z_RecordComposition *rc = (Z_RecordComposition *) odr_malloc(o, sizeof *rc); rc->which = Z_RecordComp_complex; rc->u.complex = (Z_CompSpec *) odr_malloc(o, sizeof(Z_CompSpec)); memset(rc->u.complex, 0, sizeof(Z_CompSpec)); rc->u.complex->selectAlternativeSyntax = odr_booldup(o, 0); a->u.presentRequest->recordComposition = rc; } return a; }
    zk::Search s; s.dbs = std::vector<std::string>(1, op.db); for (int i = 1; i < op.ndb; i++) s.dbs.push_back("d" + num(i)); Target none; s.query = op.type == 1 ? pqf(*op.tree, none, true) : "x"; s.ssub = op.ssub; s.lslb = op.lslb; s.mspn = op.mspn; s.syn = op.syn; s.esn_s = op.esn; s.esn_m = op.esn2; s.ref = op.ref; Z_APDU *a = zk::search(o, s); Z_Query *z = a->u.searchRequest->query;
    std::string t = op.broken.size() ? op.broken : op.tree ? infix(*op.tree, op.type == 104) : ""; if (op.broken == "\n") t = "";
    if (op.type == 104) { for (size_t i = 0; i < op.sort.size() && op.broken.empty(); i++) t += (i ? " " : " sortby ") + op.sort[i].first + (op.sort[i].second ? "" : "/sort.descending"); z->which = Z_Query_type_104; z->u.type_104 = (Z_External *) odr_malloc(o, sizeof(Z_External)); memset(z->u.type_104, 0, sizeof(Z_External)); z->u.type_104->direct_reference = odr_oiddup(o, yaz_oid_userinfo_cql); z->u.type_104->which = Z_External_CQL; z->u.type_104->u.cql = odr_strdup(o, t.c_str()); }
    else if (op.type == 2) { z->which = Z_Query_type_2; z->u.type_2 = odr_create_Odr_oct(o, t.data(), (int) t.size()); }
    else if (op.broken == "type") { z->which = Z_Query_type_100; z->u.type_100 = odr_create_Odr_oct(o, "abc", 3); }
    if (op.facets) { Z_FacetList *fl = yaz_pqf_parse_facet_list(o, "@attr 1=title @attr 3=5"); yaz_oi_set_facetlist(&a->u.searchRequest->additionalSearchInfo, o, fl); }
    return a;
}
static void play(World &w, const Conf &c, User &u, const Op &op)
{
    zk::Mem mem; { std::lock_guard<std::mutex> l(w.m); if (!op.kind) w.plans[op.key] = op.plan; else if (u.key >= 0) w.plans[u.key].pfault = op.pfault; }
    size_t asked; { std::lock_guard<std::mutex> l(w.m); asked = w.asked.size(); }
    Z_GDU *g = u.c->send(apdu(mem, op)); need(g && g->which == Z_GDU_Z3950, "no answer"); same(zk::get_ref(g->u.z3950), op.ref, "reference of the answer"); need(!u.c->closed, "session closed");
    if (op.kind) {
        Z_PresentResponse *r = zk::present_of(g); need(r, std::string("answer to present is ") + zk::name(g->u.z3950->which)); std::string left; if (u.key >= 0) { std::lock_guard<std::mutex> l(w.m); left = w.plans[u.key].pfault; w.plans[u.key].pfault.clear(); }
        zk::Recs got = zk::recs(r->records); same((long) *r->numberOfRecordsReturned, (long) got.body.size(), "numberOfRecordsReturned");
        if (u.unsure) { if (op.pfault.size() && left.empty()) u.set = false; return; }
        if (!u.set) { same(got.diag, num(YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST), "present without a result set"); return; }
        if (op.spec) { same(code_of(got.diag), num(YAZ_BIB1_PRESENT_COMP_SPEC_PARAMETER_UNSUPP), "present with a specification"); return; }
        if (op.pfault.size() && left.empty()) { u.unsure = true; if (op.pfault != "drop") same(code_of(got.diag), u.t->sru.size() ? num(yaz_diag_srw_to_bib1(atoi(op.pfault.c_str() + 5))) : code_of(op.pfault.substr(5)), "diagnostic of the target's present"); return; }
        records(c, u, u.db, r->records, op.start, op.num, op.syn, op.esn); u.records += (int) got.body.size(); return;
    }
    Z_SearchResponse *r = zk::search_of(g); need(r, std::string("answer to search is ") + zk::name(g->u.z3950->which)); zk::Recs got = zk::recs(r->records); std::string d = got.diag; same((long) *r->numberOfRecordsReturned, (long) got.body.size(), "numberOfRecordsReturned");
    std::vector<Seen> seen; std::vector<std::string> asked_now; { std::lock_guard<std::mutex> l(w.m); seen = w.seen[op.key]; asked_now.assign(w.asked.begin() + std::min(asked, w.asked.size()), w.asked.end()); }
    std::vector<Seen> tries; for (auto &s : seen) if (s.auth != "present") tries.push_back(s);
    auto fails = [&](const std::string &want, bool exact = true) { same(exact ? d : code_of(d), want, "diagnostic of the search (" + d + ")"); same((long) *r->resultCount, 0L, "hits of a failed search"); need(got.body.empty(), "records of a failed search"); need(!*r->searchStatus, "status of a failed search"); u.unsure = true; };
    bool had = u.set || u.unsure;
    auto nothing = [&](const std::string &want, bool exact = true) { need(tries.empty(), "target got the query all the same"); fails(want, exact); u.unsure = had; };
    if (op.ndb != 1) return nothing(num(YAZ_BIB1_TOO_MANY_DATABASES_SPECIFIED), true);
    if (op.bad_arg.size()) return nothing(num(YAZ_BIB1_TEMPORARY_SYSTEM_ERROR) + ":zoom: bad database argument: " + op.bad_arg);
    const Target *t = 0; for (auto &k : c.ts) if (k.udb == op.udb) t = &k; bool remote = c.remote && (!t || t->shape != "local"), same_db = had && u.t && u.db == op.db;
    std::map<std::string, std::string> arg; for (auto &a : op.args) arg[a.first] = a.second;
    if (remote) { std::string realm = u.realm.size() ? u.realm : arg.count("realm") ? arg["realm"] : c.realm, want = "/~t?q=" + uri("udb==" + op.udb) + "&d=" + uri(op.udb) + "&r=" + uri(realm); bool found = false; { std::lock_guard<std::mutex> l(w.m); for (auto &a : w.asked) found = found || a == want; } need(found, "no request " + want + " for the target profile"); }
    if (!t || t->shape == "none") return nothing(num(YAZ_BIB1_DATABASE_DOES_NOT_EXIST) + ":" + op.udb);
    if (t->shape == "two") return nothing(num(YAZ_BIB1_UNSPECIFIED_ERROR) + ":multiple records for udb=" + op.udb); if (t->shape == "badroot") return nothing(num(YAZ_BIB1_UNSPECIFIED_ERROR) + ":bad root element for torus: nothing"); if (t->shape == "notxml") return nothing(num(YAZ_BIB1_UNSPECIFIED_ERROR) + ":Torus: XML parse failed"); if (t->shape == "404") return nothing(num(YAZ_BIB1_UNSPECIFIED_ERROR) + ":Torus: nope"); if (t->shape == "gone") return nothing(num(YAZ_BIB1_UNSPECIFIED_ERROR), false);
    bool web = t->sru.size(), retry = (arg.count("retry") ? arg["retry"] : t->retry.empty() ? "1" : t->retry) != "0";
    std::vector<std::string> proxies; std::string cfp = t->cf.empty() ? "" : arg.count("proxy") ? arg["proxy"] : t->proxy; if (web && arg.count("proxy")) { std::istringstream l(arg["proxy"]); std::string one; while (std::getline(l, one, ',')) proxies.push_back(one); } std::string via; for (auto &one : proxies) if (via.empty() && one != w.dead) via = one;
    if (!web && t->cf.empty() && arg.count("proxy")) { u.set = false; u.unsure = true; u.t = t; u.db = op.db; u.key = -1; return; }
    if (t->zdb.empty() && (t->cf.size() || arg.count("x-a"))) { u.set = false; u.unsure = true; u.t = t; u.db = op.db; u.key = -1; return; }      // nothing to add parameters to
    if (cfp.size() && t->dead) return nothing(num(YAZ_BIB1_PROXY_FAILURE) + ":" + w.dead);
    if (t->dead && !web) return nothing(num(YAZ_BIB1_TEMPORARY_SYSTEM_ERROR), false);
    if (t->port == 2 && !t->dead) return nothing(num(cfp.size() ? YAZ_BIB1_PROXY_FAILURE : YAZ_BIB1_INIT_AC_AUTHENTICATION_SYSTEM_ERROR), false);
    // a connection is made from here on: an earlier result set may be gone
    auto refused = [&](const std::string &want, bool exact = true) { need(tries.empty(), "target got the query all the same"); fails(want, exact); if (!same_db) { u.set = u.unsure = false; u.t = t; u.db = op.db; u.key = -1; } };
    if (op.broken == "type") return refused(num(YAZ_BIB1_QUERY_TYPE_UNSUPP)); if (op.broken.size()) return refused(num(YAZ_BIB1_MALFORMED_QUERY), false);
    if (op.type == 104 && uses(*op.tree, "subject")) return refused(num(YAZ_BIB1_UNSUPP_USE_ATTRIBUTE) + ":subject");
    if (op.type != 1) { std::set<std::string> missing; missing.insert("any"); for (auto f : {"title", "author"}) if (!t->map.count(f)) missing.insert(f); if (first_of(*op.tree, missing).size()) return refused(num(YAZ_BIB1_UNSUPP_SEARCH) + ":Unknown qualifier"); }
    if (proxies.size() && via.empty()) { fails(num(YAZ_BIB1_PROXY_FAILURE) + ":" + proxies.back()); need(tries.empty(), "target got the query past the proxy"); u.set = false; u.t = t; u.db = op.db; u.key = op.key; return; }
    if (t->dead && via.empty()) { fails(num(YAZ_BIB1_TEMPORARY_SYSTEM_ERROR), false); u.set = false; u.t = t; u.db = op.db; u.key = op.key; return; }
    // the target saw the query
    std::string query = web ? cql_out(*op.tree, *t, op.type == 1) : pqf(*op.tree, *t, op.type == 1); for (size_t i = 0; i < op.sort.size(); i++) { auto k = t->sort.find(op.sort[i].first); std::string f = k == t->sort.end() ? op.sort[i].first : k->second; if (f.find('=') == std::string::npos) f = "1=" + f; query = "@or " + query + " @attr 7=" + (op.sort[i].second ? "1" : "2") + " @attr " + f + " " + num(i); } if (!web) query = "RPN @attrset Bib-1 " + query;
    std::string auth = t->auth, user, group, pass; if (arg.count("user")) { auth = arg["user"]; if (arg.count("password")) auth += "/" + arg["password"]; }
    std::vector<std::pair<std::string, std::string> > out; if (arg.count("x-a")) out.push_back({"x-a", arg["x-a"]});
    if (t->cf.size()) { size_t s = auth.find('/'); if (arg.count("user")) { out.push_back({"user", arg["user"]}); if (arg.count("password")) out.push_back({"password", arg["password"]}); } else if (auth.size()) { out.push_back({"user", auth.substr(0, s)}); if (s != std::string::npos) out.push_back({"password", auth.substr(s + 1)}); } if (cfp.size()) out.push_back({"proxy", cfp}); if (t->sub.size()) out.push_back({"subdatabase", t->sub}); if (arg.count("nocproxy")) out.push_back({"nocproxy", "1"}); if (t->cf_q.size()) out.push_back({"q", t->cf_q}); auth = t->cf; }
    std::string zdb = t->zdb.empty() ? "Default" : t->zdb; for (size_t i = 0; i < out.size(); i++) zdb += (i ? "&" : ",") + out[i].first + "=" + uri(out[i].second);
    { size_t s = auth.find(' '); if (t->cf.size()) s = std::string::npos; else if (s == std::string::npos && web) s = auth.find('/'); user = auth.substr(0, s); if (s != std::string::npos) { pass = auth.substr(s + 1); size_t s2 = pass.find(' '); if (s2 != std::string::npos) { group = pass.substr(0, s2); pass.erase(0, s2 + 1); } } }
    const std::vector<std::string> &f = op.plan.fate; bool drop = f[0] == "drop", good = f.back() == "ok" && (f.size() == 1 || retry), unknown = false; if (f.size() == 2 && cfp.size()) good = false; if (drop && f.size() == 2 && !good) unknown = true;
    need(!tries.empty() || t->zdb.empty(), "target did not get the query: " + d); if (t->zdb.empty() && out.size() && tries.empty()) { u.set = false; u.unsure = true; return; }
    for (auto &s : tries) {
        same(s.port, via.empty() ? t->port : (int) (std::find(w.at.begin(), w.at.end(), via) - w.at.begin()), via.empty() ? "target" : "proxy"); same(s.query, query, "query"); if (!(t->zdb.empty() && out.size())) same(s.db, (via.size() ? "http://" + (t->dead ? w.dead : w.at[t->port]) : "") + (web ? "/" : "") + zdb, "database at the target");
        if (!web) { std::string want = user.empty() ? "none" : pass.empty() && group.empty() ? "open:" + user : "idpass:" + user + "/" + group + "/" + pass; same(s.auth, want, "authentication"); same(s.facets, op.facets, "facets asked for"); continue; }
        bool url = t->auth_mode == "url"; std::string h; size_t p = s.headers.find("Authorization: Basic "); if (p != std::string::npos) { p += 21; h = s.headers.substr(p, s.headers.find("\r\n", p) - p); } same(h, user.empty() || url ? "" : base64(user + ":" + pass), "HTTP authentication"); if (url && user.size()) { auto a = s.args; same(a["x-username"] + "/" + a["x-password"], user + "/" + pass, "authentication in the URL"); } else need(!s.args.count("x-username"), "authentication in the URL");
        { auto a = s.args; if (t->version.size()) same(a["version"], t->version, "SRU version"); /* else up to YAZ, that steps down after failures */ same(a["ex"], t->extra.empty() ? "" : "1", "extra arguments"); same(a["operation"], "searchRetrieve", "operation"); same(s.headers.substr(0, 4), t->sru == "get" ? "GET " : "POST", "method"); }
    }
    if (unknown && d.empty()) good = true;
    auto lost = [&] { u.set = false; u.unsure = true; u.t = t; u.db = op.db; u.key = op.key; };
    if (via.size() && (f[0] != "ok" || f.size() > 1)) { u.set = false; u.unsure = true; u.t = t; u.db = op.db; u.key = op.key; return; }      // up to the other proxies
    int tried = 0; if (web) { for (auto &s : tries) tried += s.start <= 1; } else tried = (int) tries.size();
    if (!good) {
        if (cfp.size()) { fails(num(YAZ_BIB1_PROXY_FAILURE) + ":" + w.dead); if (!drop) same(tried, 1, "searches at the target"); lost(); return; }
        if (drop || f[0] == "500") fails(num(YAZ_BIB1_TEMPORARY_SYSTEM_ERROR), false); else { size_t e = f[0].find(':', 5); int code = atoi(f[0].c_str() + 5); std::string add = f[0].substr(e + 1); fails(num(web ? yaz_diag_srw_to_bib1(code) : code) + ":" + add + " (" + (web ? "info:srw/diagnostic/1" : "Bib-1") + " " + num(code) + " " + (web ? yaz_diag_srw_str(code) : diagbib1_str(code)) + ")"); }
        if (!drop) same(tried, retry ? 2 : 1, "searches at the target"); lost(); return;
    }
    same(code_of(d), std::string(), "diagnostic of the search"); same((long) *r->resultCount, op.plan.hits, "hits"); need(*r->searchStatus, "status"); { Z_FacetList *fl = yaz_oi_get_facetlist(&r->additionalSearchInfo); std::string fs; for (int i = 0; fl && i < fl->num; i++) { struct yaz_facet_attr av; yaz_facet_attr_init(&av); yaz_facet_attr_get_z_attributes(fl->elements[i]->attributes, &av); fs += std::string(av.useattr ? av.useattr : "?") + ":"; for (int j = 0; j < fl->elements[i]->num_terms; j++) { Z_Term *ft = fl->elements[i]->terms[j]->term; fs += (ft->which == Z_Term_general ? std::string((const char *) ft->u.general->buf, ft->u.general->len) : "?") + "=" + num((long) *fl->elements[i]->terms[j]->count) + " "; } } std::string k = num(op.key); same(fs, op.facets && !web ? "title:f" + k + "-0=" + k + " f" + k + "-1=" + num(op.key + 1) + " " : "", "facets"); } if (!drop && !web) same(tried, (int) f.size(), "searches at the target");
    u.set = true; u.unsure = false; u.t = t; u.db = op.db; u.key = op.key; u.hits = op.plan.hits; u.plan = op.plan; u.good++;
    long n = 0; std::string e; if (op.plan.hits <= op.ssub) { n = op.plan.hits; e = op.esn; } else if (op.plan.hits < op.lslb) { n = std::min((long) op.mspn, op.plan.hits); e = op.esn2; } if (n) { records(c, u, op.db, r->records, 1, n, op.syn, e); u.records += (int) n; } else need(got.body.empty(), "records not asked for");
}
static std::unique_ptr<zk::Net> start(const Conf &c) { return std::unique_ptr<zk::Net>(new zk::Net({&metaproxy_1_filter_zoom}, zk::route("start", "<filter type=\"zoom\">" + c.xml + "</filter>" + zk::hook("rest")))); }
static void open(User &u, const std::string &ref = "")
{
    zk::Mem o; Z_GDU *g = u.c->send(zk::init(o, {Z_Options_search, Z_Options_present, Z_Options_scan, Z_Options_sort}, ref)); Z_InitResponse *r = zk::init_of(g); need(r && *r->result, "init refused"); need(ODR_MASK_GET(r->options, Z_Options_search) && ODR_MASK_GET(r->options, Z_Options_present) && !ODR_MASK_GET(r->options, Z_Options_scan) && !ODR_MASK_GET(r->options, Z_Options_sort), "options of the init response"); same(zk::get_ref(g->u.z3950), ref, "reference of the init response");
}
static std::string tell(const World &w, const Conf &c) { std::string s = c.xml; for (auto &t : c.ts) if (t.shape != "local") s += " " + t.udb + ":" + t.shape + " " + fields(w, t, {}); auto hide = [&](const std::string &a, const std::string &b) { for (size_t f; (f = s.find(a)) != std::string::npos;) s.replace(f, a.size(), b); }; for (int i = 0; i < 3; i++) hide(w.at[i], "$" + num(i)); hide(w.dead, "dead"); hide(w.dir, "dir"); for (size_t p; (p = s.find("<literalTransform>")) != std::string::npos;) s.replace(p, s.find("</literalTransform>") + 19 - p, "<T/>"); hide("<unknown>x</unknown>", ""); return s; }
// the links of different clients are different ones
static void apart(World &w, const std::map<int, int> &who) { std::map<int, int> of; std::lock_guard<std::mutex> l(w.m); for (auto &k : w.seen) for (auto &s : k.second) { auto i = who.find(k.first); if (i == who.end()) continue; auto j = of.insert({s.link, i->second}); need(j.first->second == i->second, "two clients used one connection to the target"); } }
static void ended(World &w) { need(w.t.until([&] { for (auto &k : w.t.links) if (!k->eof && !k->closed) return false; return true; }, 5000), "connection to a target left open after the clients were gone"); std::lock_guard<std::mutex> l(w.m); same(w.trouble, std::string(), "target"); same(w.t.trouble, std::string(), "target"); }
static void requests(Ctx &x)
{
    World w; Conf c = conf(x, w); x.desc << tell(w, c) << ": "; std::unique_ptr<zk::Net> net = start(c); int ns = x.range(1, 2), no = 0; std::vector<std::unique_ptr<zk::Client> > cs; std::vector<User> us(ns); std::map<int, int> who; std::vector<std::string> last(ns);
    for (int i = 0; i < ns; i++) { cs.emplace_back(new zk::Client(*net, "10.0.0." + num(i + 1))); us[i].c = cs[i].get(); if (x.chance(1, 10)) { zk::Mem o; int before = w.passed; us[i].c->send(zk::search(o, zk::Search())); x.eq(w.passed - before, 1, "requests passed on before init"); } open(us[i], x.coin() ? "i" : ""); }
    int n = 1 + x.len(10); for (int i = 0; i < n; i++) { int k = x.range(0, ns - 1); Op o = make(x, w, c, ++no, last[k]); if (!o.kind) { last[k] = o.bad_arg.size() ? "" : o.db; who[no] = k; } x.desc << (ns > 1 ? num(k) + " " : "") << show(w, o); int g = us[k].good, r = us[k].records; play(w, c, us[k], o); x.label(o.kind ? us[k].records > r ? "records" : "present, none" : us[k].good > g ? us[k].t->sru.size() ? "SRU" : "Z39.50" : "failed search"); }
    int good = 0, recs = 0; for (auto &u : us) { good += u.good; recs += u.records; if (x.chance(1, 6)) { zk::Mem o; Z_GDU *g = u.c->send(x.coin() ? zk::init(o) : zk::scan(o, zk::Scan())); x.check(zk::is_close(g) && u.c->closed, "second init or a scan did not end the session"); } u.c->hangup(); }
    apart(w, who); ended(w); x.nontrivial = good >= 1 && recs >= 1;
}
static void threads(Ctx &x)
{
    World w; Conf c = conf(x, w); x.desc << tell(w, c) << ": "; std::unique_ptr<zk::Net> net = start(c); int nt = x.range(2, 6), no = 0, total = 0; struct Who { std::vector<Op> ops; User u; std::string bad; }; std::vector<Who> ws(nt); std::map<int, int> who;
    for (int i = 0; i < nt; i++) { std::string last; for (int k = x.range(1, 5); k > 0; k--) { Op o = make(x, w, c, ++no, last); if (!o.kind) { last = o.bad_arg.size() ? "" : o.db; who[no] = i; } x.desc << i << " " << show(w, o); ws[i].ops.push_back(o); total++; } }
    std::vector<std::thread> th; std::atomic<int> ready{0};
    for (int i = 0; i < nt; i++) th.emplace_back([&, i] { ready++; while (ready < nt) sched_yield(); Who &k = ws[i]; zk::Client cl(*net, "10.0.0." + num(i + 1)); k.u.c = &cl; try { open(k.u); for (auto &o : k.ops) play(w, c, k.u, o); } catch (Fail &f) { k.bad = f.what(); } cl.hangup(); });
    for (auto &t : th) t.join(); for (auto &k : ws) x.check(k.bad.empty(), k.bad); apart(w, who); ended(w); int good = 0; for (auto &k : ws) good += k.u.good; x.nontrivial = good >= 2 && nt >= 2; x.label("threads " + num(nt));
}
// access granted or denied by a service
static void grants(Ctx &x)
{
    World w; Conf c; c.remote = true; Target t; t.udb = "d0"; t.zdb = "Default"; t.shape = "record"; c.ts.push_back(t); std::string host = x.chance(1, 3) ? "h\"1" : "", allow = x.pick({"", "10.0.0.*", "10.0.0.2 127.*"}); c.realm = x.coin() ? "R0" : "";
    std::string mode = x.pick({"ok", "ok", "spaced", "plain", "empty", "none", "noid", "notxml", "404", "gone"}), id = x.pick({"me", "you & I"});
    c.xml = "<torus url=\"" + zk::esc("http://" + w.at[2] + "/~t?q=%query&d=%db&r=%realm") + "\" auth_url=\"http://" + w.at[2] + "/~a?%query\"" + (host.size() ? " auth_hostname=\"" + zk::esc(host) + "\"" : "") + (allow.size() ? " allow_ip=\"" + allow + "\"" : "") + (c.realm.size() ? " realm=\"R0\"" : "") + "/><fieldmap cql=\"cql.serverChoice\"/><fieldmap cql=\"title\" ccl=\"ti\"/><fieldmap cql=\"author\" ccl=\"au\"/><fieldmap cql=\"any\" ccl=\"zz\"/>";
    w.torus = [&](const std::string &p) { std::string i = "<identityId>" + zk::esc(id) + "</identityId>"; if (p.compare(0, 3, "/~a")) return World::http(200, p.find("&d=d0&") == std::string::npos ? "<records/>" : "<record>" + fields(w, t, {}) + "</record>"); if (mode == "ok") return World::http(200, "<records><record><layer><x/>" + i + "</layer></record></records>"); if (mode == "spaced") return World::http(200, "<records>\n <record>\n <layer>\n " + i + "\n</layer>\n</record>\n</records>"); if (mode == "plain") return World::http(200, "<record>" + i + "</record>"); if (mode == "empty") return World::http(200, "<records/>"); if (mode == "none") return World::http(200, "<records><record/></records>"); if (mode == "noid") return World::http(200, "<records><record><layer><name>x</name></layer></record></records>"); if (mode == "notxml") return World::http(200, "<rec"); if (mode == "404") return World::http(404, "nope"); return std::string(); };
    x.desc << tell(w, c) << " service " << mode << ": "; std::unique_ptr<zk::Net> net = start(c); int n = x.range(1, 3), no = 0; bool in = false, out = false;
    for (int i = 0; i < n; i++) {
        std::string ip = x.pick({"10.0.0.1", "10.0.0.2", "192.168.1.1"}), said = x.chance(1, 4) ? x.pick({"10.0.0.1", "172.16.0.1"}) : "", user, pass; int form = x.range(0, 4); zk::Client cl(*net, ip); zk::Mem o; Z_APDU *a = zk::init(o); Z_InitRequest *r = a->u.initRequest; std::string U = x.pick({"bob", "b*o\"b", "?^"}), P = x.pick({"pw", "p/w"});
        if (form == 1) { r->idAuthentication = zk::auth_open(o, U + "/" + P); user = U; pass = P; } else if (form == 2) r->idAuthentication = zk::auth_open(o, U); else if (form == 3) { r->idAuthentication = zk::auth_idpass(o, U, "", P); user = U; pass = P; } else if (form == 4) r->idAuthentication = zk::auth_idpass(o, U, "g", "");
        if (said.size()) yaz_oi_set_string_oid(&r->otherInfo, o, yaz_oid_userinfo_client_ip, 1, said.c_str()); std::string who = said.size() ? said : ip; bool free = false; { std::istringstream s(allow); std::string g; while (s >> g) free = free || yaz_match_glob(g.c_str(), who.c_str()); }
        auto esc = [](const std::string &s) { std::string q; for (char ch : s) { if (strchr("*?^\"", ch)) q += "\\"; q += ch; } return q; }; std::string want = user.size() ? "userName==\"" + esc(user) + "\" and password==\"" + esc(pass) + "\"" : "ipRanges encloses/net.ipaddress \"" + who + "\"" + (host.size() ? " AND hostName == \"" + esc(host) + "\"" : "");
        x.desc << ip << (said.size() ? " says " + said : "") << " form " << form << " " << U << "/" << P << "; "; w.asked_now(); Z_GDU *g = cl.send(a); std::vector<std::string> asked = w.asked_now(); Z_InitResponse *ir = zk::init_of(g); x.check(ir, "no init response"); x.eq(asked.size(), free ? 0u : 1u, "questions to the service"); if (!free) x.eq(asked[0], "/~a?" + uri(want), "question to the service");
        bool ok = free || mode == "ok" || mode == "spaced" || mode == "plain"; int code = 0; if (Z_External *e = ir->userInformationField) { x.check(e->which == Z_External_userInfo1 && e->u.userInfo1->num_elements > 0, "diagnostic"); Z_DiagnosticFormat *df = e->u.userInfo1->list[0]->information.externallyDefinedInfo->u.diag1; code = (int) *df->elements[0]->u.defaultDiagRec->condition; }
        x.eq((bool) *ir->result, ok, "result of init"); x.eq(cl.closed, !ok, "session closed"); (ok ? in : out) = true; int expect = ok ? 0 : mode == "notxml" || mode == "404" || mode == "gone" ? YAZ_BIB1_TEMPORARY_SYSTEM_ERROR : user.size() ? YAZ_BIB1_INIT_AC_BAD_USERID_AND_OR_PASSWORD : YAZ_BIB1_INIT_AC_BLOCKED_NETWORK_ADDRESS; x.eq(code, expect, "diagnostic of init");
        if (!ok) continue;
        User u; u.c = &cl; u.realm = free ? "" : id; for (int k = x.range(1, 3); k > 0; k--) { Op p = make(x, w, c, ++no, "", u.realm.size()); x.desc << show(w, p); play(w, c, u, p); } cl.hangup();
    }
    ended(w); x.nontrivial = in || out; x.label(in && out ? "both" : in ? "granted" : "denied");
}
// the targets there are, as records of IR-Explain---1
static void explain(Ctx &x)
{
    World w; bool have = x.chance(7, 8); int n = x.range(0, 6); std::string mode = x.pick({"ok", "ok", "ok", "ok", "notxml", "404"}), realm; std::vector<std::string> recs; std::string all; for (int i = 0; i < n; i++) { std::string r = x.chance(1, 8) ? "" : "<e>r" + num(i) + "</e>"; recs.push_back(r); std::string d = "<recordData>" + r + "</recordData>"; all += x.coin() ? d : "<record>" + d + "</record>"; }
    w.file("e.xsl", COPY); w.torus = [&](const std::string &) { return mode == "ok" ? World::http(200, "<records>" + all + "</records>") : mode == "notxml" ? World::http(200, "<re") : World::http(404, "nope"); };
    Conf c; c.xml = "<torus url=\"" + zk::esc("http://" + w.at[2] + "/~t?q=%query&d=%db&r=%realm") + "\"" + (have ? " explain_xsl=\"" + w.dir + "/e.xsl\"" : "") + "/>"; x.desc << tell(w, c) << " " << mode << " " << all << ": "; std::unique_ptr<zk::Net> net = start(c); zk::Client cl(*net); User u; u.c = &cl; open(u); bool set = false; int shown = 0; std::string db;
    for (int k = 1 + x.len(6), i = 0; i < k; i++) {
        zk::Mem o; if (i == 0 || x.chance(1, 4)) {
            bool cql = x.chance(5, 6); std::string q = x.pick({"udb=*", "a b", "x==\"\xc3\xa6\""}); db = x.chance(1, 3) ? "IR-Explain---1,realm=R" : "IR-Explain---1"; Op s; s.db = db; s.type = cql ? 104 : 1; s.broken = cql ? q : ""; s.tree = TreeP(new Tree); s.tree->term = "a"; x.desc << "search " << db << " " << (cql ? q : "RPN") << "; "; w.asked_now(); Z_GDU *g = cl.send(apdu(o, s)); std::vector<std::string> asked = w.asked_now(); Z_SearchResponse *r = zk::search_of(g); x.check(r, "no search response"); std::string d = zk::recs(r->records).diag;
            if (!have) { x.eq(code_of(d), num(YAZ_BIB1_UNSPECIFIED_ERROR), "explain not configured"); set = false; } else if (!cql) { x.eq(code_of(d), num(YAZ_BIB1_QUERY_TYPE_UNSUPP), "explain without CQL"); set = false; } else { x.eq(asked.size(), 1u, "questions to the service"); x.eq(asked[0], "/~t?q=" + uri(q) + "&d=&r=" + (db.size() > 14 ? "R" : ""), "question to the service"); set = mode == "ok"; if (set) { x.eq(d, std::string(), "explain search"); x.eq((int) *r->resultCount, n, "explain records"); } else x.check(code_of(d) == num(YAZ_BIB1_UNSPECIFIED_ERROR), "explain search failed with " + d); }
            continue;
        }
        zk::Present p; p.start = x.range(1, 7); p.num = x.range(1, 7); if (x.chance(1, 6)) { p.start = x.pick<int>({0, -2, 1}); p.num = x.pick<int>({-1, 0, 100000, -100000}); } p.syn = "xml"; x.desc << "present " << p.start << "+" << p.num << "; "; Z_GDU *g = cl.send(zk::present(o, p)); Z_PresentResponse *r = zk::present_of(g); x.check(r, "no present response"); zk::Recs got = zk::recs(r->records);
        if (!set) { x.eq(got.diag, num(YAZ_BIB1_SPECIFIED_RESULT_SET_DOES_NOT_EXIST), "present without result set"); continue; }
        x.eq(got.diag, std::string(), "explain present"); int want = p.start < 1 || p.num < 1 ? 0 : std::max(0, std::min(n, p.num > n ? n : p.start + p.num - 1) - p.start + 1); x.eq((int) got.body.size(), want, "explain records presented"); x.eq((int) *r->numberOfRecordsReturned, want, "numberOfRecordsReturned"); for (int j = 0; j < want; j++) { x.eq(got.body[j], recs[p.start - 1 + j], "explain record"); x.eq(got.db[j], db, "database of the record"); shown++; }
    }
    cl.hangup(); ended(w); x.nontrivial = shown > 0; x.label(have ? mode : "not configured");
}
// sessions for content behind a target: each one's file has what belongs to it
static void sessions(Ctx &x)
{
    World w; w.file("dummy", ""); unlink((w.dir + "/dummy").c_str()); std::string how = x.pick({"config", "config", "config", "legacy", "none", "nohost", "nodir", "missing", "format", "unwritable"}), host = x.pick({"cp.host", "cp.host:8080"}), dir = how == "unwritable" ? w.dir + "/no" : w.dir, attr, conf; bool slash = x.coin(), first = x.coin();
    std::string h = "proxyhostname" + std::string(x.range(0, 2), ' ') + ":" + std::string(x.range(0, 2), ' ') + host + (x.chance(1, 4) ? "# c" : ""), d = "sessiondir: " + dir + (slash ? "/" : ""); if (how == "nohost") h = "#" + h; if (how == "nodir") d = x.pick({std::string("sessiondir:"), "x" + d}); conf = "# cf\n\n" + (first ? h + "\n" + d : d + "\n" + h) + (x.coin() ? "\n" : "") + (x.chance(1, 3) ? "\nother: x\n" : "");
    bool legacy = how == "legacy" || how == "format"; if (how != "none" && !legacy && how != "missing") w.file("cf.cfg", conf); std::string cfg = w.dir + "/cf.cfg", tmp = dir + (how == "format" ? "/cf.XXXXX.p" : "/cf.XXXXXX.p"); if (legacy) attr = "server=\"" + host + "\" tmp_file=\"" + tmp + "\""; else if (how != "none") attr = "config_file=\"" + cfg + "\"";
    struct Db { std::string connector, cauth, auth, no; }; std::vector<Db> ds; std::string recs; for (int i = 0, n = x.range(1, 2); i < n; i++) { Db k; if (!x.chance(1, 6)) k.connector = "c" + num(i) + ".cf"; if (x.coin()) k.cauth = "cu" + num(i) + "/cp"; if (x.coin()) k.auth = "u" + num(i) + " p"; if (x.chance(1, 6)) k.no = x.pick({"1", "0"}); ds.push_back(k); auto el = [&](const char *e, const std::string &v) { if (v.size()) recs += std::string("<") + e + ">" + zk::esc(v) + "</" + e + ">"; }; recs += "<record>"; el("udb", "d" + num(i)); el("zurl", w.at[0] + "/Z"); el("contentConnector", k.connector); el("contentAuthentication", k.cauth); el("authentication", k.auth); el("noCproxy", k.no); el("requestSyntax", "xml"); el("literalTransform", std::string(XSL_HEAD) + "<xsl:param name=\"cproxyhost\">none</xsl:param><xsl:template match=\"/\"><h><xsl:value-of select=\"$cproxyhost\"/></h></xsl:template></xsl:stylesheet>"); recs += "</record>"; }
    std::string realm = x.coin() ? "R0" : ""; Conf c; c.xml = "<torus" + (realm.empty() ? "" : " realm=\"" + realm + "\"") + "><records>" + recs + "</records></torus>" + (attr.empty() ? "" : "<contentProxy " + attr + "/>"); x.desc << tell(w, c) << " " << how << ": "; std::unique_ptr<zk::Net> net = start(c);
    auto files = [&] { std::map<std::string, std::string> r; if (DIR *dd = opendir(w.dir.c_str())) { while (struct dirent *e = readdir(dd)) if (std::string n = e->d_name; n.compare(0, 3, "cf.") == 0 && n != "cf.cfg") { std::string t; if (FILE *f = fopen((w.dir + "/" + n).c_str(), "r")) { char b[4096]; t.assign(b, fread(b, 1, sizeof b, f)); fclose(f); } r[n] = t; } closedir(dd); } return r; };
    // files of other sessions, with the names that come next
    unsigned seed = x.range(1, 1000); srand(seed); if (x.coin()) { for (int k = x.range(1, 3); k > 0; k--) { char b[40]; snprintf(b, sizeof b, "cf.%06d.p", (unsigned) rand() % 1000000); w.file(b, "other"); } srand(seed); }
    std::map<std::string, std::string> was = files(); int ns = x.range(1, 3), made = 0, key = 0; std::vector<std::unique_ptr<zk::Client> > cs; std::vector<std::pair<std::string, std::string> > has(ns); for (int i = 0; i < ns; i++) { cs.emplace_back(new zk::Client(*net, "10.0.0." + num(i + 1))); User u; u.c = cs[i].get(); open(u); }
    for (int k = x.range(1, 6); k > 0; k--) {
        int i = x.range(0, ns - 1), di = x.range(0, (int) ds.size() - 1); const Db &t = ds[di]; std::map<std::string, std::string> arg; std::string db = "d" + num(di); if (has[i].first.size() && x.chance(1, 4)) db = has[i].first;
        else for (auto &a : {std::make_pair("user", "U"), std::make_pair("password", "P"), std::make_pair("content-user", "CU"), std::make_pair("content-password", "CP"), std::make_pair("content-proxy", "x:1"), std::make_pair("nocproxy", "1"), std::make_pair("realm", "R1")}) if (x.chance(1, strcmp(a.first, "nocproxy") ? 4 : 8)) { arg[a.first] = a.second; db += (db.find(',') == std::string::npos ? "," : "&") + std::string(a.first) + "=" + uri(a.second); }
        bool again = db == has[i].first; key++; { std::lock_guard<std::mutex> l(w.m); w.plans[key] = Plan(); } Op o; o.db = db; o.tree = TreeP(new Tree); o.tree->term = "t" + num(key) + "e"; o.syn = "xml"; zk::Mem mem; x.desc << i << " " << db << "; "; Z_GDU *g = cs[i]->send(apdu(mem, o)); Z_SearchResponse *r = zk::search_of(g); x.check(r, "no search response"); std::string diag = zk::recs(r->records).diag; std::map<std::string, std::string> now = files();
        bool on = t.connector.size() && !arg.count("nocproxy") && t.no != "1", fresh = on && !again, bad = fresh && (how == "missing" || how == "format" || how == "unwritable");
        for (auto &f : was) { x.check(now.count(f.first), "session file went away"); x.eq(now[f.first], f.second, "file of another session"); }
        if (bad) { x.eq(code_of(diag), num(YAZ_BIB1_TEMPORARY_SYSTEM_ERROR), "content session failed"); x.check(diag.find(how == "missing" ? "unable to open content config " + cfg : how == "format" ? "bad format of content tmp_file: " + tmp : "could not create ") != std::string::npos, diag); x.eq(now.size(), was.size(), "session files"); has[i].first = ""; x.label("failed"); continue; }
        x.eq(diag, std::string(), "search"); bool makes = fresh && (how == "config" || how == "legacy"); x.eq(now.size(), was.size() + makes, "session files"); std::string shown = again ? has[i].second : "none";
        if (makes) { std::string name; for (auto &f : now) if (!was.count(f.first)) name = f.first; std::string no = name.substr(3, 6); std::string auth = arg.count("content-user") ? arg["content-user"] + (arg.count("content-password") ? "/" + arg["content-password"] : "") : t.cauth; if (auth.empty()) auth = arg.count("user") ? arg["user"] + (arg.count("password") ? "/" + arg["password"] : "") : t.auth; std::string rl = arg.count("realm") ? arg["realm"] : realm; x.eq(now[name], "#content_proxy\nconnector: " + t.connector + "\n" + (auth.empty() ? "" : "auth: " + auth + "\n") + (arg.count("content-proxy") ? "proxy: x:1\n" : "") + (rl.empty() ? "" : "realm: " + rl + "\n"), "session file"); shown = (legacy ? no + "." + host : host + "/" + no) + "/"; made++; x.label(legacy ? "legacy" : "made"); }
        has[i] = {db, shown}; was = now; zk::Present p; p.syn = "xml"; p.esn = "pz2"; Z_PresentResponse *pr = zk::present_of(cs[i]->send(zk::present(mem, p))); x.check(pr, "no present response"); zk::Recs got = zk::recs(pr->records); x.check(got.body.size() == 1, "no record"); std::string b = got.body[0]; while (b.size() && b.back() == '\n') b.pop_back(); x.eq(b, "<h>" + shown + "</h>", "host for content in the record");
    }
    for (auto &k : cs) k->hangup(); ended(w); x.nontrivial = made > 0;
}
static void configs(Ctx &x)
{
    bool good = true; std::string xml; int n = x.range(1, 4); World w; std::map<std::string, bool> sheet;
    for (int i = 0; i < n; i++) {
        int k = x.range(0, 12);
        if (k == 0) xml += "<torus " + x.pick({"url", "content_url", "auth_url", "allow_ip", "realm", "auth_hostname", "xsldir", "element_transform", "element_raw", "element_marcxml", "element_passthru", "proxy"}) + "=\"x\"/>";
        else if (k == 1) { xml += "<torus " + x.pick({"uri", "URL", "element", "timeout", "xsl"}) + "=\"x\"/>"; good = false; }
        else if (k == 2) xml += "<torus><records>" + x.pick({"", "<record><udb>a</udb></record>", "<record><udb>a</udb></record><record><udb>b</udb><zurl>z</zurl></record>", "<record><layer><udb>a</udb></layer></record>", "<!-- c --><record>\n<layer>\n<udb>a</udb></layer></record>"}) + "</records></torus>";
        else if (k == 3) { xml += "<torus>" + x.pick({"<records><record/></records>", "<records><record><zurl>z</zurl></record></records>", "<records><rec><udb>a</udb></rec></records>", "<record><udb>a</udb></record>", "<records><record><layer/></record></records>", "<records><record><layer><zurl/></layer></record></records>"}) + "</torus>"; good = false; }
        else if (k == 4) xml += "<fieldmap " + x.pick({"cql=\"a\"", "cql=\"a\" ccl=\"b\"", "ccl=\"b\"", ""}) + "/>";
        else if (k == 5) { xml += "<fieldmap " + x.pick({"pqf=\"a\"", "cql=\"a\" x=\"b\""}) + "/>"; good = false; }
        else if (k == 6) xml += "<contentProxy " + x.pick({"server=\"a\"", "tmp_file=\"b\"", "config_file=\"c\"", ""}) + "/>";
        else if (k == 7) { xml += x.pick({"<contentProxy host=\"a\"/>", "<log apdus=\"true\"/>", "<zoom time=\"1\"/>", "<Torus/>", "<records/>", "<field/>"}); good = false; }
        else if (k == 8) xml += "<log apdu=\"" + x.pick({"true", "false"}) + "\"/>";
        else if (k == 9) xml += "<zoom timeout=\"" + num(x.range(1, 60)) + "\" proxy_timeout=\"2\"/>";
        else if (k == 10) xml += "<!-- c -->\n";
        else if (k == 11) { w.file("r.xsl", COPY); std::string a = x.pick({"record_xsl", "explain_xsl"}); sheet[a] = true; xml += "<torus " + a + "=\"" + w.dir + "/r.xsl\"/>"; }
        else { w.file("e.xsl", x.pick({std::string("<"), std::string("no"), std::string(XSL_HEAD) + "<xsl:nosuch/></xsl:stylesheet>x"})); std::string a = x.pick({"record_xsl", "explain_xsl"}); sheet[a] = false; xml += "<torus " + a + "=\"" + w.dir + "/" + x.pick({"e.xsl", "missing.xsl"}) + "\"/>"; }
    }
    for (auto &s : sheet) good = good && s.second;      // the last one given counts
    std::string sh = xml; for (size_t f; (f = sh.find(w.dir)) != std::string::npos;) sh.replace(f, w.dir.size(), "dir"); x.desc << sh; bool ok = true; std::string why; try { Conf c; c.xml = xml; start(c); } catch (std::exception &e) { ok = false; why = e.what(); } x.check(ok == good, ok ? "accepted" : "refused: " + why); x.nontrivial = !good || n > 1; x.label(good ? "good" : "bad");
}
static void quiet_xml(void *, const char *, ...) {}
int main(int argc, char **argv)
{
    signal(SIGPIPE, SIG_IGN); zk::quiet(); xmlSetGenericErrorFunc(0, quiet_xml); xsltSetGenericErrorFunc(0, quiet_xml);
    Check c; c.id = "C29"; c.case_wall_s = 60;
    c.add("requests", 10000, 120000, "a search that found something and records presented", requests);
    c.add("threads", 1000, 12000, "two or more clients and successful searches", threads);
    c.add("access", 2500, 30000, "access granted or denied", grants);
    c.add("explain", 800, 8000, "an Explain record presented", explain);
    c.add("content", 1500, 15000, "a session for content made", sessions);
    c.add("configs", 1000, 15000, "a refused one, or more than one element", configs);
    return run(c, argc, argv);
}
