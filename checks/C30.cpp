// SOURCES: kit filter_cgi
// SHIM: core
// VARIANTS: asan tsan
// CGI: a program gets the request as it came, its output is the answer, and requests have nothing to do with each other.
#include "../models/zkit.hpp"
#include <fcntl.h>
#include <dirent.h>
#include <fstream>
#include <sys/stat.h>
#include <sys/wait.h>
#include <thread>
#include <atomic>
#include <mutex>
ZK_FILTER(cgi)
using namespace pbt;
static std::string num(long n) { return std::to_string(n); }
static std::string slurp(const std::string &f, bool *ok = 0) { std::ifstream i(f, std::ios::binary); if (ok) *ok = (bool) i; std::stringstream s; s << i.rdbuf(); return s.str(); }
static void put(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; }
static bool there(const std::string &f) { struct stat s; return !stat(f.c_str(), &s); }
static int fds() { int n = 0; if (DIR *d = opendir("/proc/self/fd")) { while (readdir(d)) n++; closedir(d); } return n; }
static void wipe(const std::string &d) { if (DIR *h = opendir(d.c_str())) { while (struct dirent *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat s; if (!lstat((d + "/" + n).c_str(), &s) && S_ISDIR(s.st_mode)) wipe(d + "/" + n); else unlink((d + "/" + n).c_str()); } closedir(h); } rmdir(d.c_str()); }
struct Map { std::string path, exec, cwd; int id = 0; bool missing = false; };
struct Conf { std::vector<Map> maps; std::vector<std::pair<std::string, std::string> > env; std::string root, base; bool has_root = true; };
typedef std::vector<std::pair<std::string, std::string> > Hdrs;
struct Req { int key = 0; std::string method, path, body, how; Hdrs hdrs; std::string out, want_body; Hdrs want; bool valid = true; };
struct Dir { std::string d; Dir() { static std::atomic<int> n{0}; d = "/tmp/c30." + num(getpid()) + "." + num(++n); mkdir(d.c_str(), 0700); for (auto s : {"/r", "/r/bin", "/r/other", "/s"}) mkdir((d + s).c_str(), 0700); } ~Dir() { wipe(d); } };
static void script(const std::string &dir, const std::string &file, int id) { put(file, "#!/bin/sh\nK=${HTTP_USER_AGENT##*k}\nD=" + dir + "/s\npwd > $D/cwd.$K\necho " + num(id) + " >> $D/prog.$K\nenv -0 > $D/env.$K\n. $D/plan.$K\n"); chmod(file.c_str(), 0700); }
static Conf conf(Ctx &x, const Dir &d)
{
    Conf c; int n = x.range(1, 3), how = x.range(0, 3); c.root = how == 0 ? d.d + "/r" : how == 1 ? "r" : how == 2 ? "./r" : d.d + "/r/"; c.base = d.d;
    for (int i = 0; i < n; i++) { Map m; m.id = i; m.path = x.pick({"/mycgi", "/my", "/a/b", "/a", "/"}); std::string f = "p" + num(i) + ".sh"; int w = x.range(0, 4); std::string at = d.d + "/r"; if (w == 0) { m.exec = f; m.cwd = at; } else if (w == 1) { m.exec = "bin/" + f; m.cwd = at + "/bin"; } else if (w == 2) { m.exec = "./" + f; m.cwd = at; } else if (w == 3) { m.exec = d.d + "/r/other/" + f; m.cwd = at + "/other"; } else { m.exec = "bin/../other/" + f; m.cwd = at + "/other"; } if (x.chance(1, 12)) m.missing = true; else script(d.d, m.cwd + "/" + f, i); c.maps.push_back(m); }
    for (int i = x.range(0, 2); i > 0; i--) c.env.push_back({x.pick({"FOO", "HTTP_HOST", "QUERY_STRING", "A_B"}), x.pick({"1", "", "a b=c&d", "\xc3\xa6"})}); return c;
}
static std::unique_ptr<zk::Net> start(const Conf &c)
{
    std::unique_ptr<zk::Net> n(new zk::Net({&metaproxy_1_filter_cgi}, zk::route("start", zk::hook("rest")))); std::string f = "<filter type=\"cgi\"><documentroot>" + c.root + "</documentroot>"; for (auto &e : c.env) f += "<env name=\"" + e.first + "\" value=\"" + zk::esc(e.second) + "\"/>"; for (auto &m : c.maps) f += "<map path=\"" + m.path + "\" exec=\"" + m.exec + "\"/>";
    n->xml = "<metaproxy xmlns=\"http://indexdata.com/metaproxy\" version=\"1.0\"><start route=\"start\"/><routes>" + zk::route("start", f + "</filter>" + zk::hook("rest")) + "</routes></metaproxy>"; xmlDoc *doc = xmlParseMemory(n->xml.data(), (int) n->xml.size()); n->r.reset(new zk::mp::RouterFleXML(doc, n->f, false, c.base.c_str())); xmlFreeDoc(doc); n->r->start(); return n;
}
static const Map *match(const Conf &c, const std::string &path) { for (auto &m : c.maps) if (!path.compare(0, m.path.size(), m.path)) return &m; return 0; }
static std::string bytes(Ctx &x, int n) { std::string r; unsigned s = x.range(0, 1000); for (int i = 0; i < n; i++) { s = s * 1103515245u + 12345; r += (char) (s >> 16); } return r; }
static Req request(Ctx &x, const Dir &d, int key)
{
    Req r; r.key = key; r.method = x.pick({"GET", "POST", "PUT", "HEAD"}); if (r.method == "HEAD") r.method = "DELETE"; r.path = x.pick({"/mycgi", "/my", "/a", "/a/b", "/b", "/mycgix", "/A"}) + x.pick({"", "/", "/i/n%20f", "?q=1&r=%26", "/p?q?r", "?", "/x?a=b/c"}); r.hdrs.push_back({"User-Agent", "agent k" + num(key)}); for (auto &h : {std::make_pair("Cookie", "a=b; c=\"d\""), std::make_pair("Accept", "text/html, */*"), std::make_pair("Accept-Encoding", "gzip"), std::make_pair("Content-Type", "text/plain; x=y"), std::make_pair("Proxy", "evil:1"), std::make_pair("Host", "h:1")}) if (x.chance(1, 3)) r.hdrs.push_back(h);
    if (x.coin()) r.body = bytes(x, x.pick<int>({1, 30, 3000, 70000, 200000}));
    r.how = x.pick({"eof", "eof", "length", "ignore", "ignore", "first", "echo", "dies", "fails", "pieces"}); std::string nl = x.coin() ? "\n" : "\r\n", body = bytes(x, x.pick<int>({0, 1, 100, 511, 512, 1000, 5000, 90000}));
    int hn = x.range(1, 3); r.want.push_back({"Content-Type", x.pick({"text/plain", "text/html; charset=utf-8"})}); if (hn > 1) r.want.push_back({"Set-Cookie", "k" + num(key) + "=v; path=/"}); if (hn > 2) r.want.push_back({"X-Y", ""}); if (hn > 2) r.want.back().second = "z: w"; for (auto &h : r.want) r.out += h.first + ": " + h.second + nl; r.out += nl; if (r.how != "echo") r.out += body; r.want_body = r.how == "echo" ? r.body : body;
    if (r.how != "echo" && x.chance(1, 10)) { r.valid = false; r.out = x.pick({"", "text", "\n"}); if (r.out == "\n") { r.out = ""; } }
    std::string p, B = "$D/body." + num(key), O = "$D/out." + num(key); if (r.how == "eof") p = "cat > " + B + "; cat " + O; else if (r.how == "length") p = "head -c ${CONTENT_LENGTH:-0} > " + B + "; cat " + O; else if (r.how == "ignore") p = "cat " + O; else if (r.how == "first") p = "cat " + O + "; cat > " + B; else if (r.how == "echo") p = "cat " + O + "; exec cat"; else if (r.how == "dies") p = "cat " + O + "; kill -9 $$"; else if (r.how == "fails") p = "cat > " + B + "; cat " + O + "; exit 3"; else p = "head -c 20 " + O + "; sleep 0.01; tail -c +21 " + O + "; cat > " + B;
    put(d.d + "/s/plan." + num(key), p + "\n"); put(d.d + "/s/out." + num(key), r.out); return r;
}
static std::string show(const Req &r) { std::string s = r.method + " " + r.path + " " + r.how + " content " + num(r.body.size()) + " out " + num(r.out.size()) + (r.valid ? "" : " invalid"); for (auto &h : r.hdrs) s += " " + h.first; return s + "; "; }
static void need(bool ok, const std::string &m) { if (!ok) throw Fail(m); }
template<class A, class B> static void same(const A &a, const B &b, const std::string &w) { if (!(a == b)) { std::ostringstream s; std::ostringstream ga, gb; ga << a; gb << b; s << w << ": got <" << q(ga.str().substr(0, 300)) << "> expected <" << q(gb.str().substr(0, 300)) << ">"; throw Fail(s.str()); } }
// one request; returns whether a program answered it properly
static bool play(const Dir &d, const Conf &c, zk::Client &cl, const Req &r)
{
    zk::Mem o; Z_GDU *g = z_get_HTTP_Request(o); Z_HTTP_Request *h = g->u.HTTP_Request; h->method = odr_strdup(o, r.method.c_str()); h->path = odr_strdup(o, r.path.c_str()); h->version = odr_strdup(o, "1.1"); h->headers = 0; for (auto &x : r.hdrs) z_HTTP_header_add(o, &h->headers, x.first.c_str(), x.second.c_str()); h->content_buf = odr_strdupn(o, r.body.data(), r.body.size()); h->content_len = (int) r.body.size();
    const Map *m = match(c, r.path); Z_GDU *a = cl.send(g); std::string k = num(r.key), s = d.d + "/s/"; need(a && a->which == Z_GDU_HTTP_Response, "no HTTP answer"); Z_HTTP_Response *v = a->u.HTTP_Response; need(!cl.closed, "session closed");
    if (!m) { same(v->code, 299, "answer of the next filter"); need(!there(s + "prog." + k), "a program was run"); return false; }
    if (m->missing) { same(v->code, 400, "code when there is no such program"); return false; }
    same(slurp(s + "prog." + k), num(m->id) + "\n", "program run"); same(slurp(s + "cwd." + k), m->cwd + "\n", "directory of the program");
    std::map<std::string, std::string> env, want; { std::string e = slurp(s + "env." + k); size_t p = 0; while (p < e.size()) { size_t n = e.find('\0', p), q = e.find('=', p); env[e.substr(p, q - p)] = e.substr(q + 1, n - q - 1); p = n + 1; } }
    size_t q = r.path.find('?', m->path.size()); want["REQUEST_METHOD"] = r.method; want["REQUEST_URI"] = r.path; want["SCRIPT_NAME"] = m->path; want["PATH_INFO"] = r.path.substr(m->path.size(), q == std::string::npos ? q : q - m->path.size()); want["QUERY_STRING"] = q == std::string::npos ? "" : r.path.substr(q + 1); want["GATEWAY_INTERFACE"] = "CGI/1.1"; bool type = false; for (auto &x : r.hdrs) { if (x.first == "Cookie") want["HTTP_COOKIE"] = x.second; if (x.first == "User-Agent") want["HTTP_USER_AGENT"] = x.second; if (x.first == "Accept") want["HTTP_ACCEPT"] = x.second; if (x.first == "Accept-Encoding") want["HTTP_ACCEPT_ENCODING"] = x.second; if (x.first == "Content-Type") { type = true; want["CONTENT_TYPE"] = x.second; } } if (type || r.body.size()) want["CONTENT_LENGTH"] = num(r.body.size());
    for (auto &x : c.env) want[x.first] = x.second; for (auto &x : want) { need(env.count(x.first), "no " + x.first + " in the environment"); same(env[x.first], x.second, x.first); } for (auto n : {"HTTP_COOKIE", "HTTP_ACCEPT", "HTTP_ACCEPT_ENCODING", "CONTENT_TYPE", "CONTENT_LENGTH", "HTTP_PROXY", "FOO"}) need(want.count(n) || !env.count(n), std::string(n) + " in the environment"); { char *a1 = realpath(env["DOCUMENT_ROOT"].compare(0, 1, "/") ? (c.base + "/" + env["DOCUMENT_ROOT"]).c_str() : env["DOCUMENT_ROOT"].c_str(), 0); std::string got = a1 ? a1 : ""; free(a1); same(got, d.d + "/r", "DOCUMENT_ROOT"); }
    if (r.how == "eof" || r.how == "first" || r.how == "fails" || r.how == "pieces" || (r.how == "length" && (type || r.body.size()))) same(slurp(s + "body." + k), r.body, "content at the program");
    if (!r.valid) { same(v->code, 400, "code for output that is no answer"); return false; }
    same(v->code, 200, "code"); std::string got, exp; for (Z_HTTP_Header *x = v->headers; x; x = x->next) if (strcasecmp(x->name, "Content-Length")) got += std::string(x->name) + ": " + x->value + "\n"; for (auto &x : r.want) exp += x.first + ": " + x.second + "\n"; same(got, exp, "headers of the answer"); same(std::string(v->content_buf ? v->content_buf : "", v->content_len), r.want_body, "content of the answer"); return true;
}
static void next() { zk::hooks().fn = [](const zk::Hook *, zk::mp::Package &p) { Z_GDU *g = p.request().get(); if (!g || g->which != Z_GDU_HTTP_Request) return; zk::mp::odr o; Z_GDU *a = o.create_HTTP_Response(p.session(), g->u.HTTP_Request, 299); p.response() = a; }; }
struct Hooks { Hooks() { next(); } ~Hooks() { zk::hooks().fn = nullptr; } };
static void over(int before) { int st; errno = 0; pid_t p = waitpid(-1, &st, WNOHANG); need(p == -1 && errno == ECHILD, "a program was not waited for"); same(fds(), before, "open files"); }
static std::string tell(const Dir &d, std::string s) { for (size_t f; (f = s.find(d.d)) != std::string::npos;) s.replace(f, d.d.size(), "DIR"); return s; }
static std::string body_of(const zk::Net &n) { size_t a = n.xml.find("<documentroot"); return n.xml.substr(a, n.xml.find("</filter>") - a); }
static void requests(Ctx &x)
{
    Hooks h; Dir d; Conf c = conf(x, d); int before = fds(), good = 0; { std::unique_ptr<zk::Net> net = start(c); x.desc << tell(d, body_of(*net)) << ": "; FILE *log = fopen((d.d + "/log").c_str(), "w"); fputs("once\n", log); zk::Client cl(*net); int n = 1 + x.len(4); for (int i = 1; i <= n; i++) { Req r = request(x, d, i); x.desc << show(r); try { bool ok = play(d, c, cl, r); good += ok; x.label(ok ? r.how : match(c, r.path) ? "no answer" : "not mapped"); } catch (...) { fclose(log); throw; } } if (x.chance(1, 4)) { zk::Mem o; Z_GDU *g = cl.send(zk::init(o)); x.check(!g, "Z39.50 answered"); } fclose(log); x.eq(slurp(d.d + "/log"), std::string("once\n"), "what the proxy itself had written"); } over(before); x.nontrivial = good > 0;
}
static void threads(Ctx &x)
{
    Hooks h; Dir d; Conf c = conf(x, d); int before = fds(), nt = x.range(2, 5), key = 0, mapped = 0; { std::unique_ptr<zk::Net> net = start(c); x.desc << tell(d, body_of(*net)) << ": "; std::vector<std::vector<Req> > rs(nt); std::vector<std::string> bad(nt); std::atomic<int> ready{0}, good{0}; for (int i = 0; i < nt; i++) for (int k = x.range(1, 3); k > 0; k--) { rs[i].push_back(request(x, d, ++key)); x.desc << i << " " << show(rs[i].back()); mapped += match(c, rs[i].back().path) != 0; }
        std::vector<std::thread> ts; for (int i = 0; i < nt; i++) ts.emplace_back([&, i] { ready++; while (ready < nt) sched_yield(); try { zk::Client cl(*net); for (auto &r : rs[i]) good += play(d, c, cl, r); } catch (Fail &f) { bad[i] = f.what(); } }); for (auto &t : ts) t.join(); for (auto &b : bad) x.check(b.empty(), b); x.nontrivial = good > 1; } over(before);
}
// a program that takes long does not hold up another request, whichever began first
static void apart(Ctx &x)
{
    Hooks h; Dir d; Conf c; c.root = d.d + "/r"; c.base = d.d; Map m; m.path = "/p"; m.exec = "p.sh"; m.cwd = c.root; script(d.d, c.root + "/p.sh", 0); c.maps.push_back(m); int before = fds(), size = x.pick<int>({0, 10, 200000}), osize = x.pick<int>({10, 100000}); bool later = x.coin(); x.desc << "content " << size << " answer " << osize << (later ? " the other one first" : " the other one later"); std::unique_ptr<zk::Net> net = start(c); std::string s = d.d + "/s/", body = bytes(x, size), out = "Content-Type: a/b\n\n" + bytes(x, osize);
    // 1 is to be answered while 2 runs
    put(s + "plan.1", "touch $D/started.1; while [ ! -e $D/go.1 ]; do sleep 0.01; done; cat > $D/body.1; cat $D/out.1\n"); put(s + "out.1", out); put(s + "plan.2", "touch $D/started.2; i=0; while [ ! -e $D/go.2 ] && [ $i -lt 1500 ]; do sleep 0.01; i=$((i+1)); done; cat $D/out.2\n"); put(s + "out.2", out);
    auto one = [&](int k, std::string &bad, std::atomic<bool> &done) { try { zk::Client cl(*net); Req r; r.key = k; r.method = "POST"; r.path = "/p"; r.how = k == 1 ? "eof" : "ignore"; r.hdrs = {{"User-Agent", "k" + num(k)}}; r.body = body; r.want = {{"Content-Type", "a/b"}}; r.want_body = out.substr(19); play(d, c, cl, r); } catch (Fail &f) { bad = f.what(); } done = true; };
    auto wait = [&](const std::function<bool()> &f, int ms) { for (int i = 0; i < ms; i++) { if (f()) return true; usleep(1000); } return false; };
    std::string bad[2]; std::atomic<bool> done[2]; done[0] = done[1] = false; std::thread t[2]; int a = later ? 1 : 0, b = 1 - a; bool up = true; for (int i : {a, b}) { t[i] = std::thread([&, i] { one(i + 1, bad[i], done[i]); }); up = wait([&] { return there(s + "started." + num(i + 1)); }, 10000) && up; } put(s + "go.1", ""); bool held = !wait([&] { return (bool) done[0]; }, 8000), early = done[1]; put(s + "go.2", ""); t[0].join(); t[1].join(); x.check(up, "programs did not start"); x.check(bad[0].empty(), bad[0]); x.check(bad[1].empty(), bad[1]); x.check(!held || early, "a request waited for the program of another one"); net.reset(); over(before); x.nontrivial = true;
}
static void configs(Ctx &x)
{
    bool good = true; std::string xml; int n = x.range(1, 4); for (int i = 0; i < n; i++) { int k = x.range(0, 5); if (k == 0) xml += "<map path=\"/a\" exec=\"b\"/>"; else if (k == 1) { xml += "<map path=\"/a\" " + x.pick({"program", "Exec", "env"}) + "=\"b\"/>"; good = false; } else if (k == 2) xml += "<env name=\"a\" value=\"b\"/>"; else if (k == 3) { xml += "<env name=\"a\" " + x.pick({"val", "Value"}) + "=\"b\"/>"; good = false; } else if (k == 4) xml += x.pick({"<documentroot>.</documentroot>", "<!-- c -->\n"}); else { xml += x.pick({"<Map/>", "<root/>", "<exec/>"}); good = false; } }
    x.desc << xml; bool ok = true; try { zk::Net net({&metaproxy_1_filter_cgi}, zk::route("start", "<filter type=\"cgi\">" + xml + "</filter>")); } catch (std::exception &) { ok = false; } x.check(ok == good, ok ? "accepted" : "refused"); x.nontrivial = !good || n > 1; x.label(good ? "good" : "bad");
}
int main(int argc, char **argv)
{
    signal(SIGPIPE, SIG_IGN); zk::quiet(); for (auto n : {"HTTP_COOKIE", "HTTP_ACCEPT", "HTTP_ACCEPT_ENCODING", "CONTENT_TYPE", "CONTENT_LENGTH", "HTTP_PROXY", "FOO", "HTTP_HOST", "A_B"}) unsetenv(n);
    Check c; c.id = "C30"; c.case_wall_s = 90;
    c.add("requests", 900, 15000, "a program that answered", requests);
    c.add("threads", 200, 2500, "two answered requests", threads);
    c.add("apart", 60, 600, "each", apart);
    c.add("configs", 400, 4000, "a refused one, or more than one element", configs);
    return run(c, argc, argv);
}
