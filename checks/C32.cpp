// SOURCES: kit router_xml factory_static filter_frontend_net filter_bounce
// SHIM: core net
// VARIANTS: asan
// FLAGS: -DHAVE_PROG=1
// The program: options, what it starts as, and how it ends.
#include "../models/zkit.hpp"
#include <fstream>
#include <dirent.h>
#include <fcntl.h>
#include <sys/prctl.h>
#include <sys/socket.h>
#include <sys/stat.h>
#include <sys/un.h>
#include <sys/wait.h>
#include <atomic>
#define main metaproxy_main
#include "metaproxy_prog.cpp"
#undef main
using namespace pbt;
static std::string num(long n) { return std::to_string(n); }
static std::string slurp(const std::string &f) { std::ifstream i(f, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
static void put(const std::string &f, const std::string &s) { std::ofstream o(f, std::ios::binary); o << s; }
static bool there(const std::string &f) { struct stat s; return !lstat(f.c_str(), &s); }
static void wipe(const std::string &d) { if (DIR *h = opendir(d.c_str())) { while (struct dirent *e = readdir(h)) { std::string n = e->d_name; if (n == "." || n == "..") continue; struct stat s; if (!lstat((d + "/" + n).c_str(), &s) && S_ISDIR(s.st_mode)) wipe(d + "/" + n); else unlink((d + "/" + n).c_str()); } closedir(h); } rmdir(d.c_str()); }
static void need(bool ok, const std::string &m) { if (!ok) throw Fail(m); }
static void same(const std::string &a, const std::string &b, const std::string &w) { if (a != b) throw Fail(w + ": got <" + q(a.substr(0, 300)) + "> expected <" + q(b.substr(0, 300)) + ">"); }
static bool wait_for(const std::function<bool()> &f, int ms) { for (int i = 0; i < ms / 5; i++) { if (f()) return true; usleep(5000); } return f(); }
// all processes that descend from this one (those that lost their parent come to it)
static std::vector<int> offspring() { std::map<int, std::vector<int> > kids; if (DIR *h = opendir("/proc")) { while (struct dirent *e = readdir(h)) if (isdigit(e->d_name[0])) { std::string s = slurp(std::string("/proc/") + e->d_name + "/stat"); size_t p = s.rfind(')'); if (p != std::string::npos && p + 4 < s.size() && s[p + 2] != 'Z') kids[atoi(s.c_str() + p + 4)].push_back(atoi(e->d_name)); } closedir(h); } std::vector<int> all{(int) getpid()}; for (size_t i = 0; i < all.size(); i++) for (int k : kids[all[i]]) all.push_back(k); all.erase(all.begin()); return all; }
static std::string field(int pid, const std::string &file, const std::string &name) { std::ifstream i("/proc/" + num(pid) + "/" + file); std::string l; while (std::getline(i, l)) if (!l.compare(0, name.size(), name)) { std::istringstream s(l.substr(name.size())); std::string a, b; s >> a >> b; return a + " " + b; } return "?"; }
static std::string cwd_of(int pid) { char b[4096]; ssize_t n = readlink(("/proc/" + num(pid) + "/cwd").c_str(), b, sizeof b); return n < 0 ? "?" : std::string(b, n); }
struct World {
    std::string d, sock; int pid = 0; bool reaped = false; int status = 0;
    World() { static std::atomic<int> n{0}; d = "/tmp/c32." + num(getpid()) + "." + num(++n); mkdir(d.c_str(), 0777); chmod(d.c_str(), 0777); for (auto s : {"/w", "/cf", "/cf/in"}) { mkdir((d + s).c_str(), 0777); chmod((d + s).c_str(), 0777); } sock = d + "/s"; prctl(PR_SET_CHILD_SUBREAPER, 1); }
    ~World() { for (int i = 0; i < 20; i++) { auto v = offspring(); if (v.empty()) break; for (int p : v) kill(p, SIGKILL); usleep(20000); while (waitpid(-1, 0, WNOHANG) > 0) ; } while (waitpid(-1, 0, WNOHANG) > 0) ; wipe(d); }
    void run(const std::vector<std::string> &args, const std::string &at) {
        std::vector<char *> a; a.push_back((char *) "metaproxy"); for (auto &s : args) a.push_back((char *) s.c_str()); a.push_back(0);
        std::vector<char *> env; for (char **e = environ; *e; e++) if (strncmp(*e, "C32_PROG=", 9) && strncmp(*e, "ASAN_OPTIONS=", 13)) env.push_back(*e); env.push_back((char *) "C32_PROG=1"); env.push_back((char *) "ASAN_OPTIONS=detect_leaks=0:handle_abort=0:exitcode=99"); env.push_back(0); std::string o = d + "/out", e = d + "/err";
        pid = fork(); if (!pid) { setpgid(0, 0); int f = open(o.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666), g = open(e.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0666), z = open("/dev/null", O_RDONLY); dup2(z, 0); dup2(f, 1); dup2(g, 2); for (int i = 3; i < 300; i++) close(i); signal(SIGTERM, SIG_DFL); signal(SIGUSR1, SIG_DFL); sigset_t s; sigemptyset(&s); sigprocmask(SIG_SETMASK, &s, 0); if (chdir(at.c_str())) _exit(97); execve("/proc/self/exe", a.data(), env.data()); _exit(98); } setpgid(pid, pid);
    }
    bool over(int ms) { return wait_for([&] { if (!reaped && waitpid(pid, &status, WNOHANG) == pid) reaped = true; return reaped; }, ms); }
    std::string ended() { return !reaped ? "running" : WIFEXITED(status) ? "exit " + num(WEXITSTATUS(status)) : "signal " + num(WTERMSIG(status)); }
    void reap() { over(0); if (!reaped) return; while (waitpid(-1, 0, WNOHANG) > 0) ; }
    // what the server says to a request; empty when it is not there
    int dial() { int s = socket(AF_UNIX, SOCK_STREAM, 0); struct timeval tv = {20, 0}; setsockopt(s, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strncpy(a.sun_path, sock.c_str(), sizeof a.sun_path - 1); if (connect(s, (struct sockaddr *) &a, sizeof a)) { close(s); return -1; } return s; }
    static std::string over_it(int s, const std::string &path) { std::string r, m = "GET " + path + " HTTP/1.0\r\n\r\n"; if (write(s, m.data(), m.size()) == (ssize_t) m.size()) { char b[999]; ssize_t n; while ((n = read(s, b, sizeof b)) > 0) r.append(b, n); } return r; }
    std::string ask(const std::string &path) { int s = dial(); if (s < 0) return ""; std::string r = over_it(s, path); close(s); return r; }
    bool up(int ms = 20000) { return wait_for([&] { return (over(0) && WEXITSTATUS(status)) || ask("/up").find("GET /up") != std::string::npos; }, ms) && ask("/again").find("GET /again") != std::string::npos; }
    std::string say() { return " [" + ended() + "] " + slurp(d + "/err").substr(0, 600) + slurp(d + "/out").substr(0, 200) + slurp(d + "/log").substr(0, 400); }
};
static std::string head = "<metaproxy xmlns=\"http://indexdata.com/metaproxy\" version=\"1.0\"", xi = " xmlns:xi=\"http://www.w3.org/2001/XInclude\"";
static std::string front(const World &w) { return "<filter type=\"frontend_net\"><threads>2</threads><port>unix:" + w.sock + "</port></filter><filter type=\"bounce\"><echo>true</echo></filter>"; }
static std::string whole(const std::string &filters, bool inc = false) { return head + (inc ? xi : "") + "><start route=\"start\"/><routes><route id=\"start\">" + filters + "</route></routes></metaproxy>"; }
static std::string tell(const World &w, std::string s) { for (size_t f; (f = s.find(w.d)) != std::string::npos;) s.replace(f, w.d.size(), "DIR"); return s; }
static std::string join(const std::vector<std::string> &v) { std::string r; for (auto &s : v) r += s + " "; return r; }
// the configuration file: where it is, and how it is named with the program started in DIR (or in DIR/w by -w)
static std::string place(Ctx &x, const World &w, const std::string &text, bool moved) { int k = x.range(0, moved ? 2 : 3); std::string at, name; if (k == 0) { at = w.d + "/cf/c.xml"; name = at; } else if (k == 1) { at = w.d + "/cf/c.xml"; name = moved ? "../cf/c.xml" : "cf/c.xml"; } else if (k == 2) { at = moved ? w.d + "/w/c.xml" : w.d + "/c.xml"; name = "c.xml"; } else { at = w.d + "/cf/c.xml"; name = "./cf/../cf/c.xml"; } put(at, text); return name; }
// may this process become another user, and end processes of that user
static bool can_uid() { static int r = -1; if (r < 0) { r = 0; int p[2]; if (getuid() == 0 && !pipe(p)) { int k = fork(); if (!k) { char c = setgid(65534) == 0 && setuid(65534) == 0 ? 'y' : 'n'; if (write(p[1], &c, 1)) {} for (;;) pause(); } char c = 0; if (read(p[0], &c, 1) == 1 && c == 'y' && !kill(k, SIGTERM)) r = 1; kill(k, SIGKILL); int st; waitpid(k, &st, 0); close(p[0]); close(p[1]); } } return r == 1; }
// ---- commands that end by themselves
static void commands(Ctx &x)
{
    World w; std::vector<std::string> a; int want = 0; std::string text, out; int k = x.range(0, 9); bool moved = x.chance(1, 4), named = true;
    if (k < 3) text = whole(front(w)); else if (k == 3) { std::string f = front(w); f.resize(f.find("</filter>") + 9); put(w.d + "/cf/in/f.xml", "<filter xmlns=\"http://indexdata.com/metaproxy\"" + f.substr(7)); put(w.d + "/in.xml", "<x/>"); text = "<!-- c -->" + whole("<xi:include href=\"in/f.xml\"/><filter type=\"bounce\"/>", true); }
    else if (k == 4) { want = 1; text = whole(x.pick({"<filter type=\"nosuch\"/>", "<filter type=\"bounce\"><x/></filter>", "<filter refid=\"x\"/>", "<filter type=\"frontend_net\"><port/></filter>x<y/>"})); }
    else if (k == 5) { want = 1; text = x.pick({"", "<a", "<metaproxy/>", "<metaproxy xmlns=\"http://indexdata.com/metaproxy\" version=\"2.0\"/>", "text", "<metaproxy xmlns=\"http://indexdata.com/metaproxy\" version=\"1.0\"></metaproxy>"}); if (text == "<metaproxy xmlns=\"http://indexdata.com/metaproxy\" version=\"1.0\"></metaproxy>") text = "<a/>"; }
    else if (k == 6) { want = 1; text = whole("<xi:include href=\"in/none.xml\"/><filter type=\"bounce\"/>", true); }
    else if (k == 7) { want = 1; named = false; }
    else if (k == 8) { want = 1; a.push_back(x.pick({"-x", "-Z", "--nosuch", "-"})); if (a[0] == "-") { a[0] = "-q"; } text = whole(front(w)); }
    else { out = "1.0"; a.push_back(x.pick({"-V", "--version"})); text = "<a"; }
    if (moved) { a.push_back("-w"); a.push_back(x.coin() ? "w" : w.d + "/w"); } if (k != 3 && k != 6 && k != 9 && k != 8 && named && x.chance(1, 10)) { want = 1; a.push_back("-w"); a.push_back("nodir"); moved = false; }
    if (x.coin()) { a.push_back("-l"); a.push_back(w.d + "/log"); } if (x.chance(1, 3)) { a.push_back("-p"); a.push_back(w.d + "/pid"); } if (x.chance(1, 4)) { a.push_back("-v"); a.push_back(x.pick({"all", "none", "log,fatal", ""})); } if (x.chance(1, 4)) { a.push_back("-D"); } if (x.chance(1, 4)) { a.push_back("-s"); a.push_back("200"); }
    if (named) { std::string f = k == 3 || k == 6 ? (put(w.d + "/cf/c.xml", text), w.d + "/cf/c.xml") : place(x, w, text, moved); if (k == 5 && x.chance(1, 3)) f = "none.xml"; a.push_back(x.coin() ? "-c" : "--config"); a.push_back(f); } a.insert(a.begin() + (k >= 8 ? 1 : 0), "-t"); if (k == 9) a.erase(a.begin() + 1), a.push_back("-t");
    x.desc << tell(w, join(a)) << tell(w, text); w.run(a, w.d); need(w.over(25000), "still running" + w.say()); if (want) need(WIFEXITED(w.status) && WEXITSTATUS(w.status) && WEXITSTATUS(w.status) < 90, "accepted:" + w.say()); else same(w.ended(), "exit 0", "end" + w.say());
    if (k == 9) { std::string o = slurp(w.d + "/out"); need(isdigit(o[0]), "version: " + o); same(num(std::count(o.begin(), o.end(), '\n')), "1", "lines of the version"); }
    need(!there(w.sock), "a test listened"); need(!there(w.d + "/pid"), "a test wrote a pid file"); need(wait_for([] { while (waitpid(-1, 0, WNOHANG) > 0) ; return offspring().empty(); }, 5000), "a test left processes"); x.nontrivial = true; x.label(num(k));
}
// ---- a server: started in some way, asked, and stopped
static void server(Ctx &x, bool daemon)
{
    World w; std::vector<std::vector<std::string> > o; bool moved = x.chance(1, 2), debug = !daemon && x.coin(), uid = !debug && can_uid() && x.coin(), pidf = daemon || x.coin(), log = x.coin(), lim = x.chance(1, 2), fmt = log && x.coin(), inc = x.chance(1, 4);
    std::string text = whole(front(w)), name; if (inc) { put(w.d + "/cf/in/f.xml", "<filter xmlns=\"http://indexdata.com/metaproxy\" type=\"bounce\"><echo>true</echo></filter>"); std::string f = front(w); f = f.substr(0, f.find("</filter>") + 9); text = whole(f + "<xi:include href=\"in/f.xml\"/>", true); put(w.d + "/cf/c.xml", text); name = moved ? "../cf/c.xml" : "cf/c.xml"; } else name = place(x, w, text, moved);
    if (daemon) o.push_back({"-D"}); if (debug) o.push_back({"-X"}); if (uid) o.push_back({"-u", "nobody"}); if (pidf) o.push_back({"-p", w.d + "/pid"}); if (log) o.push_back({"-l", w.d + "/log"}); if (fmt) o.push_back({"-m", "T%Y"}); int limit = x.range(60, 900); if (lim) o.push_back({"-s", num(limit)}); o.push_back({x.coin() ? "-c" : "--config", name}); if (moved) o.insert(o.begin() + x.range(0, (int) o.size() - 1 + 1), {"-w", x.coin() ? "w" : w.d + "/w"}); else for (int i = (int) o.size() - 1; i > 0; i--) std::swap(o[i], o[x.range(0, i)]);
    std::vector<std::string> a; for (auto &v : o) for (auto &s : v) a.push_back(s); x.desc << tell(w, join(a)); w.run(a, w.d); need(w.up(), "no service:" + w.say());
    if (daemon) { need(w.over(20000), "it stays in the foreground" + w.say()); same(w.ended(), "exit 0", "end of the command"); } else need(!w.over(0), "it went to the background" + w.say());
    auto all = offspring(); need(!all.empty(), "no process"); int worker = all.back(), boss = all[0]; if (!daemon) same(num(all.size()), "1", "processes"); else same(num(all.size()), "2", "processes");
    if (pidf) { std::string p = slurp(w.d + "/pid"); same(num(atoi(p.c_str())), num(boss), "process of the pid file"); }
    for (int p : all) { std::string at = cwd_of(p); if (at != "?" || !uid) same(at, moved ? w.d + "/w" : w.d, "working directory"); if (uid) same(field(p, "status", "Uid:"), "65534 65534", "user"); else same(field(p, "status", "Uid:"), num(getuid()) + " " + num(getuid()), "user"); if (lim) same(field(p, "limits", "Max open files"), num(limit) + " " + num(limit), "limit"); }
    x.label(std::string(daemon ? "daemon" : debug ? "debug" : "plain") + (uid ? " user" : "") + (moved ? " moved" : ""));
    if (daemon && x.coin()) { x.desc << " abort"; kill(worker, SIGABRT); need(wait_for([&] { auto v = offspring(); return v.size() == 2 && v.back() != worker; }, 20000), "not started again" + w.say()); need(w.up(), "no service after a crash" + w.say()); same(num(atoi(slurp(w.d + "/pid").c_str())), num(boss), "process of the pid file after a crash"); x.label("crash"); }
    int sig = !daemon && x.coin() ? SIGUSR1 : SIGTERM; bool held = sig == SIGUSR1 && x.coin(); x.desc << " signal " << sig << (held ? " with a session" : ""); struct Fd { int s = -1; ~Fd() { if (s >= 0) close(s); } } open; if (held) { open.s = w.dial(); need(open.s >= 0, "no connection"); need(w.ask("/x").find("GET /x") != std::string::npos, "no answer"); } kill(pidf ? atoi(slurp(w.d + "/pid").c_str()) : w.pid, sig);
    // an event for a server that got the signal just before it waits for the next one
    auto poke = [&](int i) { if (i % 10 != 9) return; int s = socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strncpy(a.sun_path, w.sock.c_str(), sizeof a.sun_path - 1); if (!connect(s, (struct sockaddr *) &a, sizeof a)) { usleep(1000); } close(s); }; int turn = 0;
    if (held) { need(wait_for([&] { poke(turn++); int s = w.dial(); if (s >= 0) close(s); return s < 0; }, 15000), "it listens after SIGUSR1" + w.say()); need(!w.over(0), "it does not wait for its session" + w.say()); need(World::over_it(open.s, "/late").find("GET /late") != std::string::npos, "no answer to a session that was open" + w.say()); close(open.s); open.s = -1; x.label("held"); }
    if (!daemon) { need(wait_for([&] { poke(turn++); return w.over(0); }, 15000), "it does not stop" + w.say()); } need(wait_for([&] { poke(turn++); if (w.reaped) while (waitpid(-1, 0, WNOHANG) > 0) ; return offspring().empty(); }, 15000), "processes stay" + w.say()); same(w.ask("/gone"), "", "answer after the end");
    if (!daemon && sig == SIGUSR1) same(w.ended(), "exit 0", "end"); std::string err = slurp(w.d + "/err"); need(err.find("Sanitizer") == std::string::npos, err.substr(0, 1500));
    if (log) { std::string l = slurp(w.d + "/log"); need(l.find("metaproxy start ") != std::string::npos, "log of the start: " + l.substr(0, 300)); need(l.find("metaproxy stop") != std::string::npos, "log of the end: " + l); if (fmt) need(l[0] == 'T' && l.substr(1, 2) == "20", "time in the log: " + l.substr(0, 60)); }
    x.nontrivial = true;
}
int main(int argc, char **argv)
{
    if (getenv("C32_PROG")) { unsetenv("C32_PROG"); return metaproxy_main(argc, argv); }
    signal(SIGPIPE, SIG_IGN); zk::quiet(); Check c; c.id = "C32"; c.case_wall_s = 150;
    c.add("commands", 300, 4000, "each", commands, false);
    c.add("server", 200, 2400, "each", [](Ctx &x) { server(x, false); }, false);
    c.add("daemon", 64, 800, "each", [](Ctx &x) { server(x, true); }, false);
    return run(c, argc, argv);
}
