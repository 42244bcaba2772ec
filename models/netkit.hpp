// Real sockets for checks of the network filters: a client that speaks bytes,
// a frontend running in a thread of its own, and bookkeeping of what reached the chain.
#pragma once
#include "zkit.hpp"
#include <atomic>
#include <condition_variable>
#include <thread>
#include <arpa/inet.h>
#include <errno.h>
#include <fcntl.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <poll.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <signal.h>
#include <time.h>
#include <yaz/comstack.h>
namespace yazpp_1 { extern std::atomic<int> shim_second_ms; extern std::mutex shim_mutex; extern std::vector<int> shim_bound_ports; }
namespace nk {
inline long long ms() { struct timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec * 1000LL + t.tv_nsec / 1000000; }
inline void nap(int m) { struct timespec t = {m / 1000, (m % 1000) * 1000000L}; nanosleep(&t, 0); }
// one response, decoded
struct Msg {
    bool http = false; int code = 0; std::map<std::string, std::string> hdr; std::string body;   // HTTP
    std::shared_ptr<zk::Mem> mem; Z_GDU *g = 0; std::string raw;
    Z_APDU *apdu() const { return g && g->which == Z_GDU_Z3950 ? g->u.z3950 : 0; }
    std::string ref() const { Z_APDU *a = apdu(); Z_ReferenceId **r = a ? zk::refp(a) : 0; return r && *r ? std::string((char *) (*r)->buf, (*r)->len) : ""; }
};
// a raw connection
struct Conn {
    int fd = -1; std::string in; bool eof = false, reset = false; std::string peer;
    ~Conn() { drop(); }
    void drop() { if (fd >= 0) ::close(fd); fd = -1; }
    void abort() { if (fd >= 0) { struct linger l = {1, 0}; setsockopt(fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } drop(); }
    bool open_tcp(int port, const std::string &from) {
        drop(); in.clear(); eof = reset = false;
        fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); if (fd < 0) return false;
        struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = inet_addr(from.c_str());
        int one = 1; setsockopt(fd, IPPROTO_IP, 24 /* IP_BIND_ADDRESS_NO_PORT */, &one, sizeof one);
        if (::bind(fd, (struct sockaddr *) &a, sizeof a)) { drop(); return false; }
        a.sin_port = htons(port); a.sin_addr.s_addr = inet_addr("127.0.0.1"); peer = from;
        setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
        if (::connect(fd, (struct sockaddr *) &a, sizeof a)) { drop(); return false; }
        fcntl(fd, F_SETFL, O_NONBLOCK); return true;
    }
    bool open_unix(const std::string &path) {
        drop(); in.clear(); eof = reset = false;
        fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0); if (fd < 0) return false;
        struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1);
        if (::connect(fd, (struct sockaddr *) &a, sizeof a)) { drop(); return false; }
        fcntl(fd, F_SETFL, O_NONBLOCK); return true;
    }
    void pull() {     // take what is there
        char b[65536]; if (fd < 0 || eof) return;
        for (;;) { ssize_t n = ::recv(fd, b, sizeof b, 0); if (n > 0) { in.append(b, n); continue; } if (n == 0) { eof = true; return; } if (errno == EINTR) continue; if (errno != EAGAIN) { eof = reset = true; } return; }
    }
    void wait(int m) { struct pollfd p = {fd, POLLIN, 0}; ::poll(&p, 1, m); pull(); }
    // all of it, reading meanwhile; false if the other end is gone
    bool push(const std::string &s) {
        size_t o = 0; long long end = ms() + 30000;
        while (o < s.size()) {
            ssize_t n = ::send(fd, s.data() + o, s.size() - o, MSG_NOSIGNAL);
            if (n > 0) { o += n; continue; } if (n < 0 && errno == EINTR) continue;
            if (n < 0 && errno == EAGAIN) { if (ms() > end) return false; pull(); struct pollfd p = {fd, POLLIN | POLLOUT, 0}; ::poll(&p, 1, 50); continue; }
            return false;
        }
        return true;
    }
    bool next(Msg &m) {
        if (in.empty()) return false;
        int n = cs_complete_auto(in.data(), (int) in.size()); if (n <= 0 || (size_t) n > in.size()) return false;
        m = Msg(); m.raw = in.substr(0, n); in.erase(0, n); m.mem.reset(new zk::Mem);
        ODR d = odr_createmem(ODR_DECODE); odr_setbuf(d, (char *) m.raw.data(), n, 0); Z_GDU *g = 0;
        if (z_GDU(d, &g, 0, 0)) { nmem_transfer(odr_getmem(m.mem->o), odr_getmem(d)); m.g = g; }
        odr_destroy(d);
        if (!m.g) return true;
        if (m.g->which == Z_GDU_HTTP_Response) { m.http = true; Z_HTTP_Response *r = m.g->u.HTTP_Response; m.code = r->code; for (Z_HTTP_Header *h = r->headers; h; h = h->next) m.hdr[h->name] = h->value; if (r->content_len) m.body.assign(r->content_buf, r->content_len); }
        return true;
    }
};
// a router whose first filter is a frontend, run in a thread
struct Front {
    std::unique_ptr<zk::Net> net; std::thread th; std::atomic<bool> ended{false}; std::vector<int> ports; std::string error;
    void launch(std::initializer_list<struct metaproxy_1_filter_struct *> types, const std::string &routes, const std::string &start = "start") {
        { std::lock_guard<std::mutex> l(yazpp_1::shim_mutex); yazpp_1::shim_bound_ports.clear(); }
        net.reset(new zk::Net(types, routes, start));
        { std::lock_guard<std::mutex> l(yazpp_1::shim_mutex); ports = yazpp_1::shim_bound_ports; }
        th = std::thread([this] { try { zk::mp::Package p; p.router(*net->r).move(); } catch (std::exception &e) { error = e.what(); } ended = true; });
    }
    bool wait_end(int m) { long long e = ms() + m; while (!ended && ms() < e) nap(1); return ended; }
    void join() { if (th.joinable()) th.join(); }
    ~Front() { join(); }
};
// a Z39.50 server on sockets of its own; each request is answered by a function of it
struct Target {
    struct Link { int fd, port, id; std::string in, peer; std::vector<std::string> pdus; bool eof = false, closed = false; };   // eof: the client ended it; closed: we did
    struct Out { std::string bytes; bool close = false; int nap = 0; };
    std::mutex m; std::vector<std::unique_ptr<Link> > links; std::vector<int> lfd, ports; std::vector<std::string> paths; int wake[2]; std::thread th; std::atomic<bool> quit{false};
    std::function<Out(Link &, const Msg &)> answer; std::string trouble; int most = 0; std::map<int, int> most_of;
    Target() { if (pipe(wake)) abort(); fcntl(wake[0], F_SETFL, O_NONBLOCK); }
    int listen_tcp(int backlog = 64, bool serve = true) {
        int fd = ::socket(AF_INET, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_in a; memset(&a, 0, sizeof a); a.sin_family = AF_INET; a.sin_addr.s_addr = htonl(INADDR_LOOPBACK); static std::atomic<unsigned> turn{0};
        for (int i = 0; ::bind(fd, (struct sockaddr *) &a, sizeof a); i++) { if (i > 5000) abort(); unsigned h = ((unsigned) getpid() * 7919u + ++turn * 131u) * 2654435761u; a.sin_port = htons((unsigned short) (10000 + (h >> 8) % 22000)); }   // many connections just closed keep the ports the kernel would choose from busy
        if (backlog >= 0 && ::listen(fd, backlog)) abort();
        socklen_t l = sizeof a; getsockname(fd, (struct sockaddr *) &a, &l); fcntl(fd, F_SETFL, O_NONBLOCK); (serve ? lfd : held).push_back(fd); if (serve) ports.push_back(ntohs(a.sin_port)); return ntohs(a.sin_port);
    }
    std::string listen_unix(const std::string &path) {
        int fd = ::socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC, 0); struct sockaddr_un a; memset(&a, 0, sizeof a); a.sun_family = AF_UNIX; strncpy(a.sun_path, path.c_str(), sizeof a.sun_path - 1); unlink(path.c_str());
        if (::bind(fd, (struct sockaddr *) &a, sizeof a) || ::listen(fd, 64)) abort(); fcntl(fd, F_SETFL, O_NONBLOCK); lfd.push_back(fd); ports.push_back(0); paths.push_back(path); return path;
    }
    std::vector<int> held;     // ports in use that nobody serves
    void go() { th = std::thread([this] { loop(); }); }
    static bool gone(int fd) { struct pollfd p = {fd, POLLRDHUP, 0}; return ::poll(&p, 1, 0) > 0 && p.revents; }
    void loop() {
        while (!quit) {
            std::vector<struct pollfd> p; p.push_back({wake[0], POLLIN, 0}); for (int f : lfd) p.push_back({f, POLLIN, 0}); size_t base = p.size(); std::vector<Link *> who;
            { std::lock_guard<std::mutex> l(m); for (auto &k : links) if (k->fd >= 0) { p.push_back({k->fd, POLLIN, 0}); who.push_back(k.get()); } }
            ::poll(p.data(), p.size(), 200); char b[65536]; while (::read(wake[0], b, sizeof b) > 0) ;
            for (size_t i = 0; i < who.size(); i++) if (p[base + i].revents) serve(*who[i]);
            for (size_t i = 0; i < lfd.size(); i++) if (p[1 + i].revents & POLLIN) {
                struct sockaddr_storage sa; socklen_t sl = sizeof sa; int fd = ::accept4(lfd[i], (struct sockaddr *) &sa, &sl, SOCK_CLOEXEC | SOCK_NONBLOCK); if (fd < 0) continue;
                std::lock_guard<std::mutex> l(m); std::unique_ptr<Link> k(new Link); k->fd = fd; k->port = (int) i; k->id = (int) links.size(); if (sa.ss_family == AF_INET) k->peer = inet_ntoa(((struct sockaddr_in *) &sa)->sin_addr);
                int open = 1; for (auto &o : links) open += o->port == k->port && o->fd >= 0 && !gone(o->fd); if (open > most_of[k->port]) most_of[k->port] = open;
                links.push_back(std::move(k));
            }
        }
    }
    void end(Link &k, bool ours) { std::lock_guard<std::mutex> l(m); (ours ? k.closed : k.eof) = true; ::close(k.fd); k.fd = -1; }
    void serve(Link &k) {
        char b[65536]; ssize_t n = ::recv(k.fd, b, sizeof b, 0); if (n < 0 && (errno == EAGAIN || errno == EINTR)) return;
        if (n <= 0) { end(k, false); return; }
        k.in.append(b, n);
        for (;;) {
            Conn c; c.in = k.in; Msg q; if (!c.next(q)) return; k.in = c.in; { std::lock_guard<std::mutex> l(m); k.pdus.push_back(q.raw); }
            if (!q.g) { std::lock_guard<std::mutex> l(m); trouble = "a request that does not decode: " + q.raw.substr(0, 40); return; }
            Out o = answer(k, q); if (o.nap) nk::nap(o.nap); size_t at = 0; long long end_at = ms() + 10000;
            while (at < o.bytes.size() && ms() < end_at) { ssize_t w = ::send(k.fd, o.bytes.data() + at, o.bytes.size() - at, MSG_NOSIGNAL); if (w > 0) at += w; else if (w < 0 && errno == EAGAIN) { struct pollfd pf = {k.fd, POLLOUT, 0}; ::poll(&pf, 1, 50); } else break; }
            if (o.close) { end(k, true); return; }
        }
    }
    void cut() { std::lock_guard<std::mutex> l(m); for (auto &k : links) if (k->fd >= 0) ::shutdown(k->fd, SHUT_RDWR); }      // every connection
    template<class F> bool until(F f, int m_) { long long e = ms() + m_; for (;;) { { std::lock_guard<std::mutex> l(m); if (f()) return true; } if (ms() > e) return false; nap(1); } }
    ~Target() { quit = true; if (::write(wake[1], "x", 1) < 0) {} if (th.joinable()) th.join(); for (auto &k : links) if (k->fd >= 0) ::close(k->fd); for (int f : lfd) ::close(f); for (int f : held) ::close(f); for (auto &p : paths) unlink(p.c_str()); ::close(wake[0]); ::close(wake[1]); }
};
}
