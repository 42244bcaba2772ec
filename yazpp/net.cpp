// Stand-in for the parts of YAZ++ that do network I/O: an event loop over
// poll(2) and Z39.50/HTTP packages over libyaz's COMSTACK. The interfaces and
// the order of notifications follow YAZ++ 1.x: requests already buffered are
// delivered before the next poll, close_session waits for queued output, a
// failed read, write or decode shuts the connection and calls failNotify, and
// an observer may be destroyed from any notification.
#include <errno.h>
#include <poll.h>
#include <stdlib.h>
#include <string.h>
#include <sys/types.h>
#include <sys/socket.h>
#include <netinet/in.h>
#include <time.h>
#include <atomic>
#include <mutex>
#include <vector>
#include <yaz/log.h>
#include <yaz/tcpip.h>
#include <yazpp/socket-manager.h>
#include <yazpp/pdu-assoc.h>
#include <yazpp/z-assoc.h>

namespace yazpp_1 {
std::atomic<int> shim_second_ms(1000);
std::mutex shim_mutex;
std::vector<int> shim_bound_ports;    // TCP ports listen() bound, in order

ISocketObserver::~ISocketObserver() {}
ISocketObservable::~ISocketObservable() {}
IPDU_Observable::~IPDU_Observable() {}
IPDU_Observer::~IPDU_Observer() {}

static long long now_ms()
{
    struct timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return t.tv_sec * 1000LL + t.tv_nsec / 1000000;
}

SocketManager::SocketManager() {}
SocketManager::~SocketManager() { deleteObservers(); }

SocketManager::Entry *SocketManager::find(ISocketObserver *o)
{
    for (auto &e : m_entries)
        if (e.observer == o)
            return &e;
    return 0;
}

void SocketManager::addObserver(int fd, ISocketObserver *o)
{
    Entry *e = find(o);
    if (!e)
    {
        m_entries.push_back(Entry());
        e = &m_entries.back();
        e->observer = o;
    }
    e->fd = fd;
    e->mask = 0;
    e->timeout = -1;
    e->last = now_ms();
}

void SocketManager::deleteObserver(ISocketObserver *o)
{
    m_events.remove_if([&](const Event &e) { return e.observer == o; });
    m_entries.remove_if([&](const Entry &e) { return e.observer == o; });
}

void SocketManager::deleteObservers()
{
    m_events.clear();
    m_entries.clear();
}

void SocketManager::maskObserver(ISocketObserver *o, int mask)
{
    if (Entry *e = find(o))
    {
        e->mask = mask;
        e->last = now_ms();
    }
}

void SocketManager::timeoutObserver(ISocketObserver *o, int timeout)
{
    if (Entry *e = find(o))
    {
        e->timeout = timeout;
        e->last = now_ms();
    }
}

int SocketManager::getNumberOfObservers() { return (int) m_entries.size(); }

bool SocketManager::deliver()
{
    if (m_events.empty())
        return false;
    Event ev = m_events.front();
    m_events.pop_front();
    ev.observer->socketNotify(ev.event);
    return true;
}

int SocketManager::processEvent()
{
    if (deliver())
        return 1;
    std::vector<struct pollfd> fds;
    std::vector<ISocketObserver *> who;
    long long now = now_ms(), wait = -1;
    for (auto &e : m_entries)
    {
        struct pollfd p;
        p.fd = e.fd;
        p.events = p.revents = 0;
        if (e.mask & SOCKET_OBSERVE_READ)
            p.events |= POLLIN;
        if (e.mask & SOCKET_OBSERVE_WRITE)
            p.events |= POLLOUT;
        if (!e.mask)
            p.fd = -1;
        fds.push_back(p);
        who.push_back(e.observer);
        if (e.timeout > 0)
        {
            long long left = e.last + (long long) e.timeout * shim_second_ms - now;
            if (left < 0)
                left = 0;
            if (wait < 0 || left < wait)
                wait = left;
        }
    }
    if (fds.empty())
        return 0;
    int r;
    while ((r = poll(fds.data(), fds.size(), (int) wait)) < 0)
        if (errno != EINTR)
            return -1;
    now = now_ms();
    for (size_t i = 0; i < fds.size(); i++)
    {
        Entry *e = find(who[i]);
        if (!e)
            continue;
        int ev = 0;
        if (fds[i].fd >= 0)
        {
            if (fds[i].revents & (POLLIN | POLLHUP | POLLERR))
                ev |= SOCKET_OBSERVE_READ;
            if (fds[i].revents & POLLOUT)
                ev |= SOCKET_OBSERVE_WRITE;
            if (fds[i].revents & POLLNVAL)
                ev |= SOCKET_OBSERVE_EXCEPT;
            ev &= e->mask;
        }
        if (ev)
            e->last = now;
        else if (e->timeout > 0 &&
                 now - e->last >= (long long) e->timeout * shim_second_ms)
        {
            ev = SOCKET_OBSERVE_TIMEOUT;
            e->last = now;
        }
        if (ev)
            m_events.push_back(Event{who[i], ev});
    }
    deliver();
    return 1;
}

void PDU_Assoc::init(ISocketObservable *o)
{
    m_state = Closed;
    m_cs = 0;
    m_obs = o;
    m_observer = 0;
    m_input_buf = 0;
    m_input_len = 0;
    m_parent = 0;
    m_idle = 0;
    m_destroyed = 0;
    m_dead = false;
}

PDU_Assoc::PDU_Assoc(ISocketObservable *o) { init(o); }

PDU_Assoc::PDU_Assoc(ISocketObservable *o, COMSTACK cs)
{
    init(o);
    m_cs = cs;
    m_state = Ready;
    m_obs->addObserver(cs_fileno(cs), this);
    want();
}

PDU_Assoc::~PDU_Assoc() { destroy(); }

void PDU_Assoc::destroy()
{
    shutdown();
    if (m_destroyed)
        *m_destroyed = true;
    m_destroyed = 0;
    if (m_parent)
        m_parent->m_children.remove(this);
    m_parent = 0;
    // children are owned by their observers
    while (!m_children.empty())
    {
        PDU_Assoc *c = m_children.front();
        m_children.pop_front();
        c->m_parent = 0;
        c->shutdown();
    }
    if (m_input_buf)
        xfree(m_input_buf);
    m_input_buf = 0;
}

IPDU_Observable *PDU_Assoc::clone() { return new PDU_Assoc(m_obs); }

void PDU_Assoc::set_cert_fname(const char *fname) { m_cert = fname ? fname : ""; }

void PDU_Assoc::idleTime(int timeout)
{
    m_idle = timeout;
    m_obs->timeoutObserver(this, timeout);
}

const char *PDU_Assoc::getpeername() { return m_cs ? cs_addrstr(m_cs) : 0; }

void PDU_Assoc::shutdown()
{
    while (!m_children.empty() && m_state == Listening)
    {
        PDU_Assoc *c = m_children.front();
        m_children.pop_front();
        c->m_parent = 0;
        c->shutdown();
    }
    m_obs->deleteObserver(this);
    m_state = Closed;
    if (m_cs)
        cs_close(m_cs);
    m_cs = 0;
    m_queue.clear();
    if (m_input_buf)
        xfree(m_input_buf);
    m_input_buf = 0;
    m_input_len = 0;
}

void PDU_Assoc::fail()
{
    shutdown();
    if (m_observer)
        m_observer->failNotify();
}

void PDU_Assoc::want()
{
    int mask = SOCKET_OBSERVE_READ | SOCKET_OBSERVE_EXCEPT;
    if (m_state == Connecting)
    {
        mask = SOCKET_OBSERVE_EXCEPT;
        if (m_cs->io_pending & CS_WANT_READ)
            mask |= SOCKET_OBSERVE_READ;
        if ((m_cs->io_pending & CS_WANT_WRITE) || !m_cs->io_pending)
            mask |= SOCKET_OBSERVE_WRITE;
    }
    else if (!m_queue.empty())
        mask |= SOCKET_OBSERVE_WRITE;
    m_obs->maskObserver(this, mask);
}

int PDU_Assoc::flush()
{
    if (m_state != Ready)
        return 1;
    while (!m_queue.empty())
    {
        std::string &s = m_queue.front();
        int r = cs_put(m_cs, &s[0], (int) s.size());
        if (r < 0)
        {
            fail();
            return r;
        }
        if (r == 1)
        {
            want();
            return 1;
        }
        m_queue.pop_front();
    }
    want();
    if (m_dead)
        fail();
    return 0;
}

int PDU_Assoc::send_PDU(const char *buf, int len)
{
    if (m_state == Closed)
        return -1;
    m_queue.push_back(std::string(buf, len));
    if (m_state == Ready && m_queue.size() == 1)
        return flush();
    return 0;
}

void PDU_Assoc::close_session()
{
    m_dead = true;
    if (m_queue.empty())
        fail();
}

COMSTACK PDU_Assoc::comstack(const char *addr, void **ap)
{
    return cs_create_host(addr, 2 /* non-blocking, no wait */, ap);
}

int PDU_Assoc::connect(IPDU_Observer *observer, const char *addr)
{
    shutdown();
    m_observer = observer;
    void *ap;
    m_cs = comstack(addr, &ap);
    if (!m_cs)
        return -1;
    int r = cs_connect(m_cs, ap);
    if (r < 0)
    {
        cs_close(m_cs);
        m_cs = 0;
        return r;
    }
    m_obs->addObserver(cs_fileno(m_cs), this);
    if (r == 0)
    {
        // connected at once: say so from the event loop all the same
        m_state = Connecting;
        m_obs->maskObserver(this, SOCKET_OBSERVE_WRITE | SOCKET_OBSERVE_EXCEPT);
    }
    else
    {
        m_state = Connecting;
        want();
    }
    return 0;
}

int PDU_Assoc::listen(IPDU_Observer *observer, const char *addr)
{
    if (*addr == '\0')
    {
        m_obs->deleteObserver(this);
        m_state = Closed;
        if (m_cs)
            cs_close(m_cs);
        m_cs = 0;
        return 0;
    }
    shutdown();
    m_observer = observer;
    void *ap;
    m_cs = cs_create_host(addr, 2, &ap);
    if (!m_cs)
        return -1;
    if (cs_bind(m_cs, ap, CS_SERVER) < 0)
    {
        cs_close(m_cs);
        m_cs = 0;
        return -2;
    }
    struct sockaddr_in sin;
    socklen_t sl = sizeof(sin);
    memset(&sin, 0, sizeof(sin));
    if (!getsockname(cs_fileno(m_cs), (struct sockaddr *) &sin, &sl))
    {
        std::lock_guard<std::mutex> l(shim_mutex);
        shim_bound_ports.push_back(
            sin.sin_family == AF_INET || sin.sin_family == AF_INET6 ?
            ntohs(sin.sin_port) : 0);
    }
    m_obs->addObserver(cs_fileno(m_cs), this);
    m_obs->maskObserver(this, SOCKET_OBSERVE_READ | SOCKET_OBSERVE_EXCEPT);
    m_state = Listening;
    return 0;
}

void PDU_Assoc::socketNotify(int event)
{
    if (event & SOCKET_OBSERVE_EXCEPT)
    {
        fail();
        return;
    }
    if (event & SOCKET_OBSERVE_TIMEOUT)
    {
        if (m_observer)
            m_observer->timeoutNotify();
        return;
    }
    switch (m_state)
    {
    case Closed:
        break;
    case Connecting:
    {
        int err = 0;
        socklen_t sl = sizeof(err);
        getsockopt(cs_fileno(m_cs), SOL_SOCKET, SO_ERROR, &err, &sl);
        int r = err ? -1 : cs_rcvconnect(m_cs);
        if (r < 0)
            fail();
        else if (r == 1)
            want();
        else
        {
            m_state = Ready;
            want();
            if (m_observer)
                m_observer->connectNotify();
            if (m_state == Ready && !m_queue.empty())
                flush();
        }
        break;
    }
    case Listening:
        if (event & SOCKET_OBSERVE_READ)
        {
            int r = cs_listen(m_cs, 0, 0);
            if (r)
                break;   // nothing there (any more)
            COMSTACK cs = cs_accept(m_cs);
            if (!cs)
                break;
            PDU_Assoc *c = new PDU_Assoc(m_obs, cs);
            c->m_parent = this;
            m_children.push_back(c);
            c->m_observer = m_observer->sessionNotify(c, cs_fileno(cs));
            if (!c->m_observer)
                delete c;
        }
        break;
    case Ready:
        if (event & SOCKET_OBSERVE_WRITE)
        {
            bool destroyed = false;
            m_destroyed = &destroyed;
            flush();
            if (destroyed)
                return;
            m_destroyed = 0;
            if (m_state != Ready)
                return;
        }
        if (event & SOCKET_OBSERVE_READ)
        {
            do
            {
                int r = cs_get(m_cs, &m_input_buf, &m_input_len);
                if (r == 1)
                    break;
                if (r <= 0)
                {
                    fail();
                    return;
                }
                bool destroyed = false;
                m_destroyed = &destroyed;
                m_observer->recv_PDU(m_input_buf, r);
                if (destroyed)
                    return;
                m_destroyed = 0;
            }
            while (m_cs && m_state == Ready && cs_more(m_cs));
            if (m_cs && m_state == Ready)
                want();
        }
        break;
    }
}

Z_Assoc::Z_Assoc(IPDU_Observable *o) : m_obs(o)
{
    m_in = odr_createmem(ODR_DECODE);
    m_out = odr_createmem(ODR_ENCODE);
}

Z_Assoc::~Z_Assoc()
{
    m_obs->destroy();
    delete m_obs;
    odr_destroy(m_in);
    odr_destroy(m_out);
}

void Z_Assoc::recv_PDU(const char *buf, int len)
{
    Z_GDU *gdu = 0;
    odr_reset(m_in);
    odr_setbuf(m_in, (char *) buf, len, 0);
    if (z_GDU(m_in, &gdu, 0, 0))
        recv_GDU(gdu, len);
    else
    {
        m_obs->shutdown();
        failNotify();
    }
}

int Z_Assoc::send_GDU(Z_GDU *gdu, int *plen)
{
    int len;
    odr_reset(m_out);
    if (!z_GDU(m_out, &gdu, 0, "encode"))
        return -1;
    char *buf = odr_getbuf(m_out, &len, 0);
    if (plen)
        *plen = len;
    return m_obs->send_PDU(buf, len);
}

int Z_Assoc::send_Z_PDU(Z_APDU *apdu, int *plen)
{
    Z_GDU gdu;
    gdu.which = Z_GDU_Z3950;
    gdu.u.z3950 = apdu;
    return send_GDU(&gdu, plen);
}

void Z_Assoc::shutdown() { m_obs->shutdown(); }
void Z_Assoc::close() { m_obs->close_session(); }
int Z_Assoc::server(const char *addr) { return m_obs->listen(this, addr); }
int Z_Assoc::client(const char *addr) { return m_obs->connect(this, addr); }
void Z_Assoc::timeout(int seconds) { m_obs->idleTime(seconds); }
}
