#pragma once
#include <list>
#include <string>
#include <yazpp/socket-observer.h>
#include <yazpp/pdu-observer.h>
namespace yazpp_1 {
    class PDU_Assoc : public IPDU_Observable, public ISocketObserver {
        enum State { Closed, Connecting, Listening, Ready };
        State m_state;
        COMSTACK m_cs;
        ISocketObservable *m_obs;
        IPDU_Observer *m_observer;
        char *m_input_buf;
        int m_input_len;
        std::list<std::string> m_queue;
        PDU_Assoc *m_parent;
        std::list<PDU_Assoc *> m_children;
        int m_idle;
        bool *m_destroyed;
        bool m_dead;
        std::string m_cert;
        void init(ISocketObservable *);
        void want();
        int flush();
        void fail();
        COMSTACK comstack(const char *addr, void **ap);
    public:
        PDU_Assoc(ISocketObservable *socketObservable);
        PDU_Assoc(ISocketObservable *socketObservable, COMSTACK cs);
        virtual ~PDU_Assoc();
        void socketNotify(int event);
        int send_PDU(const char *buf, int len);
        int connect(IPDU_Observer *observer, const char *addr);
        int listen(IPDU_Observer *observer, const char *addr);
        void shutdown();
        IPDU_Observable *clone();
        void destroy();
        void idleTime(int timeout);
        const char *getpeername();
        void close_session();
        COMSTACK get_comstack() { return m_cs; }
        void set_cert_fname(const char *fname);
    };
}
