#pragma once
#include <yaz/proto.h>
#include <yaz/odr.h>
#include <yaz/zgdu.h>
#include <yazpp/pdu-observer.h>
namespace yazpp_1 {
    class Z_Assoc : public IPDU_Observer {
        IPDU_Observable *m_obs;
        ODR m_in, m_out;
        Z_Assoc(const Z_Assoc &);
    public:
        Z_Assoc(IPDU_Observable *the_PDU_Observable);
        virtual ~Z_Assoc();
        void recv_PDU(const char *buf, int len);
        virtual void connectNotify() = 0;
        virtual void failNotify() = 0;
        virtual void timeoutNotify() = 0;
        virtual void recv_GDU(Z_GDU *apdu, int len) = 0;
        int send_Z_PDU(Z_APDU *apdu, int *len);
        int send_GDU(Z_GDU *apdu, int *len);
        void shutdown();
        void close();
        int server(const char *addr);
        int client(const char *addr);
        void timeout(int seconds);
        ODR odr_encode() { return m_out; }
        ODR odr_decode() { return m_in; }
    };
}
