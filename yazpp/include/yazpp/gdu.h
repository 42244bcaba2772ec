// Stand-in for YAZ++ (not installed here): a value type for one PDU.
#ifndef YAZPP_GDU_SHIM_H
#define YAZPP_GDU_SHIM_H
#include <yaz/zgdu.h>
#include <yaz/odr.h>
#include <yaz/proto.h>
#include <yaz/prt-ext.h>
#include <yaz/yaz-version.h>
#include <yaz/wrbuf.h>
namespace yazpp_1 {
class GDU {
    Z_GDU *m_gdu;
    ODR m_decode;
    void base(Z_GDU *gdu, ODR encode);
public:
    GDU(Z_APDU *apdu);
    GDU(Z_GDU *gdu);
    GDU(const GDU &gdu);
    GDU();
    ~GDU();
    Z_GDU *get() const;
    GDU &operator=(const GDU &);
    int get_size();
};
}
#endif
