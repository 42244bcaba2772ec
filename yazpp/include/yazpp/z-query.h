#ifndef YAZPP_ZQUERY_SHIM_H
#define YAZPP_ZQUERY_SHIM_H
#include <yaz/proto.h>
#include <string>
namespace yazpp_1 {
class Yaz_Z_Query {
    std::string m_buf;
    ODR m_decode;
public:
    Yaz_Z_Query();
    Yaz_Z_Query(const Yaz_Z_Query &);
    ~Yaz_Z_Query();
    int set_rpn(const char *rpn);
    void set_Z_Query(Z_Query *z_query);
    Z_Query *get_Z_Query();
    bool match(const Yaz_Z_Query *other);
    Yaz_Z_Query &operator=(const Yaz_Z_Query &);
};
}
#endif
