#ifndef YAZPP_CQL2RPN_SHIM_H
#define YAZPP_CQL2RPN_SHIM_H
#include <yaz/cql.h>
#include <yaz/rpn2cql.h>
#include <yaz/proto.h>
#include <yaz/wrbuf.h>
namespace yazpp_1 {
class Yaz_cql2rpn {
    cql_transform_t m_transform;
public:
    Yaz_cql2rpn();
    ~Yaz_cql2rpn();
    void set_pqf_file(const char *fname);
    bool parse_spec_file(const char *fname, int *error);
    int query_transform(const char *cql, Z_RPNQuery **rpnquery, ODR o, char **addinfop);
    int rpn2cql_transform(Z_RPNQuery *q, WRBUF cql, ODR o, char **addinfop);
};
}
#endif
