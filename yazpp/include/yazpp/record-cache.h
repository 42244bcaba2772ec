#ifndef YAZPP_RECORDCACHE_SHIM_H
#define YAZPP_RECORDCACHE_SHIM_H
#include <yaz/proto.h>
#include <string>
#include <vector>
namespace yazpp_1 {
class RecordCache {
    struct Entry { int pos; std::string comp, syntax, npr; };
    std::vector<Entry> m_entries;
public:
    RecordCache();
    ~RecordCache();
    void add(ODR o, Z_NamePlusRecordList *npr, int start, Z_RecordComposition *comp);
    int lookup(ODR o, Z_NamePlusRecordList **npr, int start, int num, Odr_oid *syntax, Z_RecordComposition *comp);
    void clear();
};
}
#endif
