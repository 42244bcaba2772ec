#ifndef YAZPP_LIMITCONNECT_SHIM_H
#define YAZPP_LIMITCONNECT_SHIM_H
#include <yazpp/timestat.h>
#include <map>
#include <string>
namespace yazpp_1 {
class LimitConnect {
    int m_period;
    std::map<std::string, TimeStat> m_peers;
public:
    LimitConnect() : m_period(60) {}
    ~LimitConnect() {}
    void set_period(int sec) { m_period = sec; }
    void add_connect(const char *peername);
    int get_total(const char *peername);
    void cleanup(bool all);
};
}
#endif
