#ifndef YAZPP_TIMESTAT_SHIM_H
#define YAZPP_TIMESTAT_SHIM_H
#include <time.h>
#include <list>
namespace yazpp_1 {
// sum of what was added during the last 'period' seconds
class TimeStat {
    std::list<std::pair<time_t, int> > m_l;
    int m_period;
public:
    TimeStat() : m_period(60) {}
    TimeStat(int period) : m_period(period) {}
    ~TimeStat() {}
    void clean();
    void add_bytes(int sz);
    int get_total();
};
}
#endif
