// C16: meters; arg0 is the meter
#include "common.hpp"
#include <cxxmetrics/meter.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
#define MET(N, ...) typedef meter<__VA_ARGS__> N; \
    X void me_mark__##N(N* m, int64_t v) { m->mark(v); } \
    X void me_one__##N(N* m) { m->mark(); } \
    X double me_mean__##N(const N* m) { return m->mean(); } \
    X void me_snap__##N(N* m, void* o) { new (o) meter_snapshot(m->snapshot()); } \
    X void me_snapc__##N(const N* m, void* o) { new (o) meter_snapshot(m->snapshot()); }
#define RATE(N, W) \
    X void me_rate_##W##__##N(N* m, void* o) { new (o) meter_rate(m->rate<time::seconds(W)>()); } \
    X void me_ratec_##W##__##N(const N* m, void* o) { new (o) meter_rate(m->rate<time::seconds(W)>()); }
// the name of a meter: interval, windows (seconds)
MET(m_1, 1_sec)
MET(m_1_10, 1_sec, 10_sec)
MET(m_5_10_60_300, 5_sec, 10_sec, 1_min, 5_min)
MET(m_60_60_300_3600_86400, time::minutes(1), 24_hour, 60_sec, 1_hour, 5_min, 1_min)
RATE(m_1_10, 10)
RATE(m_5_10_60_300, 10) RATE(m_5_10_60_300, 60) RATE(m_5_10_60_300, 300)
RATE(m_60_60_300_3600_86400, 60) RATE(m_60_60_300_3600_86400, 300) RATE(m_60_60_300_3600_86400, 3600) RATE(m_60_60_300_3600_86400, 86400)
