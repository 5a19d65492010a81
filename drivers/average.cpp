// C15: moving averages; arg0 is the object
#include "common.hpp"
#include <cxxmetrics/ewma.hpp>
using namespace cxxmetrics;
#define AVG(N, ...) typedef __VA_ARGS__ N; \
    X void cc_##N##__mark(N* m, V_##N v) { m->mark(v); } \
    X V_##N cc_##N##__rate(N* m) { return m->rate(); } \
    X V_##N ob_##N##__rate(const N* m) { return m->rate(); }
typedef double V_dbl, V_sec;
typedef int64_t V_lng;
typedef float V_flt;
AVG(dbl, ewma<time::seconds(10), time::seconds(1), double>)
AVG(sec, ewma<time::seconds(1), time::seconds(1), double>)
AVG(lng, ewma<time::minutes(1), time::seconds(5), int64_t>)
AVG(flt, ewma<time::seconds(10), time::seconds(1), float>)
