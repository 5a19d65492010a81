// C17: timers; arg0 is the timer
#include "common.hpp"
#include <cxxmetrics/timer.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
struct probe_clock
{
    typedef std::chrono::nanoseconds duration; typedef duration::rep rep; typedef duration::period period;
    typedef std::chrono::time_point<probe_clock> time_point;
    static constexpr bool is_steady = true;
    time_point now() const noexcept;
};
// any timer
struct probe_timer
{
    typedef probe_clock::time_point time_point; typedef probe_clock::duration duration; typedef probe_clock clock_type;
    probe_clock c;
    const probe_clock& clock() const noexcept { return c; }
    void update(const duration& d) noexcept;
};
X void a_probe(); X void b_probe();
typedef scoped_timer_t<probe_timer> scope;
X void ts_scope(probe_timer* t) { scope s(*t); a_probe(); }
X void ts_factory(probe_timer* t) { auto s = scoped_timer(*t); a_probe(); }
X void ts_clear(probe_timer* t) { scope s(*t); a_probe(); s.clear(); }
X void ts_reset(probe_timer* t) { scope s(*t); a_probe(); s.reset(); b_probe(); }
X void ts_again(probe_timer* t) { scope s(*t); s.clear(); a_probe(); s.reset(); b_probe(); }
X void ts_move(probe_timer* t) { scope s(*t); { scope u(std::move(s)); a_probe(); } b_probe(); }
X void ts_gone(probe_timer* t) { scope s(*t); s.clear(); scope u(std::move(s)); a_probe(); }
// the timer of the library
struct probe_reservoir
{
    probe_reservoir() noexcept; probe_reservoir(const probe_reservoir&) noexcept; ~probe_reservoir();
    void update(const probe_clock::duration& d) noexcept;
    reservoir_snapshot snapshot() const;
};
struct runs { int64_t operator()() const; };
struct does { void operator()() const; };
#ifdef NO_TIME
#define TIMES(N)
#else
#define TIMES(N) \
    X int64_t tt_none__##N(N* t, runs* r) { return t->time(*r); } \
    X void tt_void__##N(N* t, does* r) { t->time(*r); } \
    X int64_t tt_all__##N(N* t, runs* r) { return t->template time<runs, true>(*r); } \
    X void tt_vall__##N(N* t, does* r) { t->template time<does, true>(*r); }
#endif
#define TIM(N, ...) typedef timer<1_sec, probe_clock, probe_reservoir, ##__VA_ARGS__> N; \
    TIMES(N) \
    X void tu_update__##N(N* t, int64_t d) { t->update(probe_clock::duration(d)); } \
    X double tu_mean__##N(const N* t) { return t->mean(); } \
    X uint64_t tu_count__##N(const N* t) { return t->count(); }
TIM(t_1)
TIM(t_1_10, 10_sec)
TIM(t_1_10_60_300, 5_min, 10_sec, 1_min, 10_sec)
