// the text publisher: the writers of all kinds of snapshots, and the publisher itself
#include "common.hpp"
#include <cxxmetrics_prometheus/prometheus_counter.hpp>
#include <cxxmetrics_prometheus/prometheus_gauge.hpp>
#include <cxxmetrics_prometheus/prometheus_meter.hpp>
#include <cxxmetrics_prometheus/prometheus_histogram.hpp>
#include <cxxmetrics_prometheus/prometheus_timer.hpp>
#include <cxxmetrics_prometheus/prometheus_publisher.hpp>
#define X extern "C" __attribute__((visibility("default")))
using namespace cxxmetrics;
using namespace cxxmetrics_prometheus;
using reg = metrics_registry<>;
template<typename S> void wr(std::ostream& o, const metric_path& p, const publish_options& opt, const tag_collection& t, const S& s, bool& h)
{
    snapshot_writer<S> w(o, p, h, opt);
    w.write(t, s);
}
X void pw_counter(std::ostream& o, const metric_path& p, const publish_options& opt, const tag_collection& t, const cumulative_value_snapshot& s, bool& h) { wr(o, p, opt, t, s, h); }
X void pw_gauge(std::ostream& o, const metric_path& p, const publish_options& opt, const tag_collection& t, const average_value_snapshot& s, bool& h) { wr(o, p, opt, t, s, h); }
X void pw_meter(std::ostream& o, const metric_path& p, const publish_options& opt, const tag_collection& t, const meter_snapshot& s, bool& h) { wr(o, p, opt, t, s, h); }
X void pw_histogram(std::ostream& o, const metric_path& p, const publish_options& opt, const tag_collection& t, const histogram_snapshot& s, bool& h) { wr(o, p, opt, t, s, h); }
X void pw_timer(std::ostream& o, const metric_path& p, const publish_options& opt, const tag_collection& t, const timer_snapshot& s, bool& h) { wr(o, p, opt, t, s, h); }
X void pw_all(prometheus_publisher<default_repository>* p, std::ostream& o) { p->write(o); }
