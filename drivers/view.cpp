// C35: what a publisher sees of the registry
#include "common.hpp"
#include <cxxmetrics/metrics_registry.hpp>
using namespace cxxmetrics;
typedef const metric_path& path;
typedef basic_registered_metric entry;
struct mine : public basic_publish_options {
    int64_t v;
    explicit mine(int64_t x) : v(x) { }
};
struct pub : metrics_publisher<default_repository> {
    using metrics_publisher<default_repository>::metrics_publisher;
    bool has(path p) const { return has_metric(p); }
    template<typename T> bool hasd(path p) const { return has_data_for<T>(p); }
    template<typename T> bool hase(const entry& e) const { return has_data_for<T>(e); }
    template<typename T, typename... A> T* data(path p, A&&... a) { return get_data_for<T>(p, std::forward<A>(a)...); }
    template<typename T, typename... A> T& datae(entry& e, A&&... a) { return get_data_for<T>(e, std::forward<A>(a)...); }
    template<typename T, typename... A> T& own(A&&... a) { return get_data<T>(std::forward<A>(a)...); }
    template<typename H> void one(path p, H h) const { visit_one(p, h); }
};
X bool pv_has(const pub* q, path p) { return q->has(p); }
// whether there is data: by path, by metric
X bool pv_hasd_mine(const pub* q, path p) { return q->hasd<mine>(p); }
X bool pv_hasd_options(const pub* q, path p) { return q->hasd<publish_options>(p); }
X bool pve_hasd_mine(const pub* q, const entry* e) { return q->hase<mine>(*e); }
X bool pve_hasd_options(const pub* q, const entry* e) { return q->hase<publish_options>(*e); }
// the data: by path, by metric, the publisher's
X mine* pv_data_mine(pub* q, path p, int64_t* x) { return q->data<mine>(p, std::move(*x)); }
X publish_options* pv_data_options(pub* q, path p) { return q->data<publish_options>(p); }
X mine* pve_data_mine(pub* q, entry* e, int64_t* x) { return &q->datae<mine>(*e, std::move(*x)); }
X publish_options* pve_data_options(pub* q, entry* e) { return &q->datae<publish_options>(*e); }
X mine* pvr_data_mine(pub* q, int64_t* x) { return &q->own<mine>(std::move(*x)); }
X publish_options* pvr_data_options(pub* q) { return &q->own<publish_options>(); }
// one metric
X void probe_reg(const metric_path*, entry*);
X void pv_one(const pub* q, path p) { q->one(p, [](path p, entry& m) { probe_reg(&p, &m); }); }
// types of data
X const std::type_info* tk_mine() { return &typeid(mine); }
X const std::type_info* tk_options() { return &typeid(publish_options); }
// a registry with metrics in it
X void mk_counter(void* o, metrics_registry<>* r, path p) { new (o) std::shared_ptr<counter<int64_t>>(r->counter<int64_t>(p)); }
