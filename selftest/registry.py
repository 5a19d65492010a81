R = "cxxmetrics/metrics_registry.hpp"
EDITS = [
    # ---- bugs
    ("bug", "C10", R, "    if (res != metrics_.end())\n        return std::static_pointer_cast<internal::metric>(res->second);\n\n", ""),
    ("bug", "C10,C11", R, "return *metrics_.emplace(name, std::move(ptr)).first->second;", "auto& r = *ptr; metrics_.emplace(name, std::move(ptr)); static std::unique_ptr<basic_registered_metric> k; return r;"[:0] + "return *(metrics_[metric_path(\"x\")] = std::move(ptr));"),
    ("bug", "C27", R, "    std::lock_guard<std::mutex> lock(metriclock_);\n    auto existing = metrics_.find(name);\n\n    if (existing == metrics_.end())\n        return nullptr;", "    auto existing = metrics_.find(name);\n\n    if (existing == metrics_.end())\n        return nullptr;"),
    ("bug", "C10", R, "    std::lock_guard<std::mutex> lock(lock_);\n    auto res = metrics_.find(tags);\n\n    if (res != metrics_.end())\n        return std::static_pointer_cast<internal::metric>(res->second);\n", "    {\n    std::lock_guard<std::mutex> lock(lock_);\n    auto res = metrics_.find(tags);\n\n    if (res != metrics_.end())\n        return std::static_pointer_cast<internal::metric>(res->second);\n    }\n    std::lock_guard<std::mutex> lock(lock_);\n"),
    ("bug", "C13", R, "    lock.unlock();\n    visitor.visit(result);", "    visitor.visit(result);"),
    ("bug", "C12", R, "    std::unique_lock<std::mutex> lock(lock_);\n\n    auto itr = metrics_.begin();\n    if (itr == metrics_.end())\n        return;\n", "    lock_.lock();\n    auto itr = metrics_.begin();\n    if (itr == metrics_.end())\n        return;\n    std::unique_lock<std::mutex> lock(lock_, std::adopt_lock);\n"),
    ("bug", "C11", R, "    if (l.type() != mtype)\n        throw metric_type_mismatch(l.type(), mtype);\n", ""),
    ("bug", "C11", R, "    if (l.type() != mtype)", "    if (l.type().size() != mtype.size())"),
    ("bug", "C11", R, "    if (l.type() != metric->metric_type())", "    if (l.type() == metric->metric_type())"),
    ("bug", "C11", R, "    if (l.type() != metric->metric_type())\n", "    if (l.type() != metric->metric_type() && metric.use_count() > 1)\n"),
    ("bug", "C11", "cxxmetrics/metric.hpp", "typeid(TMetricType)", "typeid(internal::metric)"),
    ("bug", "C10", R, "    std::lock_guard<std::mutex> lock(lock_);\n    auto res = metrics_.find(tags);\n\n    if (res != metrics_.end())\n        return std::static_pointer_cast<internal::metric>(res->second);\n\n    return std::static_pointer_cast<internal::metric>(\n            metrics_.emplace(tags, static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build()).first->second);",
     "    {\n    std::lock_guard<std::mutex> lock(lock_);\n    auto res = metrics_.find(tags);\n\n    if (res != metrics_.end())\n        return std::static_pointer_cast<internal::metric>(res->second);\n    }\n    auto made = static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build();\n    std::lock_guard<std::mutex> lock(lock_);\n    auto& slot = metrics_[tags];\n    slot = made;\n    return made;"),
    # ---- edits that keep the behaviour
    ("same", "C10,C11,C12,C13,C27", R, "    std::lock_guard<std::mutex> lock(metriclock_);\n    auto existing = metrics_.find(name);\n\n    if (existing == metrics_.end())\n    {\n        auto ptr = builder();\n        return *metrics_.emplace(name, std::move(ptr)).first->second;\n    }\n\n    return *existing->second;",
     "    std::unique_lock<std::mutex> lock(metriclock_);\n    auto existing = metrics_.find(name);\n\n    if (existing != metrics_.end())\n        return *existing->second;\n    auto ptr = builder();\n    auto added = metrics_.emplace(name, std::move(ptr));\n    basic_registered_metric& r = *added.first->second; lock.unlock(); return r;"),
    ("same", "C10,C11,C12,C13,C27", R, "    auto existing = metrics_.find(name);\n\n    if (existing == metrics_.end())\n    {\n        auto ptr = builder();\n        return *metrics_.emplace(name, std::move(ptr)).first->second;\n    }\n\n    return *existing->second;",
     "    auto& slot = metrics_[name];\n    if (!slot)\n        slot = builder();\n    return *slot;"),
    ("same", "C10,C11,C12,C13,C27", R, "    auto res = metrics_.find(tags);\n\n    if (res != metrics_.end())\n        return std::static_pointer_cast<internal::metric>(res->second);\n\n    return std::static_pointer_cast<internal::metric>(\n            metrics_.emplace(tags, static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build()).first->second);",
     "    auto res = metrics_.find(tags);\n    if (res == metrics_.end())\n        res = metrics_.emplace(tags, static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build()).first;\n    return res->second;"),
    ("same", "C10,C11,C12,C13,C27", R, "    auto res = metrics_.find(tags);\n\n    if (res != metrics_.end())\n        return std::static_pointer_cast<internal::metric>(res->second);\n\n    return std::static_pointer_cast<internal::metric>(\n            metrics_.emplace(tags, static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build()).first->second);",
     "    auto& slot = metrics_[tags];\n    if (slot == nullptr) {\n    auto* b = static_cast<basic_metric_builder<TMetricType>*>(metricbuilder);\n        slot = b->build(); }\n    return slot;"),
    ("same", "C10,C11,C12,C13,C27", R, "    std::lock_guard<std::mutex> lock(metriclock_);\n    auto existing = metrics_.find(name);\n\n    if (existing == metrics_.end())\n        return nullptr;\n\n    return existing->second.get();", "    basic_registered_metric* r = nullptr;\n    metriclock_.lock();\n    try {\n    auto existing = metrics_.find(name);\n    if (existing != metrics_.end())\n        r = existing->second.get();\n    } catch (...) { metriclock_.unlock(); throw; }\n    metriclock_.unlock();\n    return r;"),
    ("same", "C10,C11,C12,C13,C27", R, "    if (l.type() != mtype)\n        throw metric_type_mismatch(l.type(), mtype);\n", "    const std::string have = l.type();\n    if (!(have == mtype))\n        throw metric_type_mismatch(have, mtype);\n"),
    ("same", "C10,C11,C12,C13,C27", R, "    if (l.type() != mtype)\n        throw metric_type_mismatch(l.type(), mtype);\n\n    return static_cast<registered_metric<TMetricType>&>(l);", "    if (l.type() == mtype)\n        return static_cast<registered_metric<TMetricType>&>(l);\n    throw metric_type_mismatch(l.type(), mtype);\n"),
    ("same", "C10,C11,C12,C13,C27", R, "    if (l.type() != metric->metric_type())\n        throw metric_type_mismatch(l.type(), metric->metric_type());\n", "    auto wanted = metric->metric_type();\n    if (l.type().compare(wanted) != 0)\n        throw metric_type_mismatch(l.type(), wanted);\n"),
    ("same", "C10,C11,C12,C13,C27", R, "    lock.unlock();\n    visitor.visit(result);", "    lock.unlock();\n    snapshot_visitor& v = visitor;\n    v.visit(result);"),
    ("same", "C10,C11,C12,C13,C27", R, "    auto result = itr->second->snapshot();\n    for (++itr; itr != metrics_.end(); ++itr)\n    {\n        result.merge(itr->second->snapshot());\n    }", "    auto result = itr->second->snapshot();\n    ++itr;\n    while (itr != metrics_.end())\n    {\n        auto s = itr->second->snapshot();\n        result.merge(s);\n        itr++;\n    }"),
    ("same", "C10,C11,C12,C13,C27", R, "    for (auto& pair : metrics_)\n        handler(pair.first, *pair.second);", "    for (auto it = metrics_.begin(); it != metrics_.end(); ++it) {\n        const metric_path& k = it->first; handler(k, *it->second); }"),
]
