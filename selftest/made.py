R = "cxxmetrics/metrics_registry.hpp"
C = "cxxmetrics/counter.hpp"
G = "cxxmetrics/gauge.hpp"
H = "cxxmetrics/histogram.hpp"
GETC = "    return get<cxxmetrics::counter<TCount>>(name, tags, std::forward<TCount>(initialValue));"
GETH = "    return get<cxxmetrics::histogram<typename TReservoir::value_type, TReservoir>>(name, tags, std::forward<TReservoir>(reservoir));"
ZERO = "        return this->template counter<TCount>(name, 0, tags);"
TAG = "            return std::make_shared<TMetricType>(std::forward<TConstructorArgs>(args)...);"
ADD = """        bool added = false;
        auto builder = [&]() -> std::shared_ptr<TMetricType> {
            added = true;
            return std::move(metric);
        };
"""
NUL = "    if (!metric)\n        return false;\n"
THR = "throw metric_type_mismatch(l.type(), mtype);"
THX = "throw metric_type_mismatch(l.type(), metric->metric_type());"
CALL = "        std::static_pointer_cast<TMetricType>(this->child(tags, &metricbuilder));\n\n        return added;"
REG = "C10,C11,C12,C13,C34"
EDITS = [
    ("bug", "C34", R, THR, "throw metric_type_mismatch(mtype, l.type());"),
    ("bug", "C34", R, THX, "throw metric_type_mismatch(metric->metric_type(), l.type());"),
    ("bug", "C34", R, THX, "throw metric_type_mismatch(metric->metric_type(), metric->metric_type());"),
    ("bug", "C34", R, "        return desired_;", "        return existing_;"),
    ("bug", "C34", R, "            existing_(std::move(existing_type)),\n            desired_(std::move(desired_type))", "            existing_(std::move(desired_type)),\n            desired_(std::move(existing_type))"),
    ("bug", "C34", R, "        return added;", "        return !added;"),
    ("bug", "C34", R, "        return added;", "        return true;"),
    ("bug", "C34", R, "            added = true;\n            return std::move(metric);", "            return std::move(metric);"),
    ("bug", "C34", R, "            added = true;\n            return std::move(metric);", "            added = true;\n            return std::make_shared<TMetricType>(*metric);"),
    ("bug", "C34", R, GETC, "    return get<cxxmetrics::counter<TCount>>(name, tags);"),
    ("bug", "C34", R, GETC, "    return get<cxxmetrics::counter<TCount>>(name, tags, initialValue + 1);"),
    ("bug", "C34", R, GETH, "    return get<cxxmetrics::histogram<typename TReservoir::value_type, TReservoir>>(name, tags, TReservoir());"),
    ("bug", "C34", R, GETH, "    return get<cxxmetrics::histogram<typename TReservoir::value_type, TReservoir>>(name, tags);"),
    ("bug", "C10,C34", R, GETC, "    return get<cxxmetrics::counter<TCount>>(name, tag_collection(), std::forward<TCount>(initialValue));"),
    ("bug", "C10,C34", R, ZERO, "        return this->template counter<TCount>(name, 0);"),
    ("bug", "C34", R, ZERO, "        return this->template counter<TCount>(name, 1, tags);"),
    ("bug", "C34", R, NUL, ""),
    ("bug", "C34", R, NUL, "    if (!metric)\n        return true;\n"),
    ("bug", "C34", R, "    return get<cxxmetrics::gauge<TGaugeType, TAggregation>>(name, tags, std::forward<TGaugeType>(data_provider));", "    return get<cxxmetrics::gauge<TGaugeType, TAggregation>>(name, tags, TGaugeType());"),
    ("bug", "C34", C, "value_(initial_value)", "value_(0)"),
    ("bug", "C34,C25", G, "primitive_gauge<TGaugeType, TAggregation>::primitive_gauge(const TGaugeType& initial_value) noexcept :\n        value_(initial_value)", "primitive_gauge<TGaugeType, TAggregation>::primitive_gauge(const TGaugeType& initial_value) noexcept :\n        value_()"),
    ("bug", "C34", H, "            reservoir_(std::forward<TReservoir>(reservoir))", "            reservoir_()"),
    ("same", REG, R, TAG, "            auto m = std::make_shared<TMetricType>(std::forward<TConstructorArgs>(args)...);\n            return m;"),
    ("same", REG, R, TAG, "            return std::shared_ptr<TMetricType>(new TMetricType(std::forward<TConstructorArgs>(args)...));"),
    ("same", REG, R, GETC, "    TCount start = initialValue;\n    return get<cxxmetrics::counter<TCount>>(name, tags, std::move(start));"),
    ("same", REG, R, ZERO, "        const TCount zero = TCount();\n        return this->template counter<TCount>(name, TCount(zero), tags);"),
    ("same", REG, R, ZERO, "        return this->template get<cxxmetrics::counter<TCount>>(name, tags, TCount());"),
    ("same", REG, R, NUL, "    if (metric == nullptr)\n        return false;\n"),
    ("same", REG, R, NUL, "    const bool nothing = !metric;\n    if (nothing)\n        return false;\n"),
    ("same", REG, R, NUL, "    if (metric.get() == nullptr)\n        return false;\n"),
    ("same", REG, R, ADD, """        int built = 0;
        auto builder = [&built, &metric]() -> std::shared_ptr<TMetricType> {
            ++built;
            return metric;
        };
""".replace("int built = 0", "bool added = false").replace("&built", "&added").replace("++built", "added = true")),
    ("same", REG, (R, ADD, ADD.replace("added = true", "kept = false").replace("bool added = false", "bool kept = true")), (R, "        return added;", "        return !kept;")),
    ("same", REG, (R, ADD, ADD.replace("added = true", "++made").replace("bool added = false", "int made = 0")), (R, "        return added;", "        return made != 0;")),
    ("same", REG, (R, ADD, ADD.replace("added = true", "++made").replace("bool added = false", "int made = 0")), (R, "        return added;", "        return made > 0;")),
    ("same", REG, (R, ADD, ADD.replace("added = true", "++made").replace("bool added = false", "int made = 0")), (R, "        return added;", "        return made == 1;")),
    ("same", REG, R, THX, "{\n        const std::string wanted = metric->metric_type();\n        throw metric_type_mismatch(l.type(), wanted);\n    }"),
    ("same", REG, R, "    if (l.type() != mtype)\n        " + THR, "    std::string have = l.type();\n    if (have == mtype)\n        return static_cast<registered_metric<TMetricType>&>(l);\n    throw metric_type_mismatch(std::move(have), mtype);"),
    ("same", REG, (R, "            existing_(std::move(existing_type)),\n            desired_(std::move(desired_type))", "            desired_(desired_type),\n            existing_(existing_type)"), (R, "    std::string existing_;\n    std::string desired_;\npublic:", "    std::string desired_;\n    std::string existing_;\npublic:")),
    ("same", REG, R, "    auto& l = repo_.get_or_add(name, [tn = metric->metric_type()]() { return std::make_unique<registered_metric<TMetric>>(tn); });\n    if (l.type() != metric->metric_type())\n        " + THX,
     "    const auto wanted = metric->metric_type();\n    auto& l = repo_.get_or_add(name, [&wanted]() { return std::make_unique<registered_metric<TMetric>>(wanted); });\n    if (l.type() != wanted)\n        throw metric_type_mismatch(l.type(), wanted);"),
    ("same", REG, R, CALL, "        this->child(tags, &metricbuilder);\n\n        return added;"),
]
T = "cxxmetrics/timer.hpp"
EDITS = [e for e in EDITS if "value_(0)" not in str(e) and "primitive_gauge<" not in str(e)] + [
    ("bug", "C01", C, "value_(initial_value)", "value_(0)"),
    ("bug", "C34", R, CALL, "        auto held = std::static_pointer_cast<TMetricType>(this->child(tags, &metricbuilder));\n\n        return added || held == metric;"),
    ("bug", "C34", R, CALL, "        return this->child(tags, &metricbuilder) != nullptr;"),
    ("same", REG, R, CALL, "        std::static_pointer_cast<TMetricType>(this->child(tags, &metricbuilder));\n\n        if (added)\n            return true;\n        return false;"),
    ("same", REG, R, CALL, "        auto held = this->child(tags, &metricbuilder);\n\n        return held && added;"),
    ("same", REG, R, CALL, "        std::static_pointer_cast<TMetricType>(this->child(tags, &metricbuilder));\n\n        return !added ? false : true;"),
]
