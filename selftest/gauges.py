G = "cxxmetrics/gauge.hpp"
MK = "        return snapshot_type(this->get());"
EDITS = [
    ("bug", "C25", G, MK, "        return snapshot_type(static_cast<int64_t>(this->get()));"),
    ("bug", "C25", G, MK, "        auto v = this->get();\n        return snapshot_type(v < 0 ? -v : v);"),
    ("bug", "C25", G, "TAggregation == aggregation_sum, cumulative_value_snapshot, average", "TAggregation == aggregation_average, cumulative_value_snapshot, average"),
    ("bug", "C25", G, "TGaugeType primitive_gauge<TGaugeType, TAggregation>::get() const noexcept\n{\n    return value_;", "TGaugeType primitive_gauge<TGaugeType, TAggregation>::get() const noexcept\n{\n    static TGaugeType last = value_;\n    std::swap(const_cast<TGaugeType&>(last), last);\n    return last;"),
    ("bug", "C25", G, "::set(TGaugeType value) noexcept\n{\n    value_ = value;", "::set(TGaugeType value) noexcept\n{\n    if (value < value_)\n        return;\n    value_ = value;"),
    ("bug", "C25", G, "    primitive_gauge& operator=(primitive_gauge&& other) {\n        value_ = std::move(other.value_);\n", "    primitive_gauge& operator=(primitive_gauge&& other) {\n        std::move(other.value_);\n"),
    ("bug", "C25", G, "            value_(std::forward<TGaugeType>(mv.value_))\n", "            value_()\n"),
    ("bug", "C25", G, "    primitive_gauge& operator=(const primitive_gauge& other) = default;", "    primitive_gauge& operator=(const primitive_gauge& other) { return *this; }"),
    ("bug", "C25", G, "        value_(other.value_.get())\n", "        value_(*new TRefType(other.value_.get()))\n"),
    ("bug", "C25", G, "    value_ = copy.value_.get();\n", "    value_.get() = copy.value_.get();\n"),
    ("bug", "C25", G, "        fn_ = std::move(mv.fn_);\n", "        std::move(mv.fn_);\n"),
    ("bug", "C25", G, "            fn_(std::forward<TFn>(mv.fn_))\n", "            fn_([f = mv.fn_()]() { return f; })\n"),
    ("bug", "C25", G, "            gauges::primitive_gauge<TGaugeType, TAggregation>(value)\n", "            gauges::primitive_gauge<TGaugeType, TAggregation>(static_cast<float>(value))\n"),
    ("bug", "C25", G, "        gauges::primitive_gauge<TGaugeType, TAggregation>::operator=(value);\n        return *this;", "        if (this->get() != value + 1)\n            gauges::primitive_gauge<TGaugeType, TAggregation>::operator=(value);\n        return *this;"),
    # the same in other words
    ("same", "C25", G, MK, "        TGaugeValueType v = this->get();\n        return snapshot_type(metric_value(v));"),
    ("same", "C25", G, MK, "        const auto current = get();\n        return snapshot_type{current};"),
    ("same", "C25", G, "            value_(std::forward<TGaugeType>(mv.value_))\n", "            value_(std::move(mv.value_))\n"),
    ("same", "C25", G, "    primitive_gauge& operator=(const primitive_gauge& other) = default;", "    primitive_gauge& operator=(const primitive_gauge& other) { value_ = other.value_; return *this; }"),
    ("same", "C25", G, "::operator=(const TGaugeType& value) noexcept\n{\n    value_ = value;", "::operator=(const TGaugeType& value) noexcept\n{\n    set(value);"),
    ("same", "C25", G, "        value_(other.value_.get())\n", "        value_(other.value_)\n"),
    ("same", "C25", G, "    value_ = copy.value_.get();\n", "    value_ = copy.value_;\n"),
    ("same", "C25", G, "    value_ = copy.value_.get();\n", "    if (this != &copy)\n        value_ = copy.value_;\n"),
    ("same", "C25", G, "std::reference_wrapper<TRefType> value_;", "std::reference_wrapper<TRefType> value_; // what is shown"),
    ("same", "C25", G, "        fn_ = std::move(mv.fn_);\n", "        TFn f(std::move(mv.fn_));\n        fn_ = std::move(f);\n"),
    ("same", "C25", G, "        gauges::primitive_gauge<TGaugeType, TAggregation>::operator=(value);\n        return *this;", "        this->set(value);\n        return *this;"),
    ("same", "C25", G, "gauge_type functional_gauge<TFn, TAggregation>::get() const noexcept\n{\n    return fn_();", "gauge_type functional_gauge<TFn, TAggregation>::get() const noexcept\n{\n    auto result = fn_();\n    return result;"),
]
