"""C04: snapshots that are moved"""
F = "cxxmetrics/snapshots.hpp"
EDITS = [
    ("bug", "C04", F, "meter_(std::move(other.meter_))\n", "meter_(std::move(meter_))\n"),
    ("bug", "C04", F, "        meter_ = std::move(other.meter_);\n", ""),
    ("bug", "C04", F, "        count_ = other.count_;\n", ""),
    ("bug", "C04", F, "            count_(other.count_)\n", "            count_(count_)\n"),
    ("bug", "C04", F, "            count_(other.count_)\n", "            count_(other.size())\n"),
    ("bug", "C04", F, "        rates_ = std::move(other.rates_);\n", "        rates_.clear();\n"),
    ("bug", "C04", F, "        rates_ = std::move(other.rates_);\n", ""),
    ("bug", "C04", F, "            rates_(std::move(other.rates_))\n", "            rates_()\n"),
    ("bug", "C04", F, "        samples_ = other.samples_;\n", ""),
    ("bug", "C04", F, "            samples_(other.samples_)\n", "            samples_(1)\n"),
    ("bug", "C04", F, "        reservoir_snapshot::operator=(std::move(other));\n        count_", "        count_"),
    ("bug", "C04", F, "    values_ = std::move(other.values_);\n    return *this;", "    return *this;"),
    ("bug", "C04", F, "        histogram_snapshot::operator=(std::move(other));\n        meter_", "        reservoir_snapshot::operator=(std::move(other));\n        meter_"),
    ("bug", "C04", F, "        value_ = std::move(other.value_);\n        return *this;", "        return *this;"),
    ("bug", "C04", F, "            histogram_snapshot(std::move(other)),\n", "            histogram_snapshot(std::move(other), other.size()),\n"),
    ("same", "all", F, """    timer_snapshot(timer_snapshot&& other) noexcept :
            histogram_snapshot(std::move(other)),
            meter_(std::move(other.meter_))
    { }

    timer_snapshot& operator=(timer_snapshot&& other)
    {
        histogram_snapshot::operator=(std::move(other));
        meter_ = std::move(other.meter_);
        return *this;
    }
""", """    timer_snapshot(timer_snapshot&& other) = default;
    timer_snapshot& operator=(timer_snapshot&& other) = default;
"""),
    ("same", "all", F, """    histogram_snapshot(histogram_snapshot&& other) :
            reservoir_snapshot(std::move(other)),
            count_(other.count_)
    { }

    histogram_snapshot& operator=(histogram_snapshot&& other)
    {
        reservoir_snapshot::operator=(std::move(other));
        count_ = other.count_;
        return *this;
    }
""", """    histogram_snapshot(histogram_snapshot&& other) = default;
    histogram_snapshot& operator=(histogram_snapshot&& other) = default;
"""),
    ("same", "all", F, """    meter_snapshot(meter_snapshot&& other) :
            average_value_snapshot(std::move(other)),
            rates_(std::move(other.rates_))
    { }

    meter_snapshot& operator=(meter_snapshot&& other)
    {
        average_value_snapshot::operator=(std::move(other));
        rates_ = std::move(other.rates_);
        return *this;
    }
""", """    meter_snapshot(meter_snapshot&& other) = default;
    meter_snapshot& operator=(meter_snapshot&& other) = default;
"""),
    ("same", "all", F, """    average_value_snapshot(average_value_snapshot&& other) noexcept :
            value_snapshot(std::move(other)),
            samples_(other.samples_)
    { }

    average_value_snapshot& operator=(average_value_snapshot&& other)
    {
        value_snapshot::operator=(std::move(other));
        samples_ = other.samples_;
        return *this;
    }
""", """    average_value_snapshot(average_value_snapshot&& other) noexcept = default;
    average_value_snapshot& operator=(average_value_snapshot&& other) = default;
"""),
    ("same", "all", F, "    values_ = std::move(other.values_);\n    return *this;", "    values_.swap(other.values_);\n    return *this;"),
    ("same", "all", F, "    values_ = std::move(other.values_);\n    return *this;", "    std::swap(values_, other.values_);\n    return *this;"),
    ("same", "all", F, "    values_ = std::move(other.values_);\n    return *this;", "    if (this != &other)\n        values_ = std::move(other.values_);\n    return *this;"),
    ("same", "all", F, "        rates_ = std::move(other.rates_);\n", "        std::swap(rates_, other.rates_);\n"),
    ("same", "all", F, "        rates_ = std::move(other.rates_);\n", "        rates_.swap(other.rates_);\n"),
    ("same", "all", F, "        rates_ = std::move(other.rates_);\n", "        auto taken = std::move(other.rates_);\n        rates_ = std::move(taken);\n"),
    ("same", "all", F, """        reservoir_snapshot::operator=(std::move(other));
        count_ = other.count_;
        return *this;""", """        const auto counted = other.count_;
        static_cast<reservoir_snapshot&>(*this) = std::move(other);
        count_ = counted;
        return *this;"""),
    ("bug", "C04", F, "        rates_ = std::move(other.rates_);\n", "        auto taken = std::move(other.rates_);\n        taken.clear();\n        rates_ = std::move(taken);\n"),
    ("bug", "C04", F, "        rates_ = std::move(other.rates_);\n", "        auto taken = rates_;\n        rates_ = std::move(taken);\n"),
    ("same", "all", F, "        value_ = std::move(other.value_);\n        return *this;", "        if (this == &other)\n            return *this;\n        value_ = metric_value(other.value_);\n        return *this;"),
    ("same", "all", F, "            value_(std::move(other.value_))\n    { }", "            value_(metric_value(0))\n    {\n        value_ = std::move(other.value_);\n    }"),
    ("same", "all", F, "            rates_(std::move(other.rates_))\n    { }", "            rates_()\n    {\n        rates_ = std::move(other.rates_);\n    }"),
    ("same", "all", F, "        values_(std::move(other.values_))\n{ }", "        values_()\n{\n    values_.swap(other.values_);\n}"),
]
