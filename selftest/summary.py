S = "cxxmetrics/snapshots.hpp"
INTERP = "        return values_[index - 1] + metric_value((pos - index) * static_cast<long double>(values_[index] - values_[index - 1]));"
MEAN = """        metric_value total = values_[0];

        // should we worry about overflow here?
        for (std::size_t i = 1; i < values_.size(); i++)
        {
            auto vs = i + 1.0l;
            long double eratio = i / vs;
            long double nratio = 1.0l / vs;
            total = (total * metric_value(eratio)) + (values_[i] * metric_value(nratio));
        }

        return total;"""
FILL = """    for (; begin != end && at < size; ++begin, ++at)
        values_.emplace_back(*begin);

    std::sort(values_.begin(), values_.end());"""
FILLA = """    std::size_t at = 0;
    for (; at < count; ++at)
        values_.emplace_back(a[at]);

    std::sort(values_.begin(), values_.end());"""
SAMP = """            hnd(values_[index - 1] +
                    metric_value(
                        (pos - static_cast<double>(index)) *
                        static_cast<long double>(values_[index] - values_[index - 1])),
                pos * 100 / static_cast<long double>(values_.size() + 1));"""
CLAMP = """        if (index < 1)
            return min();
        if (static_cast<std::size_t>(index) >= values_.size())
            return max();
"""
EDITS = [
    ("bug", "C31,C05", S, "        auto pos = q * (values_.size() + 1);\n        auto index = static_cast<int64_t>(pos);", "        auto pos = q * values_.size();\n        auto index = static_cast<int64_t>(pos);"),
    ("bug", "C31,C05", S, "        auto pos = q * (values_.size() + 1);\n        auto index = static_cast<int64_t>(pos);", "        auto pos = q * (values_.size() - 1) + 1;\n        auto index = static_cast<int64_t>(pos);"),
    ("bug", "C31", S, CLAMP, CLAMP.replace("index < 1", "index < 2")),
    ("bug", "C31", S, CLAMP, CLAMP.replace("(index) >=", "(index) + 1 >=")),
    ("bug", "C31", S, INTERP, INTERP.replace("return values_[index - 1]", "return values_[index]")),
    ("bug", "C31", S, INTERP, INTERP.replace("pos - index", "1 + index - pos")),
    ("bug", "C31", S, INTERP, INTERP.replace("static_cast<long double>(values", "static_cast<int64_t>(values")),
    ("bug", "C31", S, INTERP, INTERP.replace("(pos - index)", "0.5l")),
    ("bug", "C31", S, INTERP, "        return values_[index - 1];"),
    ("bug", "C31", S, INTERP, "        return metric_value(static_cast<int64_t>(values_[index - 1])) + metric_value((pos - index) * static_cast<long double>(values_[index] - values_[index - 1]));"),
    ("bug", "C31", S, "auto vs = i + 1.0l;", "auto vs = i + 2.0l;"),
    ("bug", "C31", S, "for (std::size_t i = 1; i < values_.size(); i++)", "for (std::size_t i = 1; i + 1 < values_.size(); i++)"),
    ("bug", "C31", S, "total = (total * metric_value(eratio)) + (values_[i] * metric_value(nratio));", "total = (total + values_[i]) * metric_value(0.5l);"),
    ("bug", "C31", S, "long double eratio = i / vs;", "long double eratio = static_cast<std::size_t>(i / vs);"),
    ("bug", "C31", S, SAMP, SAMP.replace("pos * 100 / static_cast<long double>(values_.size() + 1)", "pos * 100 / static_cast<long double>(values_.size())")),
    ("bug", "C31", S, SAMP, SAMP.replace("pos - static_cast<double>(index)", "pos - static_cast<double>(index - 1)")),
    ("bug", "C31", S, "            long double q = q_proportion * (i + 1);", "            long double q = q_proportion;"),
    ("bug", "C31", S, "return values_.empty() ? metric_value(std::numeric_limits<int64_t>::max()) : values_[values_.size()-1];", "return values_.empty() ? metric_value(std::numeric_limits<int64_t>::max()) : values_[values_.size() / 2];"),
    ("bug", "C31", S, FILL, FILL.replace("at < size", "at + 1 < size")),
    ("bug", "C31", S, FILLA, FILLA.replace("std::size_t at = 0", "std::size_t at = count > 3 ? 1 : 0")),
    ("same", "C31,C05", S, MEAN, "        metric_value total = values_[0];\n        for (std::size_t i = 1; i < values_.size(); i++)\n            total = total + values_[i];\n        return total * metric_value(1.0l / values_.size());"),
    ("same", "C31,C05", S, MEAN, "        metric_value total(0.0l);\n        std::size_t n = 0;\n        for (const auto& v : values_)\n        {\n            const long double share = 1.0l / ++n;\n            total = total * metric_value(1 - share) + v * metric_value(share);\n        }\n        return total;"),
    ("same", "C31,C05", S, INTERP, "        const metric_value& low = values_[index - 1];\n        const auto step = static_cast<long double>(values_[index] - low);\n        return low + metric_value(step * (pos - index));"),
    ("same", "C31,C05", S, CLAMP, "        if (static_cast<std::size_t>(index) >= values_.size() && index >= 1)\n            return max();\n        if (index <= 0)\n            return min();\n"),
    ("same", "C31,C05", S, CLAMP + "\n" + INTERP, """        if (index >= 1 && static_cast<std::size_t>(index) < values_.size())
        {
            const auto fraction = pos - index;
            return values_[index - 1] + metric_value(fraction * static_cast<long double>(values_[index] - values_[index - 1]));
        }
        return index < 1 ? min() : max();"""),
    ("same", "C31,C05", S, FILL, "    while (begin != end && at != size)\n    {\n        values_.push_back(metric_value(*begin));\n        ++begin;\n        ++at;\n    }\n\n    std::stable_sort(values_.begin(), values_.end());"),
    ("same", "C31,C05", S, FILLA, "    values_.insert(values_.end(), a, a + count);\n    std::sort(values_.begin(), values_.end());"),
    ("same", "C31,C05", S, FILLA, "    values_.assign(a, a + count);\n    std::sort(std::begin(values_), std::end(values_));"),
    ("same", "C31,C05", S, FILLA, "    for (const TElem* p = a; p != a + count; ++p)\n        values_.emplace_back(*p);\n\n    std::sort(values_.begin(), values_.end(), [](const metric_value& l, const metric_value& r) { return l < r; });"),
    ("same", "C31,C05", S, SAMP, "            const auto fraction = pos - index;\n            const auto step = static_cast<long double>(values_[index] - values_[index - 1]);\n            const auto percent = q * 100;\n            hnd(values_[index - 1] + metric_value(fraction * step), percent);"),
    ("same", "C31,C05", S, "        for (std::size_t i = 0; i < max_to_visit; i++) {\n            long double q = q_proportion * (i + 1);", "        for (std::size_t i = 1; i <= max_to_visit; i++) {\n            long double q = q_proportion * i;"),
    ("same", "C31,C05", S, "        auto pos = q * (values_.size() + 1);\n        auto index = static_cast<int64_t>(pos);", "        const auto n = values_.size();\n        const long double pos = q * n + q;\n        const auto index = static_cast<int64_t>(std::floor(pos));"),
    ("same", "C31,C05", S, "        constexpr auto q = ((long double)quantile(TQuantile))/100.0;", "        constexpr long double q = quantile(TQuantile).percentile() / 100;"),
    ("same", "C31,C05", S, "return values_.empty() ? metric_value(std::numeric_limits<int64_t>::min()) : values_[0];", "if (values_.empty())\n            return metric_value(std::numeric_limits<int64_t>::min());\n        return values_.front();"),
    ("same", "C31,C05", S, "    values_.reserve(count);\n\n", ""),
    # sizes far from those of the drivers
    ("bug", "C31", S, "            auto vs = i + 1.0l;", "            auto vs = static_cast<unsigned char>(i) + 1.0l;"),
    ("bug", "C31,C05", S, "        auto index = static_cast<int64_t>(pos);", "        auto index = static_cast<int64_t>(static_cast<int16_t>(pos));"),
    ("bug", "C31,C05", S, "        auto pos = q * (values_.size() + 1);\n        auto index = static_cast<int64_t>(pos);", "        auto pos = q * (static_cast<uint16_t>(values_.size()) + 1);\n        auto index = static_cast<int64_t>(pos);"),
    ("bug", "C31", S, "for (std::size_t i = 1; i < values_.size(); i++)", "for (std::size_t i = 1; i < values_.size() && i < 1000; i++)"),
    ("bug", "C31", S, "pos * 100 / static_cast<long double>(values_.size() + 1));\n        }", "pos * 100 / static_cast<long double>(static_cast<uint8_t>(values_.size()) + 1));\n        }"),
    ("same", "C31,C05", S, MEAN, """        metric_value total = values_[0];
        for (std::size_t i = 1; i != values_.size(); ++i)
        {
            const long double n = i + 1;
            total = (total * metric_value(i / n)) + (values_[i] * metric_value(1 / n));
        }

        return total;"""),
    ("same", "C31,C05", S, MEAN, """        metric_value total = values_[0];
        long double n = 1;
        for (auto itr = values_.begin() + 1; itr != values_.end(); ++itr)
        {
            total = (total * metric_value(n / (n + 1))) + (*itr * metric_value(1 / (n + 1)));
            n += 1;
        }

        return total;"""),
    ("same", "C31,C05", S, MEAN, """        metric_value total = values_[0];
        std::size_t n = 1;
        while (n < values_.size())
        {
            const metric_value& next = values_[n++];
            total = (total * metric_value((n - 1) / static_cast<long double>(n))) + (next * metric_value(1.0l / n));
        }

        return total;"""),
    ("same", "C31,C05", S, MEAN, """        const auto weigh = [](const metric_value& v, long double a, long double b) { return v * metric_value(a / b); };
        metric_value total = values_[0];
        for (std::size_t i = 1; i < values_.size(); i++)
            total = weigh(total, i, i + 1) + weigh(values_[i], 1, i + 1);

        return total;"""),
]
