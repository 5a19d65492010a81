S = "cxxmetrics/snapshots.hpp"
HM = """        values_.reserve(values_.size() + other.values_.size());
        for (std::size_t i = 0, n = other.values_.size(); i < n; ++i)
            values_.emplace_back(other.values_[i]);

        std::sort(values_.begin(), values_.end());
        count_ += other.count_;"""
AM = """        auto sb = samples_ * 1.0l;
        auto os = other.samples_ * 1.0l;
        auto s1 = samples_ + os;

        value_ = (metric_value(sb / s1) * value_) + (other.value() * metric_value(os / s1));
        samples_ = s1;"""
MM = """            auto& other_rate = fnd->second;
            auto sb = this->samples() * 1.0l;
            auto os = other.samples() * 1.0l;
            auto s1 = this->samples() + os;

            pair.second = (metric_value(sb / s1) * pair.second) + (other_rate * metric_value(os / s1));
        }
        // this will bump samples
        average_value_snapshot::merge(other);"""
MML = """        for (auto& pair : rates_)
        {
            auto fnd = other.rates_.find(pair.first);
            if (fnd == other.rates_.end())
                continue;
"""
TM = """        histogram_snapshot::merge(other);
        meter_.merge(other.meter_);"""
FILLA = """    for (; at < count; ++at)
        values_.emplace_back(a[at]);

    std::sort(values_.begin(), values_.end());"""
EDITS = [
    ("bug", "C24,C05", S, HM, HM.replace("        std::sort(values_.begin(), values_.end());\n", "")),
    ("bug", "C24,C05", S, HM, HM.replace("std::sort(values_.begin(), values_.end());", "std::sort(values_.begin(), values_.end(), [](const metric_value& a, const metric_value& b) { return b < a; });")),
    ("bug", "C24,C05", S, HM, HM.replace("std::sort(values_.begin(), values_.end());", "if (!other.values_.empty() && values_.front() < other.values_.front())\n            std::sort(values_.begin(), values_.end());")),
    ("bug", "C24,C05", S, HM, HM.replace("std::sort(values_.begin(),", "std::sort(values_.begin() + 1,")),
    ("bug", "C24,C05", S, HM, HM.replace("for (std::size_t i = 0,", "for (std::size_t i = 1,")),
    ("bug", "C24,C05", S, HM, HM.replace("i < n; ++i)", "i < n && values_.size() < 4096; ++i)")),
    ("bug", "C24,C05", S, HM, HM.replace("i < n; ++i)", "i < n; i += 2)")),
    ("bug", "C24,C05", S, HM, HM.replace("other.values_[i]);", "other.values_[i] == values_[0] ? values_[0] : other.values_[0]);")),
    ("bug", "C24,C05", S, HM, HM.replace("count_ += other.count_;", "count_ = values_.size();")),
    ("bug", "C24,C05", S, HM, HM.replace("count_ += other.count_;", "count_ += other.values_.size();")),
    ("bug", "C24,C05", S, HM, HM.replace("        count_ += other.count_;", "        if (!other.values_.empty())\n            count_ += other.count_ + 1;")),
    ("bug", "C24,C05", S, HM, "        if (other.values_.empty())\n            return;\n" + HM),
    ("bug", "C24", S, AM, AM.replace("samples_ = s1;", "samples_ = samples_ + 1;")),
    ("bug", "C24", S, AM, AM.replace("samples_ = s1;", "samples_ = other.samples_;")),
    ("bug", "C24", S, AM, AM.replace("        samples_ = s1;", "")),
    ("bug", "C24", S, AM, AM.replace("(metric_value(sb / s1) * value_)", "(metric_value(os / s1) * value_)")),
    ("bug", "C24", S, AM, AM.replace("metric_value(os / s1)", "metric_value(1.0l / s1)")),
    ("bug", "C24", S, AM, "        if (value_ == other.value_)\n            return;\n" + AM),
    ("bug", "C24", S, MM, MM.replace("metric_value(os / s1)", "metric_value(1.0l / s1)")),
    ("bug", "C24", S, MM, """            auto& other_rate = fnd->second;
            auto sb = this->samples() * 1.0l;
            auto os = other.samples() * 1.0l;
            auto s1 = this->samples() + os;

            pair.second = (metric_value(sb / s1) * pair.second) + (other_rate * metric_value(os / s1));
        }"""),
    ("bug", "C24", S, MML, "        average_value_snapshot::merge(other);\n" + MML),
    ("bug", "C24", S, MML, MML.replace("                continue;", "                return;")),
    ("bug", "C24", S, MML, MML.replace("                continue;", "                break;")),
    ("bug", "C24", S, MML, MML.replace("other.rates_.find(pair.first)", "other.rates_.begin()")),
    ("bug", "C24", S, MML, MML.replace("for (auto& pair : rates_)", "for (auto pair : rates_)")),
    ("bug", "C24", S, TM, TM.replace("meter_.merge(other.meter_);", "")),
    ("bug", "C24", S, TM, TM.replace("histogram_snapshot::merge(other);", "reservoir_snapshot::size();")),
    ("bug", "C24", S, TM, TM + "\n        if (other.count() == 1)\n            meter_.merge(other.meter_);"),
    ("bug", "C24", S, "        value_ += other.value_;", "        value_ = value_ + value_;"),
    ("bug", "C24", S, "        value_ += other.value_;", "        if (value() < other.value_)\n            value_ = other.value();\n        else\n            value_ += other.value_;"),
    ("bug", "C05", S, FILLA, FILLA.replace("    std::sort(values_.begin(), values_.end());", "    if (count > 2)\n        std::sort(values_.begin(), values_.end());")),
    ("bug", "C05", S, FILLA, FILLA.replace("    std::sort(values_.begin(), values_.end());", "    std::partial_sort(values_.begin(), values_.begin() + values_.size() / 2, values_.end());")),
    ("bug", "C05", S, FILLA, FILLA.replace("    std::sort(values_.begin(), values_.end());", "    if (a[0] < a[count - 1])\n        return;\n    std::sort(values_.begin(), values_.end());")),
    # the same in other words
    ("same", "C24,C05,C31", S, HM, """        count_ = other.count_ + count_;
        for (const auto& v : other.values_)
            values_.push_back(v);

        std::stable_sort(values_.begin(), values_.end());"""),
    ("same", "C24,C05,C31", S, HM, """        const auto middle = values_.size();
        values_.reserve(middle + other.values_.size());
        for (std::size_t i = 0, n = other.values_.size(); i < n; ++i)
            values_.emplace_back(other.values_[i]);

        std::inplace_merge(values_.begin(), values_.begin() + middle, values_.end());
        count_ += other.count_;"""),
    ("same", "C24,C05,C31", S, HM, """        std::vector<metric_value> all(values_);
        for (std::size_t i = 0; i != other.values_.size(); i++)
            all.push_back(other.values_[i]);
        std::sort(all.begin(), all.end());
        values_.swap(all);
        count_ += other.count_;"""),
    ("same", "C24,C05,C31", S, HM, """        take(other.values_);
        count_ += other.count_;
    }

    void take(const std::vector<metric_value>& more)
    {
        values_.reserve(values_.size() + more.size());
        for (const metric_value& v : more)
            values_.emplace_back(v);
        std::sort(values_.begin(), values_.end());"""),
    ("same", "C24,C05,C31", S, HM, HM.replace("std::sort(values_.begin(), values_.end());", "std::sort(values_.begin(), values_.end(), std::less<metric_value>());")),
    ("same", "C24,C05,C31", S, HM, HM.replace("std::sort(values_.begin(), values_.end());", "std::sort(values_.begin(), values_.end(), [](const metric_value& a, const metric_value& b) { return a < b; });")),
    ("same", "C24", S, AM, """        const long double mine = samples_;
        const long double theirs = other.samples_;
        const long double all = mine + theirs;

        value_ = (value_ * metric_value(mine / all)) + (metric_value(theirs / all) * other.value_);
        samples_ += other.samples_;"""),
    ("same", "C24", S, AM, """        const auto total = samples_ + other.samples_;
        auto ratio = [total](uint64_t n) { return metric_value(n * 1.0l / total); };

        value_ = (ratio(samples_) * value_) + (other.value() * ratio(other.samples_));
        samples_ = total;"""),
    ("same", "C24", S, MM, """            pair.second = weighted(pair.second, this->samples(), fnd->second, other.samples());
        }
        // this will bump samples
        average_value_snapshot::merge(other);
    }

private:
    static metric_value weighted(const metric_value& a, uint64_t na, const metric_value& b, uint64_t nb)
    {
        const long double n = static_cast<long double>(na) + nb;
        return (metric_value(na / n) * a) + (metric_value(nb / n) * b);"""),
    ("same", "C24", S, MML, """        for (auto itr = rates_.begin(); itr != rates_.end(); ++itr)
        {
            auto& pair = *itr;
            auto fnd = other.rates_.find(pair.first);
            if (other.rates_.end() == fnd)
                continue;
"""),
    ("same", "C24", S, TM, """        meter_.merge(other.meter_);
        histogram_snapshot::merge(other);"""),
    ("same", "C24", S, TM, """        meter_.merge(other.rate());
        this->histogram_snapshot::merge(static_cast<const histogram_snapshot&>(other));"""),
    ("same", "C24", S, "        value_ += other.value_;", "        value_ = value_ + other.value();"),
    ("same", "C05,C31,C03,C32", S, FILLA, """    for (const TElem* end = a + count; a != end; ++a)
        values_.emplace_back(*a);

    std::sort(values_.begin(), values_.end());"""),
    ("same", "C05,C31,C03,C32", S, FILLA, """    while (at < count)
        values_.push_back(metric_value(a[at++]));

    std::sort(std::begin(values_), std::end(values_));"""),
]
