M = "cxxmetrics/meter.hpp"
T = "cxxmetrics/meta.hpp"
EDITS = [
    ("bug", "C16", M, "            c->get_rate<TPeriod>().mark(value);\n            inner_.mark(c, value);", "            c->get_rate<TPeriod>().mark(value);\n            if (sizeof...(TPeriods) != 1) inner_.mark(c, value);"),
    ("bug", "C16", M, "            c->get_rate<TPeriod>().mark(value);\n            inner_.mark(c, value);", "            c->get_rate<TPeriod>().mark(value);\n            inner_.mark(c, 1);"),
    ("bug", "C16", M, "        total_ += by;", "        total_ += (by > 0 ? by : 0);"),
    ("bug", "C16", M, "        total_ += by;", "        total_ += 1;"),
    ("bug", "C16", M, "        rate_.mark(value);", "        rate_.mark((int32_t)value);"),
    ("bug", "C16", M, "    ewma<TClockGet, TWindow, TInterval, double> rate_;", "    ewma<TClockGet, TInterval, TWindow, double> rate_;"),
    ("bug", "C16", M, "result.emplace(rate.period, rate.rate);", "if (result.empty() || rate.rate != 0) result.emplace(rate.period, rate.rate);"),
    ("bug", "C16", M, "            fn(meter_rate(period(TCur).to_duration(), on.get_rate<TCur>()));\n            next.doeach(on, fn);", "            next.doeach(on, fn);\n            if (sizeof...(TPeriods)) return;\n            fn(meter_rate(period(TCur).to_duration(), on.get_rate<TCur>()));"),
    ("bug", "C16", M, "return { period(TAt), impl_.template get_rate<TAt>() };", "return { meter_rate(period(TAt).to_duration() * 2, 0).period, impl_.template get_rate<TAt>() };"),
    ("bug", "C16", M, "        static_assert(location >= 0, \"The specified time window isn't being tracked in this rate collection\");\n\n        return std::get<location>(rates_);", "        return std::get<(location < 0 ? 0 : location)>(rates_);"),
    ("bug", "C16", M, "        return (total_ * 1.0l) / units;", "        return (total_ * 1.0l) * units;"),
    ("bug", "C16", M, "        auto units = (since * 1.0l) / this->interval();", "        auto units = since / this->interval();"),
    ("same", "C16", M, "        if (start_.load() == clock_point{})\n        {", "        {"),
    ("bug", "C16", M, "            clock_point unset{};\n            start_.compare_exchange_strong(unset, this->now());", "            start_.store(this->now());", ),
    ("same", "C16", M, "            c->get_rate<TPeriod>().mark(value);\n            inner_.mark(c, value);", "            inner_.mark(c, value);\n            auto& r = c->get_rate<TPeriod>();\n            r.mark(value);"),
    ("same", "C16", M, "        total_ += by;", "        auto was = total_.load();\n        while (!total_.compare_exchange_weak(was, was + by)) { }"),
    ("same", "C16", M, "result.emplace(rate.period, rate.rate);", "result.insert(std::make_pair(rate.period, metric_value(rate.rate)));"),
    ("same", "C16", M, "result.emplace(rate.period, rate.rate);", "metric_value v(rate.rate);\n            result.emplace(std::make_pair(rate.period, std::move(v)));"),
    ("same", "C16", M, "        if (!units)\n            return (total_ * 1.0l);\n        return (total_ * 1.0l) / units;", "        const auto t = total_.load() * 1.0l;\n        return units ? t / units : t;"),
    ("same", "C16", M, "        _meter_impl_base<TClockGet, TInterval, TWindows...>::mark(by);\n        total_ += by;", "        total_.fetch_add(by);\n        this->rates_.mark(by);"),
]
