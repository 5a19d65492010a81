from prometheus import W, C, G, M, H, T, P, B, O, CROW

FW = """    if (time >= 1h && time % 1h == time.zero())
    {
        into << std::chrono::duration_cast<std::chrono::hours>(time).count() << "hr";
        return into;
    }
    if (time >= 1min && time % 1min == time.zero())
    {
        into << std::chrono::duration_cast<std::chrono::minutes>(time).count() << "min";
        return into;
    }
    if (time >= 1s && time % 1s == time.zero())
    {
        into << std::chrono::duration_cast<std::chrono::seconds>(time).count() << "sec";
        return into;
    }
    if (time >= 1ms && time % 1ms == time.zero())
    {
        into << std::chrono::duration_cast<std::chrono::milliseconds>(time).count() << "msec";
        return into;
    }
    if (time >= 1us && time % 1us == time.zero())
    {
        into << std::chrono::duration_cast<std::chrono::microseconds>(time).count() << "usec";
        return into;
    }

    into << std::chrono::duration_cast<std::chrono::nanoseconds>(time).count() << "nsec";
    return into;
"""
SV = """    const std::string text = value;
    if (text.find_first_not_of("+-.0123456789eEinftyaINFTYA") != std::string::npos || std::isnan(static_cast<long double>(value)))
        return cxxmetrics::metric_value(std::numeric_limits<double>::quiet_NaN());
    return std::move(value);
"""
SC = """    auto sample = sample_value(std::move(value));
    if (opts.scale())
        return sample_value(sample * cxxmetrics::metric_value(opts.scale().factor()));
    return sample;
"""
RATES = """            if (options.timer_options().include_mean())
                stream << internal::name(path) << ":rates{" << "window=\\"mean\\"" << comma << internal::tags(tags) << "} " << internal::scale_value(snapshot.rate().value(), options.timer_options()) << "\\n";
"""
EDITS = [
    # scale
    (B, "C22", W, "    if (opts.scale())\n        return sample_value(sample * cxxmetrics::metric_value(opts.scale().factor()));\n", ""),
    (B, "C22", W, "sample * cxxmetrics::metric_value(opts.scale().factor())", "sample * cxxmetrics::metric_value(opts.scale().factor()) * cxxmetrics::metric_value(opts.scale().factor())"),
    (B, "C22", W, "sample * cxxmetrics::metric_value(opts.scale().factor())", "sample / cxxmetrics::metric_value(opts.scale().factor())"),
    (B, "C22", W, "sample * cxxmetrics::metric_value(opts.scale().factor())", "sample + cxxmetrics::metric_value(opts.scale().factor())"),
    (B, "C22", W, "    if (opts.scale())\n", "    if (!opts.scale())\n"),
    (B, "C22", W, "+-.0123456789eEinftyaINFTYA", "+-.0123456789"),
    (B, "C22", W, "+-.0123456789eEinftyaINFTYA", "+.0123456789eEinftyaINFTYA"),
    (B, "C22", G, "internal::scale_value(snapshot.value(), options.value_options())", "internal::sample_value(snapshot.value())"),
    (B, "C22", G, "options.value_options())", "options.meter_options())"),
    (B, "C22", C, "options.value_options())", "options.histogram_options())"),
    (B, "C22", H, "internal::scale_value(snapshot.count(), options.histogram_options())", "internal::scale_value(snapshot.count(), options.timer_options())"),
    (B, "C22", H, "internal::scale_value(snapshot.mean(), options.histogram_options())", "internal::sample_value(snapshot.mean())"),
    (B, "C22", T, "internal::scale_value(snapshot.rate().value(), options.timer_options())", "internal::scale_value(snapshot.rate().value(), options.meter_options())"),
    (B, "C22", T, "internal::scale_value(cxxmetrics::metric_value(window.second), options.timer_options())", "internal::scale_value(cxxmetrics::metric_value(window.second), options.meter_options())"),
    # what is written
    (B, "C22", H, "        if (options.histogram_options().include_count())\n    ", "    "),
    (B, "C22", H, "if (options.histogram_options().include_count())", "if (options.timer_options().include_count())"),
    (B, "C22", H, "if (options.histogram_options().include_count())", "if (!options.histogram_options().include_count())"),
    (B, "C22", H, "options.histogram_options().quantiles()->visit", "options.timer_options().quantiles()->visit"),
    (B, "C22", H, "_mean{", "_count{"),
    (B, "C22", H, "snapshot.mean()", "snapshot.max()"),
    (B, "C22", H, "snapshot.count()", "snapshot.mean()"),
    (B, "C22", H, "(q.percentile() / 100.0)", "(q.percentile() / 10.0)"),
    (B, "C22", H, "(q.percentile() / 100.0)", "0.5"),
    (B, "C22", M, "        if (options.meter_options().include_mean())\n    ", "    "),
    (B, "C22", M, "options.meter_options().include_mean()", "options.timer_options().include_mean()"),
    (B, "C22", M, "        for (const auto& window : snapshot)\n            stream", "        for (const auto& window : snapshot)\n            if (window.first.count() > 1000000000) stream"),
    (B, "C22", M, "cxxmetrics::metric_value(window.second)", "snapshot.value()"),
    (B, "C22", T, "        if (options.timer_options().include_rates())\n", ""),
    (B, "C22", T, "options.timer_options().include_rates()", "options.timer_options().include_mean()"),
    (B, "C22", T, "            if (options.timer_options().include_mean())\n    ", "    "),
    (B, "C22", T, "            if (options.timer_options().include_mean())\n    ", "            if (options.meter_options().include_mean())\n    "),
    (B, "C22", T, "internal::scale_value(snapshot.rate().value()", "internal::scale_value(snapshot.mean()"),
    (B, "C22", T, "for (const auto& window : snapshot.rate())", "for (auto i = ++snapshot.rate().begin(); i != snapshot.rate().end(); ++i) for (const auto& window : { *i })"),
    (B, "C22", T, "std::chrono::duration_cast<std::chrono::microseconds>(snapshot.mean())", "snapshot.mean()"),
    (B, "C22", T, "std::chrono::duration_cast<std::chrono::microseconds>(value)", "std::chrono::duration_cast<std::chrono::milliseconds>(value)"),
    (B, "C22", T, "std::chrono::duration_cast<std::chrono::microseconds>(snapshot.mean())", "std::chrono::duration_cast<std::chrono::milliseconds>(snapshot.mean())"),
    (B, "C22", P, "this->effective_options(metric)", "cxxmetrics::publish_options()"),
    (B, "C22", G, "internal::tags(tags)", "internal::tags(cxxmetrics::tag_collection())"),
    # labels of windows
    (B, "C23", W, "time >= 1h && time % 1h == time.zero()", "time >= 1h"),
    (B, "C23", W, "time % 1min == time.zero()", "time % 1s == time.zero()"),
    (B, "C23", W, "time % 1us == time.zero()", "time % 1us != time.zero()"),
    (B, "C23", W, '"msec"', '"sec"'),
    (B, "C23", W, '"usec"', '"msec"'),
    (B, "C23", W, "std::chrono::duration_cast<std::chrono::minutes>(time).count() << \"min\"", "std::chrono::duration_cast<std::chrono::seconds>(time).count() << \"min\""),
    (B, "C23", W, "std::chrono::duration_cast<std::chrono::nanoseconds>(time).count() << \"nsec\"", "std::chrono::duration_cast<std::chrono::microseconds>(time).count() << \"nsec\""),
    (B, "C23", W, "std::chrono::duration_cast<std::chrono::nanoseconds>(time).count() << \"nsec\"", "std::chrono::duration_cast<std::chrono::microseconds>(time).count() << \"usec\""),
    (B, "C23", W, "std::chrono::duration_cast<std::chrono::nanoseconds>(time).count() << \"nsec\"", "static_cast<int>(std::chrono::duration_cast<std::chrono::nanoseconds>(time).count()) << \"nsec\""),
    (B, "C23", W, "std::chrono::duration_cast<std::chrono::seconds>(time).count() << \"sec\"", "static_cast<float>(std::chrono::duration_cast<std::chrono::seconds>(time).count()) << \"sec\""),
    (B, "C23", M, "internal::window(window.first)", "internal::window(std::chrono::duration_cast<std::chrono::seconds>(window.first))"),
    (B, "C23", T, "internal::window(window.first)", "internal::window(window.first + std::chrono::nanoseconds(1))"),
    # refactorings
    (O, "C21,C22,C23", W, FW, """    using namespace std::chrono;
    const auto ns = duration_cast<nanoseconds>(time).count();
    if (ns >= 3600000000000 && ns % 3600000000000 == 0)
        return into << ns / 3600000000000 << "hr";
    else if (ns >= 60000000000 && ns % 60000000000 == 0)
        return into << ns / 60000000000 << "min";
    else if (ns >= 1000000000 && ns % 1000000000 == 0)
        return into << ns / 1000000000 << "sec";
    else if (ns >= 1000000 && ns % 1000000 == 0)
        return into << ns / 1000000 << "msec";
    else if (ns >= 1000 && ns % 1000 == 0)
        return into << ns / 1000 << "usec";
    return into << ns << "nsec";
"""),
    (O, "C21,C22,C23", W, """template<typename TRep, typename TPer>
std::ostream& format_window""", """template<typename TUnit, typename TDuration>
bool format_unit(std::ostream& into, const TDuration& time, const char* unit)
{
    const auto whole = std::chrono::duration_cast<TUnit>(time);
    if (whole.count() < 1 || whole != time)
        return false;

    into << whole.count() << unit;
    return true;
}

template<typename TRep, typename TPer>
std::ostream& format_window"""),
    (O, "C21,C22,C23", (W, """template<typename TRep, typename TPer>
std::ostream& format_window""", """template<typename TUnit, typename TDuration>
bool format_unit(std::ostream& into, const TDuration& time, const char* unit)
{
    const auto whole = std::chrono::duration_cast<TUnit>(time);
    if (whole.count() < 1 || whole != time)
        return false;

    into << whole.count() << unit;
    return true;
}

template<typename TRep, typename TPer>
std::ostream& format_window"""), (W, FW, """    if (!format_unit<std::chrono::hours>(into, time, "hr") &&
            !format_unit<std::chrono::minutes>(into, time, "min") &&
            !format_unit<std::chrono::seconds>(into, time, "sec") &&
            !format_unit<std::chrono::milliseconds>(into, time, "msec") &&
            !format_unit<std::chrono::microseconds>(into, time, "usec"))
        into << std::chrono::duration_cast<std::chrono::nanoseconds>(time).count() << "nsec";

    return into;
""")),
    (O, "C21,C22,C23", W, FW, """    static const struct { long long ns; const char* unit; } units[] = {
            { 3600000000000, "hr" }, { 60000000000, "min" }, { 1000000000, "sec" }, { 1000000, "msec" }, { 1000, "usec" }
    };
    const auto ns = std::chrono::duration_cast<std::chrono::nanoseconds>(time).count();
    for (const auto& u : units)
    {
        if (ns >= u.ns && ns % u.ns == 0)
            return into << ns / u.ns << u.unit;
    }

    return into << ns << "nsec";
"""),
    (O, "C21,C22,C23", W, FW, """    auto count = std::chrono::duration_cast<std::chrono::nanoseconds>(time).count();
    const char* unit = "nsec";
    if (time >= 1us && time % 1us == time.zero())
    {
        count /= 1000;
        unit = "usec";
        if (count % 1000 == 0)
        {
            count /= 1000;
            unit = "msec";
            if (count % 1000 == 0)
            {
                count /= 1000;
                unit = "sec";
                if (count % 60 == 0)
                {
                    count /= 60;
                    unit = "min";
                    if (count % 60 == 0)
                    {
                        count /= 60;
                        unit = "hr";
                    }
                }
            }
        }
    }
    return into << count << unit;
"""),
    (O, "C21,C22,C23", W, SV, """    const std::string text = value;
    const bool number = text.find_first_not_of("0123456789+-.einftyaEINFTYA") == std::string::npos;
    if (!number)
        return cxxmetrics::metric_value(std::numeric_limits<double>::quiet_NaN());
    const auto as_float = static_cast<long double>(value);
    if (std::isnan(as_float))
        return cxxmetrics::metric_value(std::numeric_limits<double>::quiet_NaN());
    return cxxmetrics::metric_value(std::move(value));
"""),
    (O, "C21,C22,C23", W, SC, """    const auto& scale = opts.scale();
    auto sample = sample_value(std::move(value));
    if (!scale)
        return sample;
    cxxmetrics::metric_value factor(scale.factor());
    return sample_value(std::move(factor) * sample);
"""),
    (O, "C21,C22,C23", H, """        if (options.histogram_options().include_count())
            stream << internal::name(path)""", """        const auto& opts = options.histogram_options();
        const bool count = opts.include_count();
        if (count)
            stream << internal::name(path)"""),
    (O, "C21,C22,C23", M, "for (const auto& window : snapshot)\n", "for (auto i = snapshot.begin(); i != snapshot.end(); i++)\n"
     , 0) if False else (O, "C21,C22,C23", (M, "for (const auto& window : snapshot)\n            stream", "for (auto i = snapshot.begin(), e = snapshot.end(); i != e; ++i)\n        {\n            const auto& window = *i;\n            stream"), (M, 'cxxmetrics::metric_value(window.second), options.meter_options()) << "\\n";\n', 'cxxmetrics::metric_value(window.second), options.meter_options()) << "\\n";\n        }\n')),
    (O, "C21,C22,C23", T, "        if (options.timer_options().include_rates())\n        {\n", "        if (!options.timer_options().include_rates())\n            return;\n        {\n"),
    (O, "C21,C22,C23", T, RATES, """            const auto& rates = snapshot.rate();
            const auto& timer_opts = options.timer_options();
            if (timer_opts.include_mean())
            {
                stream << internal::name(path) << ":rates{";
                stream << "window=\\"mean\\"" << comma << internal::tags(tags) << "} ";
                auto mean = rates.value();
                stream << internal::scale_value(std::move(mean), timer_opts) << "\\n";
            }
"""),
    (B, "C22", T, "internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(snapshot.mean()), options.timer_options())", "internal::scale_value(std::chrono::microseconds(std::chrono::microseconds(snapshot.mean()).count()), options.timer_options())"),
    (O, "C21,C22,C23", T, """        stream << internal::name(path) << "_mean{" << internal::tags(tags) << "} " << internal::scale_value(std::chrono::duration_cast<std::chrono::microseconds>(snapshot.mean()), options.timer_options())""", """        const std::chrono::microseconds mean = snapshot.mean();
        stream << internal::name(path) << "_mean{" << internal::tags(tags) << "} " << internal::scale_value(mean, options.timer_options())"""),
    (O, "C21,C22,C23", (H, "        stream << internal::name(path) << \"_mean{\" <<", "        write_row(\"_mean\", tags, snapshot.mean());\n        if (false)\n            stream << internal::name(path) << \"_mean{\" <<"),
     (H, "    CXXMETRICS_PROMETHEUS_SNAPSHOT_WRITER_INIT\n", """    CXXMETRICS_PROMETHEUS_SNAPSHOT_WRITER_INIT
    void write_row(const char* suffix, const cxxmetrics::tag_collection& tags, cxxmetrics::metric_value&& value)
    {
        stream << internal::name(path) << suffix << '{' << internal::tags(tags) << "} " << internal::scale_value(std::move(value), options.histogram_options()) << "\\n";
    }
""")),
]
