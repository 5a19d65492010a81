# edits someone tidying up might make: no check may say anything
R = "cxxmetrics/metrics_registry.hpp"
EDITS = [
    ("same", "all", R, """    auto existing = metrics_.find(name);

    if (existing == metrics_.end())
    {
        auto ptr = builder();
        return *metrics_.emplace(name, std::move(ptr)).first->second;
    }

    return *existing->second;""", """    auto existing = metrics_.find(name);
    if (existing != metrics_.end())
        return *existing->second;

    auto inserted = metrics_.emplace(name, builder());
    return *inserted.first->second;"""),
    ("same", "all", R, """    auto res = metrics_.find(tags);

    if (res != metrics_.end())
        return std::static_pointer_cast<internal::metric>(res->second);

    return std::static_pointer_cast<internal::metric>(
            metrics_.emplace(tags, static_cast<basic_metric_builder<TMetricType>*>(metricbuilder)->build()).first->second);""",
     """    auto res = metrics_.find(tags);
    if (res == metrics_.end())
    {
        auto* builder = static_cast<basic_metric_builder<TMetricType>*>(metricbuilder);
        auto built = builder->build();
        res = metrics_.emplace(tags, std::move(built)).first;
    }

    return res->second;"""),
    ("same", "all", R, """    virtual void visit_each(internal::registered_snapshot_visitor_builder& builder) = 0;""",
     """    static void run_visitor(snapshot_visitor* at, const std::function<void()>& fn)
    {
        try { fn(); } catch (...) { at->~snapshot_visitor(); throw; }
        at->~snapshot_visitor();
    }
    virtual void visit_each(internal::registered_snapshot_visitor_builder& builder) = 0;"""),
    ("same", "all", (R, """    for (auto& p : metrics_)
    {
        builder.construct(loc, p.first);
        try
        {
            loc->visit(p.second->snapshot());
        }
        catch (...)
        {
            loc->~snapshot_visitor();
            throw;
        }

        loc->~snapshot_visitor();
    }""", """    struct destroyer
    {
        snapshot_visitor* v;
        ~destroyer() { v->~snapshot_visitor(); }
    };

    for (const auto& p : metrics_)
    {
        builder.construct(loc, p.first);
        destroyer d{loc};
        loc->visit(p.second->snapshot());
    }""")),
    ("same", "all", R, """    std::unique_lock<std::mutex> lock(lock_);

    auto itr = metrics_.begin();
    if (itr == metrics_.end())
        return;

    auto result = itr->second->snapshot();
    for (++itr; itr != metrics_.end(); ++itr)
    {
        result.merge(itr->second->snapshot());
    }

    lock.unlock();
    visitor.visit(result);""", """    std::unique_lock<std::mutex> guard(lock_);
    if (metrics_.empty())
        return;

    auto current = metrics_.begin();
    auto total = current->second->snapshot();
    while (++current != metrics_.end())
        total.merge(current->second->snapshot());

    guard.unlock();
    visitor.visit(total);"""),
    ("same", "all", R, """    for (auto& pair : metrics_)
        handler(pair.first, *pair.second);""", """    for (auto it = metrics_.begin(); it != metrics_.end(); ++it)
    {
        const metric_path& path = it->first;
        basic_registered_metric& metric = *it->second;
        handler(path, metric);
    }"""),
    ("same", "all", R, """    auto existing = metrics_.find(name);

    if (existing == metrics_.end())
        return nullptr;

    return existing->second.get();""", """    const auto existing = metrics_.find(name);
    return existing == metrics_.end() ? nullptr : existing->second.get();"""),
    ("same", "all", R, """    auto key = typeid(TDataType).name();
    auto& ptr = data_[key];

    if (!ptr)
        ptr = std::make_unique<TDataType>(std::forward<TConstructArgs>(args)...);

    return static_cast<TDataType&>(*ptr);""", """    const std::string key(typeid(TDataType).name());
    auto found = data_.find(key);
    if (found == data_.end())
        found = data_.emplace(key, std::make_unique<TDataType>(std::forward<TConstructArgs>(args)...)).first;

    return static_cast<TDataType&>(*found->second);"""),
    ("same", "all", R, """    if (l.type() != mtype)
        throw metric_type_mismatch(l.type(), mtype);

    return static_cast""", """    const auto existing = l.type();
    if (!(existing == mtype))
        throw metric_type_mismatch(existing, mtype);

    return static_cast"""),
    ("same", "all", R, """    if (l.type() != metric->metric_type())
        throw metric_type_mismatch(l.type(), metric->metric_type());

    return l.template add_existing<TMetric>(repo_.tags(tags), std::move(metric));""", """    const std::string wanted = metric->metric_type();
    if (l.type() == wanted)
        return l.template add_existing<TMetric>(repo_.tags(tags), std::move(metric));

    throw metric_type_mismatch(l.type(), wanted);"""),
    ("same", "all", R, """    auto existing = repo_.template get_publish_data<cxxmetrics::publish_options>();
    if (existing == nullptr)
        return defaultopts;

    return *existing;""", """    auto* existing = repo_.template get_publish_data<cxxmetrics::publish_options>();
    return existing ? *existing : defaultopts;"""),
    ("same", "all", R, """    auto l = try_get(path);
    if (l == nullptr)
        return;

    l->template get_or_create_publish_data<cxxmetrics::publish_options>() = std::move(options);""", """    if (auto* l = try_get(path))
    {
        auto& stored = l->template get_or_create_publish_data<cxxmetrics::publish_options>();
        stored = std::move(options);
    }"""),
    ("same", "all", R, """        bool added = false;
        auto builder = [&]() -> std::shared_ptr<TMetricType> {
            added = true;
            return std::move(metric);
        };""", """        bool added = false;
        auto builder = [&added, &metric]() -> std::shared_ptr<TMetricType> {
            std::shared_ptr<TMetricType> taken(std::move(metric));
            added = true;
            return taken;
        };"""),
    ("same", "all", R, """    std::lock_guard<std::mutex> lock(metriclock_);
    for""", """    std::unique_lock<std::mutex> lock(metriclock_);
    for"""),
]
W = "cxxmetrics_prometheus/snapshot_writer.hpp"
H = "cxxmetrics_prometheus/prometheus_histogram.hpp"
M = "cxxmetrics_prometheus/prometheus_meter.hpp"
T = "cxxmetrics_prometheus/prometheus_timer.hpp"
P = "cxxmetrics_prometheus/prometheus_publisher.hpp"
I = "cxxmetrics/publisher_impl.hpp"
TM = "cxxmetrics/timer.hpp"
EDITS += [
    ("same", "all", W, """    for (std::size_t i = 0; i < element.size(); i++)
    {
        char c = element[i];
        if (!isalnum(static_cast<unsigned char>(c)))
            into << '_';
        else
            into << c;
    }
""", """    for (const char c : element)
        into << (std::isalnum(static_cast<unsigned char>(c)) ? c : '_');
"""),
    ("same", "all", (W, """inline std::ostream& format_name_element(""", """inline bool allowed_in_name(char c)
{
    const auto u = static_cast<unsigned char>(c);
    return std::isalnum(u) != 0;
}

inline std::ostream& format_name_element("""), (W, "        if (!isalnum(static_cast<unsigned char>(c)))\n            into << '_';\n        else\n            into << c;", "        const bool ok = allowed_in_name(c);\n        into << (ok ? c : '_');")),
    ("same", "all", (W, """inline std::ostream& format_tag_value(""", """inline const char* escape_of(char c)
{
    switch (c)
    {
        case '"': return "\\\\\\"";
        case '\\\\': return "\\\\\\\\";
        case '\\n': return "\\\\n";
        default: return nullptr;
    }
}

inline std::ostream& format_tag_value("""), (W, """        if (c == '"')
            into << "\\\\\\"";
        else if (c == '\\\\')
            into << "\\\\\\\\";
        else if (c == '\\n')
            into << "\\\\n";
        else
            into << c;""", """        if (const char* escaped = escape_of(c))
            into << escaped;
        else
            into << c;""")),
    ("same", "all", W, """    auto tag = tags.begin();
    if (tag == tags.end())
        return into;

    format_tag_name(into, tag->first);
    into << "=\\"";
    format_tag_value(into, tag->second) << "\\"";
    for (++tag; tag != tags.end(); ++tag)
    {
        into << ",";
        format_tag_name(into, tag->first) << "=\\"";
        format_tag_value(into, tag->second) << "\\"";
    }
""", """    const char* separator = "";
    for (const auto& tag : tags)
    {
        into << separator;
        format_tag_name(into, tag.first) << "=\\"";
        format_tag_value(into, tag.second) << '"';
        separator = ",";
    }
"""),
    ("same", "all", W, """    for (++elem; elem != path.end(); ++elem)
    {
        into << ':';
        format_name_element(into, *elem);
    }
""", """    while (++elem != path.end())
        format_name_element(into << ':', *elem);
"""),
    ("same", "all", (W, """template<typename TRep, typename TPer>
std::ostream& format_window(""", """template<typename TUnit, typename TRep, typename TPer>
bool whole(const std::chrono::duration<TRep, TPer>& time)
{
    return time >= TUnit(1) && time % TUnit(1) == time.zero();
}

template<typename TRep, typename TPer>
std::ostream& format_window("""), (W, "    if (time >= 1h && time % 1h == time.zero())", "    if (whole<std::chrono::hours>(time))"), (W, "    if (time >= 1min && time % 1min == time.zero())", "    if (whole<std::chrono::minutes>(time))"), (W, "    if (time >= 1s && time % 1s == time.zero())", "    if (whole<std::chrono::seconds>(time))")),
    ("same", "all", H, """        const char* comma = "";
        if (tags.begin() != tags.end())
            comma = ",";
""", """        const char* const comma = tags.begin() == tags.end() ? "" : ",";
"""),
    ("same", "all", H, """        if (options.histogram_options().include_count())
            stream << internal::name(path) << "_count{" << internal::tags(tags) << "} " << internal::scale_value(snapshot.count(), options.histogram_options()) << "\\n";

        stream""", """        const auto& opts = options.histogram_options();
        if (opts.include_count())
        {
            stream << internal::name(path) << "_count{" << internal::tags(tags) << "} ";
            stream << internal::scale_value(snapshot.count(), opts) << '\\n';
        }

        stream"""),
    ("same", "all", H, """            stream << internal::name(path) << '{' << "quantile=\\"" << (q.percentile() / 100.0) << "\\"" << comma << internal::tags(tags) << "} " << internal::scale_value(std::move(value), options.histogram_options()) << "\\n";""",
     """            const auto scaled = internal::scale_value(std::move(value), options.histogram_options());
            stream << internal::name(path) << "{quantile=\\"" << (q.percentile() / 100.0) << '"' << comma << internal::tags(tags) << "} " << scaled << '\\n';"""),
    ("same", "all", M, """        for (const auto& window : snapshot)
            stream""", """        for (auto it = snapshot.begin(); it != snapshot.end(); ++it)
        {
            const auto& window = *it;
            stream""", ), 
    ("same", "all", T, """        stream << "# HELP " << internal::name(path) << " ";
        internal::format_help(stream, path.join("/")) << " in microseconds\\n";""", """        const std::string text = path.join("/");
        stream << "# HELP " << internal::name(path) << ' ';
        internal::format_help(stream, text);
        stream << " in microseconds\\n";"""),
    ("same", "all", T, """        if (options.timer_options().include_rates())
        {
            if""", """        const bool rates = options.timer_options().include_rates();
        if (!rates)
            return;

        {
            if"""),
    ("same", "all", P, """            bool header = false;

            if (name.begin() == name.end())
                return;
""", """            if (name.begin() == name.end())
                return;

            bool header = false;
"""),
    ("same", "all", P, """                snapshot_writer<snapshot_type> writer(into, name, header, options);
                writer.write(tags, snapshot);""", """                snapshot_writer<snapshot_type>(into, name, header, options).write(tags, snapshot);"""),
    ("same", "all", I, """    if (!has_data_for<publish_options>(metric))
        return registry_.publish_options();

    // In the absence of data being removed in other threads, (removing data isn't supported) this is safe
    return const_cast<metrics_publisher<TMetricRepo>*>(this)->get_data_for<publish_options>(metric);""", """    if (has_data_for<publish_options>(metric))
    {
        auto* self = const_cast<metrics_publisher<TMetricRepo>*>(this);
        return self->template get_data_for<publish_options>(metric);
    }

    return registry_.publish_options();"""),
    ("same", "all", I, """    auto res = registry_.try_get(path);
    if (res == nullptr)
        return;

    handler(path, *res);""", """    if (basic_registered_metric* found = registry_.try_get(path))
        handler(path, *found);"""),
    ("same", "all", TM, """        if (duration.count()) {
            histogram_.update(duration);
            meter_.mark();
        }""", """        if (duration == TClock::duration::zero())
            return;

        meter_.mark();
        histogram_.update(duration);"""),
    ("same", "all", TM, """        if (start_.set)
            timer_.update(timer_.clock().now() - start_.start);""", """        if (!start_.set)
            return;

        const auto end = timer_.clock().now();
        timer_.update(end - start_.start);"""),
    ("same", "all", TM, """    if (!TIncludeExceptions)
    {
        try
        {
            return runnable();
        }
        catch (...)
        {
            tm.clear();
            throw;
        }
    }

    return runnable();""", """    try
    {
        return runnable();
    }
    catch (...)
    {
        if (!TIncludeExceptions)
            tm.clear();
        throw;
    }"""),
]
EDITS = [e for e in EDITS if not (len(e) > 3 and e[2] == M)] + [
    ("same", "all", (M, """        for (const auto& window : snapshot)
            stream""", """        for (auto it = snapshot.begin(); it != snapshot.end(); ++it)
        {
            const auto& window = *it;
            stream"""), (M, """metric_value(window.second), options.meter_options()) << "\\n";
""", """metric_value(window.second), options.meter_options()) << "\\n";
        }
""")),
]

E = "cxxmetrics/ewma.hpp"
MT = "cxxmetrics/meter.hpp"
SW = "cxxmetrics/sliding_window.hpp"
U = "cxxmetrics/uniform_reservoir.hpp"
EDITS += [
    ("same", "all", E, """    if (nrate == TValue{} && !ticked_.load())
    {
        if ((at - last) < period(TInterval))
            return pending;

        // use constexpr if with 17
        if (!TWrite)
            return pending;
""", """    const bool complete = (at - last) >= period(TInterval);
    if (nrate == TValue{} && !ticked_.load())
    {
        if (!complete || !TWrite)
            return pending;
"""),
    ("same", "all", E, """    auto intervals = (at - last) / period(TInterval);
    if (intervals > 1)
        rate *= std::pow(1 - alpha_, intervals - 1);
""", """    const auto passed = (at - last) / period(TInterval);
    if (passed > 1)
    {
        const auto left = std::pow(1 - alpha_, passed - 1);
        rate = rate * left;
    }
"""),
    ("same", "all", (E, """    template<bool TWrite = true>
    TValue tick(const clock_point &at) noexcept;
""", """    template<bool TWrite = true>
    TValue tick(const clock_point &at) noexcept;

    // puts back what a tick took but could not apply
    void give_back(TValue amount) noexcept
    {
        atomic_add(pending_, amount);
    }

    static TValue finite_or_zero(long double v) noexcept
    {
        return std::isnan(v) || std::isinf(v) ? TValue{} : static_cast<TValue>(v);
    }
"""), (E, "                atomic_add(pending_, pending); // keep", "                give_back(pending); // keep"), (E, "        atomic_add(pending_, pending); // keep", "        give_back(pending); // keep")),
    ("same", "all", E, """    auto now = clk_();

    // our clock went backwards
    if (now < last_.load())
        return;

    tick(now);
    atomic_add(pending_, amount);""", """    const auto now = clk_();
    if (now >= last_.load())
    {
        tick(now);
        atomic_add(pending_, amount);
    }"""),
    ("same", "all", E, """    last = last_.load();
    while (last < at && !last_.compare_exchange_weak(last, at));
""", """    for (last = last_.load(); last < at;)
    {
        if (last_.compare_exchange_weak(last, at))
            break;
    }
"""),
    ("same", "all", MT, """        auto start = start_.load();
        auto since = this->now() - start;
        auto units = (since * 1.0l) / this->interval();
        if (start == clock_point{})
            units = 1;
        if (!units)
            return (total_ * 1.0l);
        return (total_ * 1.0l) / units;""", """        const auto start = start_.load();
        const long double total = total_.load();
        if (start == clock_point{})
            return total;

        const auto units = ((this->now() - start) * 1.0l) / this->interval();
        return units == 0 ? total : total / units;"""),
    ("same", "all", MT, """        if (start_.load() == clock_point{})
        {
            clock_point unset{};
            start_.compare_exchange_strong(unset, this->now());
        }

        _meter_impl_base<TClockGet, TInterval, TWindows...>::mark(by);
        total_ += by;""", """        clock_point unset{};
        if (start_.load() == unset)
            start_.compare_exchange_strong(unset, this->now());

        total_.fetch_add(by);
        _meter_impl_base<TClockGet, TInterval, TWindows...>::mark(by);"""),
    ("same", "all", (MT, """        void operator()(const meter_rate& rate) const {
            result.emplace(rate.period, rate.rate);
        }""", """        void operator()(const meter_rate& rate) const {
            const auto window = rate.period;
            result.emplace(window, metric_value(rate.rate));
        }""")),
    ("same", "all", (SW, """        {
            while (it_ != end_ && it_->time() < min_)
                ++it_;
        }
""", """        {
            skip();
        }

        void skip() noexcept
        {
            while (it_ != end_ && it_->time() < min_)
                ++it_;
        }
"""), (SW, """            ++it_;
            while (it_ != end_ && it_->time() < min_)
                ++it_;
            return *this;""", """            ++it_;
            skip();
            return *this;""")),
    ("same", "all", SW, """    auto now = clock_();
    auto min = now - window_;

    auto start = data_.begin();
    auto end = data_.end();
""", """    const auto start = data_.begin();
    const auto end = data_.end();
    const auto min = clock_() - window_;
"""),
    ("same", "all", (U, """    uniform_reservoir() noexcept;
""", """    uniform_reservoir() noexcept;

    uint_fast64_t filled() const noexcept
    {
        const uint_fast64_t c = count_.load();
        return c < TSize ? c : TSize;
    }
"""), (U, "reservoir_snapshot(&elems_[0], std::min(count_.load(), static_cast<decltype(count_.load())>(TSize)))", "reservoir_snapshot(elems_, filled())"), (U, "    const auto count = std::min(other.count_.load(), static_cast<decltype(count_.load())>(TSize));\n    for", "    const auto count = other.filled();\n    for")),
    ("same", "all", U, """    for (std::size_t i = 0; i < count; i++)
        elems_[i] = other.elems_[i];
""", """    std::copy(other.elems_, other.elems_ + count, elems_);
"""),
    ("same", "all", U, """    if (c < TSize)
    {
        elems_[c] = value;
        return;
    }

    // so we don't run out of count
    count_.store(TSize);

    std::uniform_int_distribution<std::size_t> d(0, TSize - 1);
    elems_[d(gen_)] = value;""", """    std::size_t at = c;
    if (c >= TSize)
    {
        count_.store(TSize);
        std::uniform_int_distribution<std::size_t> d(0, TSize - 1);
        at = d(gen_);
    }

    elems_[at] = value;"""),
]
S = "cxxmetrics/snapshots.hpp"
EDITS += [
    ("same", "all", (S, """    template<quantile::value TQuantile>
    metric_value value() const noexcept
    {""", """    // between the element at index - 1 and its neighbour
    metric_value between(long double pos, std::size_t index) const
    {
        const auto& lower = values_[index - 1];
        const auto& upper = values_[index];
        const auto step = static_cast<long double>(upper - lower);
        return lower + metric_value((pos - index) * step);
    }

    template<quantile::value TQuantile>
    metric_value value() const noexcept
    {"""), (S, "        return values_[index - 1] + metric_value((pos - index) * static_cast<long double>(values_[index] - values_[index - 1]));", "        return between(pos, static_cast<std::size_t>(index));")),
    ("same", "all", S, """        metric_value total = values_[0];

        // should we worry about overflow here?
        for (std::size_t i = 1; i < values_.size(); i++)
        {
            auto vs = i + 1.0l;
            long double eratio = i / vs;
            long double nratio = 1.0l / vs;
            total = (total * metric_value(eratio)) + (values_[i] * metric_value(nratio));
        }
""", """        metric_value total = values_.front();
        std::size_t seen = 1;
        for (auto it = values_.begin() + 1; it != values_.end(); ++it, ++seen)
        {
            const long double all = seen + 1.0l;
            total = (total * metric_value(seen / all)) + (*it * metric_value(1.0l / all));
        }
"""),
    ("same", "all", S, """    for (; begin != end && at < size; ++begin, ++at)
        values_.emplace_back(*begin);
""", """    while (begin != end && at < size)
    {
        values_.push_back(metric_value(*begin));
        ++begin;
        ++at;
    }
"""),
    ("same", "all", S, """    std::size_t at = 0;
    for (; at < count; ++at)
        values_.emplace_back(a[at]);
""", """    for (const TElem* at = a; at != a + count; ++at)
        values_.emplace_back(*at);
"""),
    ("same", "all", S, """            auto fnd = other.rates_.find(pair.first);
            if (fnd == other.rates_.end())
                continue;

            // same average calculation
            auto& other_rate = fnd->second;
""", """            const auto match = other.rates_.find(pair.first);
            if (match == other.rates_.end())
                continue;

            const metric_value& other_rate = match->second;
"""),
    ("same", "all", S, """        auto sb = samples_ * 1.0l;
        auto os = other.samples_ * 1.0l;
        auto s1 = samples_ + os;

        value_ = (metric_value(sb / s1) * value_) + (other.value() * metric_value(os / s1));
        samples_ = s1;""", """        const long double mine = samples_;
        const long double theirs = other.samples_;
        const long double both = mine + theirs;
        value_ = (metric_value(mine / both) * value_) + (other.value() * metric_value(theirs / both));
        samples_ += other.samples_;"""),
]
