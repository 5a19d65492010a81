"""Tidy-ups of the headers refactors.py leaves alone; none may move any check."""
RB = "cxxmetrics/ringbuf.hpp"
CT = "cxxmetrics/counter.hpp"
LI = "cxxmetrics/internal/atomic_lifo.hpp"
MP = "cxxmetrics/metric_path.hpp"
TC = "cxxmetrics/tag_collection.hpp"
HI = "cxxmetrics/histogram.hpp"
SR = "cxxmetrics/simple_reservoir.hpp"
UR = "cxxmetrics/uniform_reservoir.hpp"
TI = "cxxmetrics/time.hpp"
MV = "cxxmetrics/metric_value.hpp"
EDITS = [
    # ring buffer: push with a helper for the size
    ("same", "all", RB, """    auto writeloc = tail_.fetch_add(1);
    data_[writeloc % TSize] = elem;

    if (++writeloc > TSize)
        writeloc = TSize;
""", """    const auto writeloc_raw = tail_.fetch_add(1);
    auto& slot = data_[writeloc_raw % TSize];
    slot.store(elem);

    const uint_fast64_t grown = writeloc_raw + 1;
    uint_fast64_t writeloc = grown < TSize ? grown : TSize;
"""),
    ("same", "all", RB, """    while (true)
    {
        if (writeloc <= csize || csize >= TSize)
            return;

        if (size_.compare_exchange_weak(csize, writeloc, std::memory_order_release, std::memory_order_acquire))
            return;
    }""", """    while (csize < writeloc && csize < TSize)
    {
        if (size_.compare_exchange_weak(csize, writeloc, std::memory_order_release, std::memory_order_acquire))
            break;
    }"""),
    ("same", "all", RB, """    auto size = size_.load();
    if (size < TSize)
        return iterator(this, 0);

    return iterator(this, tail_.load() % TSize);""", """    const bool wrapped = size_.load() >= TSize;
    const int64_t first = wrapped ? static_cast<int64_t>(tail_.load() % TSize) : 0;
    return iterator(this, first);"""),
    ("same", "all", RB, """    if (!remaining_)
        return *this;

    current_ = buf_->data_[(offset_++) % TSize];
    remaining_--;

    return *this;""", """    if (remaining_ != 0)
    {
        const auto at = offset_ % TSize;
        ++offset_;
        --remaining_;
        current_ = buf_->data_[at].load();
    }
    return *this;"""),
    ("same", "all", RB, """    auto it = other.begin();
    std::size_t i = 0;
    for (; it != other.end() && i < TSize; ++i, ++it)
        data_[i] = *it;

    tail_ = i;""", """    std::size_t i = 0;
    for (const auto& elem : other)
    {
        if (i >= TSize)
            break;
        data_[i++].store(elem);
    }

    tail_ = i;"""),
    # counter
    ("same", "all", CT, "    return value_ += by;", "    return value_.fetch_add(by) + by;"),
    ("same", "all", CT, "    value_ = c;\n    return *this;", "    value_.store(c.value());\n    return *this;"),
    ("same", "all", CT, "        incr(-by);\n", "        const TCount negated = -by;\n        incr(negated);\n"),
    ("same", "all", CT, "    c.value_ = 0;\n}", "    c.value_.exchange(0);\n}"),
    # lock-free list
    ("same", "all", LI, """                head_t next(n);
                auto h = head_.load(std::memory_order_relaxed);

                while (true)
                {
                    next.aba = h.aba + 1;
                    list_node_traits<node>::set_next_of(*next.nodev, h.nodev);
                    if (head_.compare_exchange_weak(h, next, std::memory_order_release, std::memory_order_relaxed)) {
                        break;
                    }
                }""", """                auto h = head_.load(std::memory_order_relaxed);
                head_t next(n);
                do
                {
                    list_node_traits<node>::set_next_of(*n, h.nodev);
                    next.aba = h.aba + 1;
                } while (!head_.compare_exchange_weak(h, next, std::memory_order_release, std::memory_order_relaxed));"""),
    ("same", "all", LI, """                while (h.nodev)
                {
                    next.aba = h.aba + 1;
                    next.nodev = list_node_traits<node>::next_of(*h.nodev);
                    if (head_.compare_exchange_weak(h, next, std::memory_order_acq_rel, std::memory_order_acquire)) {
                        break;
                    }
                }

                return pointer_type(h.nodev, alloc_);""", """                for (; h.nodev != nullptr; )
                {
                    next.nodev = list_node_traits<node>::next_of(*h.nodev);
                    next.aba = 1 + h.aba;
                    if (head_.compare_exchange_strong(h, next, std::memory_order_acq_rel, std::memory_order_acquire))
                        return pointer_type(h.nodev, alloc_);
                }

                return pointer_type(nullptr, alloc_);"""),
    # paths
    ("same", "all", MP, """    for (std::size_t i = 0; i < paths_.size(); ++i)
    {
        if (paths_[i] != other.paths_[i])
            return false;
    }

    return true;""", """    auto there = other.paths_.begin();
    for (const auto& component : paths_)
    {
        if (!(component == *there))
            return false;
        ++there;
    }

    return true;"""),
    ("same", "all", MP, """    if (paths_.size() != other.paths_.size())
        return false;

    for (std::size_t i = 0; i < paths_.size(); ++i)
    {
        if (paths_[i] != other.paths_[i])
            return false;
    }

    return true;""", "    return paths_ == other.paths_;"),
    ("same", "all", MP, """    result += paths_[0];
    for (std::size_t i = 1; i < paths_.size(); ++i)
    {
        result += delim;
        result += paths_[i];
    }
""", """    bool first = true;
    for (const auto& component : paths_)
    {
        if (!first)
            result.append(delim);
        first = false;
        result.append(component);
    }
"""),
    ("same", "all", MP, """        auto paths = paths_;
        paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());
        return metric_path(std::move(paths));""", """        std::vector<std::string> joined;
        joined.reserve(paths_.size() + other.paths_.size());
        joined.insert(joined.end(), paths_.begin(), paths_.end());
        joined.insert(joined.end(), other.paths_.begin(), other.paths_.end());
        return metric_path(std::move(joined));"""),
    ("same", "all", MP, """        auto paths = paths_;
        paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());
        return metric_path(std::move(paths));""", """        metric_path result(*this);
        for (const auto& component : other.paths_)
            result.paths_.push_back(component);
        return result;"""),
    ("same", "all", MP, """            for (const auto& str : path)
                result = (result * 397) ^ h(str);""", """            for (auto it = path.begin(); it != path.end(); ++it)
            {
                result *= 397;
                result ^= h(*it);
            }"""),
    # tags
    ("same", "all", TC, """    for (const auto& p : tags_)
    {
        auto f = other.tags_.find(p.first);
        if (f == other.tags_.end() || f->second != p.second)
            return false;
    }

    return true;""", """    for (auto it = tags_.begin(); it != tags_.end(); ++it)
    {
        const auto found = other.tags_.find(it->first);
        if (found == other.tags_.end())
            return false;
        if (!(found->second == it->second))
            return false;
    }

    return true;"""),
    ("same", "all", TC, """        for (const auto& p : collection)
            result += (h(p.first) * 397) ^ v(p.second);""", """        for (const auto& p : collection)
        {
            const std::size_t key = h(p.first) * 397;
            const std::size_t value = v(p.second);
            result += key ^ value;
        }"""),
    # histogram
    ("same", "all", HI, "        ++count_;\n        reservoir_.update(value);", "        reservoir_.update(value);\n        count_ += 1;"),
    ("same", "all", HI, "        auto c = count_.value();\n        return histogram_snapshot(reservoir_.snapshot(), c);", "        const uint64_t samples = count();\n        auto values = reservoir_.snapshot();\n        return histogram_snapshot(std::move(values), samples);"),
    # reservoirs
    ("same", "all", SR, "        return reservoir_snapshot(data_.begin(), data_.end(), TSize);", "        const auto first = data_.begin();\n        const auto last = data_.end();\n        return reservoir_snapshot(first, last, TSize);"),
    ("same", "all", UR, "    if (c < TSize)\n    {\n        elems_[c] = value;\n        return;\n    }\n\n    // so we don't run out of count\n    count_.store(TSize);\n\n    std::uniform_int_distribution<std::size_t> d(0, TSize - 1);\n    elems_[d(gen_)] = value;",
     "    std::size_t at = c;\n    if (c >= TSize)\n    {\n        // so we don't run out of count\n        count_.store(TSize);\n        std::uniform_int_distribution<std::size_t> d(0, TSize - 1);\n        at = d(gen_);\n    }\n    elems_[at] = value;"),
    # time
    ("same", "all", TI, "    return minutes(v * 60);", "    return period(v * 3600000000ull);"),
    ("same", "all", TI, "    constexpr operator std::chrono::steady_clock::duration() const\n    {\n        return to_duration();", "    constexpr operator std::chrono::steady_clock::duration() const\n    {\n        return std::chrono::microseconds(value_);"),
    # values
    ("same", "all", MV, """        bool valid;
        auto lv = other.to_integral(&valid);
        if (valid)
            val_ -= lv;
        else
        {
            auto fv = other.to_float(&valid);
            if (valid)
                val_ -= fv;
        }
    }

    void multiply""", """        bool valid;
        const auto whole = other.to_integral(&valid);
        if (valid)
        {
            val_ -= whole;
            return;
        }

        const auto fraction = other.to_float(&valid);
        if (!valid)
            return;
        val_ -= fraction;
    }

    void multiply"""),
    ("same", "all", MV, "        auto v = static_cast<common>(val_);\n        return v < lv ? -1 : v == lv ? 0 : 1;", "        const common mine = static_cast<common>(val_);\n        if (mine == lv)\n            return 0;\n        return mine > lv ? 1 : -1;"),
    ("same", "all", MV, "            if (!lv)\n                val_ = 0;\n            else if (std::is_signed<T>::value && lv == -1)", "            if (lv == 0)\n                val_ = T{};\n            else if (lv == -1 && std::is_signed<T>::value)"),
    ("same", "all", MV, "        auto fv = static_cast<T>(other.to_float(&valid));\n        if (!valid)\n            return -1;\n\n        return val_ < fv ? -1 : val_ == fv ? 0 : 1;", "        const auto there = static_cast<T>(other.to_float(&valid));\n        if (!valid || val_ < there)\n            return -1;\n\n        return val_ == there ? 0 : 1;"),
    ("same", "all", MV, "        string_variant_data negated(other.to_string());\n        negated.negate();\n        add(negated);", "        string_variant_data negative{other.to_string()};\n        negative.negate();\n        val_.append(negative.val_);"),
]
