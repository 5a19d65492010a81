W = "cxxmetrics/sliding_window.hpp"
R = "cxxmetrics/ringbuf.hpp"
U = "cxxmetrics/uniform_reservoir.hpp"
P = "cxxmetrics/simple_reservoir.hpp"
CTOR = """            while (it_ != end_ && it_->time() < min_)
                ++it_;
        }
"""
STEP = """            ++it_;
            while (it_ != end_ && it_->time() < min_)
                ++it_;
            return *this;"""
SNAP = """    auto now = clock_();
    auto min = now - window_;

    auto start = data_.begin();
    auto end = data_.end();

    return reservoir_snapshot(
            transform_and_filter_iterator(min, start, end),
            transform_and_filter_iterator(min, end, end),
            TMaxSize);"""
UPD = """    auto c = count_.fetch_add(1);

    if (c < TSize)
    {
        elems_[c] = value;
        return;
    }

    // so we don't run out of count
    count_.store(TSize);

    std::uniform_int_distribution<std::size_t> d(0, TSize - 1);
    elems_[d(gen_)] = value;"""
EDITS = [
    ("bug", "C32", W, CTOR, CTOR.replace("< min_", "<= min_")),
    ("bug", "C32", W, CTOR, "        }\n"),
    ("bug", "C32", W, CTOR, CTOR.replace("while", "if")),
    ("bug", "C32", W, STEP, STEP.replace("< min_", "<= min_")),
    ("bug", "C32", W, STEP, "            ++it_;\n            return *this;"),
    ("bug", "C32", W, STEP, STEP.replace("while", "if")),
    ("bug", "C32", W, STEP, STEP.replace("it_->time() < min_", "it_->time() > min_")),
    ("bug", "C32", W, SNAP, SNAP.replace("now - window_", "now + window_")),
    ("bug", "C32", W, SNAP, SNAP.replace("now - window_", "now - window_ / 2")),
    ("bug", "C32", W, SNAP, SNAP.replace("auto min = now - window_;", "auto min = std::min(now - window_, data_.begin() == data_.end() ? now : data_.begin()->time());")),
    ("bug", "C32", W, SNAP, SNAP.replace("TMaxSize)", "TMaxSize - 1)")),
    ("bug", "C32", W, "TElem operator*() const noexcept { return it_->value(); }", "TElem operator*() const noexcept { return static_cast<int>(it_->value()); }"),
    ("bug", "C32", W, "        window_(window)\n", "        window_(window + std::chrono::nanoseconds(1))\n"),
    ("bug", "C32", W, "        window_(other.window_),\n", "        window_(),\n"),
    ("bug", "C32", W, "    data_ = other.data_;\n    clock_ = other.clock_;\n", "    data_ = other.data_;\n"),
    ("bug", "C32", W, "    window_ = other.window_;\n", ""),
    ("bug", "C32", W, """        time_(clock()),
        value_(val)""", """        time_(),
        value_(val)"""),
    ("bug", "C32", W, "    data_.push(internal::timed_data<TElem, TClockGet>(v, clock_));", "    if (data_.begin() != data_.end() && data_.begin()->value() == v)\n        return;\n    data_.push(internal::timed_data<TElem, TClockGet>(v, clock_));"),
    ("bug", "C32", W, "    data_.push(internal::timed_data<TElem, TClockGet>(v, clock_));", "    data_.push(internal::timed_data<TElem, TClockGet>(v, TClockGet(clock_)));\n    if (v == TElem(0))\n        data_.push(internal::timed_data<TElem, TClockGet>(v, clock_));"),
    ("bug", "C32", U, "std::min(count_.load(), static_cast<decltype(count_.load())>(TSize))", "std::min(count_.load(), static_cast<decltype(count_.load())>(TSize - 1))"),
    ("bug", "C32", U, UPD, UPD.replace("count_.store(TSize);", "count_.store(TSize - 1);")),
    ("bug", "C32", U, UPD, UPD.replace("elems_[c] = value", "elems_[0] = value")),
    ("bug", "C32", P, "    data_.push(v);", "    if (v > TElem(0) || v <= TElem(0))\n        data_.push(v < 0 ? -v : v);"),
    # the same in other words
    ("same", "C32", W, CTOR, """            skip();
        }

        void skip() noexcept
        {
            for (; !(it_ == end_); ++it_)
                if (it_->time() >= min_)
                    break;
        }
"""),
    ("same", "C32,C02,C03", W, STEP, """            do
            {
                ++it_;
            } while (it_ != end_ && it_->time() < min_);
            return *this;"""),
    ("same", "C32", W, CTOR, CTOR.replace("it_->time() < min_", "min_ > it_->time()")),
    ("same", "C32,C02,C03", W, SNAP, SNAP.replace("""    auto now = clock_();
    auto min = now - window_;
""", "    const auto min = clock_() - window_;\n")),
    ("same", "C32,C02,C03", W, SNAP, """    using iterator = transform_and_filter_iterator;
    const auto oldest = clock_() - window_;
    const auto last = data_.end();
    const iterator from(oldest, data_.begin(), last);
    const iterator to(oldest, last, last);
    return reservoir_snapshot(from, to, TMaxSize);"""),
    ("same", "C32,C02,C03", W, "    data_.push(internal::timed_data<TElem, TClockGet>(v, clock_));", "    const internal::timed_data<TElem, TClockGet> entry(v, clock_);\n    data_.push(entry);"),
    ("same", "C32,C02,C03", U, UPD, """    const auto position = count_.fetch_add(1);

    if (position >= TSize)
    {
        // so we don't run out of count
        count_.store(TSize);
        std::uniform_int_distribution<std::size_t> choose(0, TSize - 1);
        elems_[choose(gen_)] = value;
    }
    else
        elems_[position] = value;"""),
    ("same", "C32,C02,C03", U, UPD, UPD.replace("""    std::uniform_int_distribution<std::size_t> d(0, TSize - 1);
    elems_[d(gen_)] = value;""", """    elems_[gen_() % TSize] = value;""")),
    ("same", "C32,C02,C03", U, UPD, UPD.replace("""    elems_[d(gen_)] = value;""", """    const auto victim = d(gen_);
    elems_[victim] = value;""")),
    ("same", "C32,C02,C03", U, UPD, """    auto at = count_++;
    if (at >= TSize)
    {
        count_ = TSize;
        at = std::uniform_int_distribution<std::size_t>{0, TSize - 1}(gen_);
    }
    elems_[at] = value;"""),
]
