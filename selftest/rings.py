R = "cxxmetrics/ringbuf.hpp"
EDITS = [
    ("bug", "C02", R, "data_[writeloc % TSize] = elem;", "data_[(writeloc + 1) % TSize] = elem;"),
    ("bug", "C02", R, "data_[writeloc % TSize] = elem;", "data_[writeloc] = elem;"),
    ("bug", "C02", R, "data_[writeloc % TSize] = elem;", "data_[writeloc & (TSize - 1)] = elem;"),
    ("bug", "C02", R, "        writeloc = TSize;\n", "        writeloc = TSize + 1;\n"),
    ("bug", "C02", R, "if (++writeloc > TSize)\n        writeloc = TSize;", "if (++writeloc >= TSize)\n        writeloc = TSize - 1;"),
    ("bug", "C02", R, "if (writeloc <= csize || csize >= TSize)\n            return;\n\n        if (size_.compare_exchange_weak(csize, writeloc, std::memory_order_release, std::memory_order_acquire))\n            return;",
     "if (writeloc <= csize || csize >= TSize)\n            return;\n\n        size_.store(writeloc, std::memory_order_release);\n        return;"),
    ("bug", "C02", R, "return iterator(this, tail_.load() % TSize);", "return iterator(this, (tail_.load() + 1) % TSize);"),
    ("bug", "C02", R, "return iterator(this, tail_.load() % TSize);", "return iterator(this, 0);"),
    ("bug", "C02", R, "return iterator(this, tail_.load() % TSize);", "return iterator(this, tail_.load());"),
    ("bug", "C02", R, "if (size < TSize)\n        return iterator(this, 0);\n\n", ""),
    ("bug", "C02", R, "if (size < TSize)", "if (size <= TSize)"),
    ("bug", "C02", R, "data_[(offset_++) % TSize]", "data_[offset_++]"),
    ("bug", "C02", R, "data_[(offset_++) % TSize]", "data_[(++offset_) % TSize]"),
    ("bug", "C02", R, "    remaining_--;\n", ""),
    ("bug", "C02", R, "current_ = buf_->data_[offset_++];", "current_ = buf_->data_[offset_];"),
    ("bug", "C02", R, "size_.compare_exchange_weak(csize, writeloc, std::memory_order_release, std::memory_order_acquire)", "size_.compare_exchange_weak(csize, writeloc, std::memory_order_relaxed, std::memory_order_acquire)"),
    ("bug", "C02", R, "    data_[writeloc % TSize] = elem;\n\n    if (++writeloc > TSize)\n        writeloc = TSize;\n", "    const auto slot = writeloc % TSize;\n\n    if (++writeloc > TSize)\n        writeloc = TSize;\n",
     ),
    ("bug", "C02", R, "for (; it != other.end() && i < TSize; ++i, ++it)", "for (; it != other.end() && i < TSize - 1; ++i, ++it)"),
    ("bug", "C02", R, "        data_[i] = *it;\n\n    tail_ = i;\n    size_ = i;", "        data_[i] = *it;\n\n    tail_ = other.tail_.load();\n    size_ = i;"),
    ("bug", "C02", R, "    if (this == &other)\n        return *this;\n", ""),
    ("bug", "C02", R, "for (; start != end && i < TSize; ++i, ++start)", "for (; start != end; ++i, ++start)"),
    ("bug", "C02", R, "for (; start != end && i < TSize; ++i, ++start)", "for (; start != end && i <= TSize; ++i, ++start)"),
    ("bug", "C02", R, "    return size_.load();\n", "    return tail_.load();\n"),
    ("bug", "C02", R, "auto writeloc = tail_.fetch_add(1);", "auto writeloc = tail_.load();\n    tail_.store((writeloc + 1) % TSize);"),
    ("same", "C02", R, "    if (++writeloc > TSize)\n        writeloc = TSize;\n", "    writeloc = (writeloc + 1 < TSize) ? writeloc + 1 : TSize;\n"),
    ("same", "C02", R, "auto writeloc = tail_.fetch_add(1);", "auto writeloc = tail_++;"),
    ("same", "C02", R, "auto writeloc = tail_.fetch_add(1);", "auto writeloc = ++tail_ - 1;"),
    ("same", "C02", R, "    auto size = size_.load();\n    if (size < TSize)\n        return iterator(this, 0);\n\n    return iterator(this, tail_.load() % TSize);", "    return iterator(this, size_.load() < TSize ? 0 : tail_.load() % TSize);"),
    ("same", "C02", R, "    while (true)\n    {\n        if (writeloc <= csize || csize >= TSize)\n            return;\n\n        if (size_.compare_exchange_weak(csize, writeloc, std::memory_order_release, std::memory_order_acquire))\n            return;\n    }",
     "    while (writeloc > csize && csize < TSize && !size_.compare_exchange_weak(csize, writeloc, std::memory_order_release, std::memory_order_acquire))\n        ;"),
    ("same", "C02", R, "    while (true)\n    {\n        if (writeloc <= csize || csize >= TSize)\n            return;\n\n        if (size_.compare_exchange_weak(csize, writeloc, std::memory_order_release, std::memory_order_acquire))\n            return;\n    }",
     "    do\n    {\n        if (writeloc <= csize)\n            return;\n    } while (!size_.compare_exchange_strong(csize, writeloc));"),
    ("same", "C02", R, "    for (; start != end && i < TSize; ++i, ++start)\n        data_[i] = *start;\n", "    while (i < TSize)\n    {\n        if (start == end)\n            break;\n        data_[i++] = *start;\n        ++start;\n    }\n"),
    ("same", "C02", R, "    current_ = buf_->data_[(offset_++) % TSize];\n    remaining_--;\n", "    --remaining_;\n    const auto slot = offset_ % TSize;\n    ++offset_;\n    current_ = buf_->data_[slot].load();\n"),
    ("same", "C02", R, "    tail_ = i;\n    size_ = i;\n    return *this;", "    size_ = i;\n    tail_ = i;\n    return *this;"),
    ("same", "C02", R, "    auto it = other.begin();\n    std::size_t i = 0;\n    for (; it != other.end() && i < TSize; ++i, ++it)\n        data_[i] = *it;\n\n    tail_ = i;\n    size_ = i;\n    return *this;", "    for (auto it = other.begin(); it != other.end(); ++it)\n        push(*it);\n    return *this;"),
    ("same", "C02", R, "    data_[writeloc % TSize] = elem;\n", "    auto &slot = data_[writeloc - writeloc / TSize * TSize];\n    slot.store(elem);\n"),
]
