F = "cxxmetrics/metric_path.hpp"
COMPOSE = """        auto paths = paths_;
        paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());
        return metric_path(std::move(paths));"""
JOIN = """    result.reserve(len + 1);
    result += paths_[0];
    for (std::size_t i = 1; i < paths_.size(); ++i)
    {
        result += delim;
        result += paths_[i];
    }

    return result;"""
EQ = """    if (paths_.size() != other.paths_.size())
        return false;

    for (std::size_t i = 0; i < paths_.size(); ++i)
    {
        if (paths_[i] != other.paths_[i])
            return false;
    }

    return true;"""
EDITS = [
    ("bug", "C33", F, "paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());", "paths.insert(paths.end(), other.paths_.rbegin(), other.paths_.rend());"),
    ("bug", "C33", F, "paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());", "paths.insert(paths.begin(), other.paths_.begin(), other.paths_.end());"),
    ("bug", "C33", F, "paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());", "paths.push_back(other.paths_.back());"),
    ("bug", "C33", F, "paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());", "paths.push_back(other.paths_.front());"),
    ("bug", "C33", F, EQ, '    return join("/") == other.join("/");'),
    ("bug", "C33", F, "    if (paths_.size() != other.paths_.size())\n        return false;\n", "    if (paths_.size() > other.paths_.size())\n        return false;\n"),
    ("bug", "C33", F, "for (std::size_t i = 0; i < paths_.size(); ++i)", "for (std::size_t i = 1; i < paths_.size(); ++i)"),
    ("bug", "C33", F, "        if (other.paths_.empty())\n            return *this;", "        if (other.paths_.empty())\n            return other;"),
    ("bug", "C33", F, "                paths_.emplace_back(pstr, len);", "                paths_.emplace_back(pstr);"),
    ("bug", "C33", F, "                paths_.emplace_back(pstr, len);", "                paths_.emplace_back(pstr, len - 1);"),
    ("bug", "C33", F, "        if (!pstr.empty())\n", ""),
    ("bug", "C33", F, "        result += delim;\n        result += paths_[i];", "        result += paths_[i];\n        result += delim;"),
    ("bug", "C33", F, "        result += delim;\n", "        if (i > 1) result += delim;\n"),
    ("bug", "C33", F, "        result += delim;\n", "        if (paths_[i] != paths_[i - 1]) result += delim;\n"),
    ("bug", "C33", F, "        result += paths_[i];", "        if (paths_[i] != paths_[0]) result += paths_[i];"),
    ("bug", "C33", F, "    if (Size > 1)\n        paths.emplace_back(pstr);\n    paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());", "    paths.insert(paths.end(), other.paths_.begin(), other.paths_.end());\n    if (Size > 1)\n        paths.emplace_back(pstr);"),
    ("bug", "C33", F, "    if (Size > 1)\n        paths.emplace_back(pstr);", "    paths.emplace_back(pstr);"),
    ("bug", "C33", F, "return !(operator==(other));", "return paths_.size() != other.paths_.size();"),
    ("same", "C33,C09", F, EQ, "    return paths_ == other.paths_;"),
    ("same", "C33,C09", F, EQ, "    return paths_.size() == other.paths_.size() && std::equal(paths_.begin(), paths_.end(), other.paths_.begin());"),
    ("same", "C33,C09", F, EQ, """    auto a = paths_.begin();
    auto b = other.paths_.begin();
    while (a != paths_.end() && b != other.paths_.end() && *a == *b)
        ++a, ++b;
    return a == paths_.end() && b == other.paths_.end();"""),
    ("same", "C33", F, COMPOSE, """        std::vector<std::string> paths;
        paths.reserve(paths_.size() + other.paths_.size());
        for (const auto& p : paths_)
            paths.push_back(p);
        for (const auto& p : other.paths_)
            paths.push_back(p);
        return metric_path(std::move(paths));"""),
    ("same", "C33", F, COMPOSE, """        metric_path r(*this);
        for (std::size_t i = 0; i < other.paths_.size(); ++i)
            r.paths_.emplace_back(other.paths_[i]);
        return r;"""),
    ("same", "C33", F, "        if (other.paths_.empty())\n            return *this;\n", ""),
    ("same", "C33", F, JOIN, """    bool first = true;
    for (const auto& p : paths_)
    {
        if (!first)
            result.append(delim);
        first = false;
        result.append(p);
    }
    return result;"""),
    ("same", "C33", F, JOIN, """    for (const auto& p : paths_)
    {
        if (!result.empty())
            result += delim;
        result += p;
    }
    return result;"""),
    ("same", "C33", F, JOIN, """    result = paths_.front();
    for (auto it = paths_.begin() + 1; it != paths_.end(); ++it)
        result = result + delim + *it;
    return result;"""),
    ("same", "C33", F, JOIN, """    auto it = paths_.begin();
    result = *it++;
    while (it != paths_.end())
        (result += delim) += *it++;
    return result;"""),
    ("same", "C33", F, "return !(operator==(other));", "return !(*this == other);"),
    ("same", "C33", F, "        if (!pstr.empty())\n            paths_.emplace_back(std::move(pstr));", "        if (pstr.empty())\n            return;\n        paths_.push_back(std::move(pstr));"),
    ("same", "C33", F, "        if (!pstr.empty())\n            paths_.emplace_back(std::move(pstr));", "        if (pstr.size() > 0)\n            paths_.push_back(pstr);"),
]
WALK = """    auto a = paths_.begin();
    auto b = other.paths_.begin();
    while (a != paths_.end() && b != other.paths_.end() && *a == *b)
        ++a, ++b;
    return %s;"""
EDITS += [
    ("bug", "C33,C09", F, EQ, WALK % "a == paths_.end()"),
    ("bug", "C33,C09", F, EQ, WALK % "b == other.paths_.end()"),
    ("bug", "C33,C09", F, EQ, WALK % "a == paths_.end() || b == other.paths_.end()"),
    ("same", "C33,C09", F, EQ, """    auto b = other.paths_.begin();
    for (const auto& s : paths_)
    {
        if (b == other.paths_.end() || s != *b)
            return false;
        ++b;
    }
    return b == other.paths_.end();"""),
    ("bug", "C33,C09", F, EQ, """    auto b = other.paths_.begin();
    for (const auto& s : paths_)
    {
        if (b == other.paths_.end() || s != *b)
            return false;
        ++b;
    }
    return true;"""),
    ("bug", "C33,C09", F, EQ, """    auto b = other.paths_.begin();
    for (const auto& s : paths_)
    {
        if (b == other.paths_.end())
            break;
        if (s != *b)
            return false;
        ++b;
    }
    return b == other.paths_.end();"""),
]
