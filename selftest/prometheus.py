W = "cxxmetrics_prometheus/snapshot_writer.hpp"
C = "cxxmetrics_prometheus/prometheus_counter.hpp"
G = "cxxmetrics_prometheus/prometheus_gauge.hpp"
M = "cxxmetrics_prometheus/prometheus_meter.hpp"
H = "cxxmetrics_prometheus/prometheus_histogram.hpp"
T = "cxxmetrics_prometheus/prometheus_timer.hpp"
P = "cxxmetrics_prometheus/prometheus_publisher.hpp"
B, O = "bug", "same"
CROW = """        stream << internal::name(path) << '{' << internal::tags(tags) << "} " << internal::scale_value(snapshot.value(), options.value_options()) << "\\n";
"""
EL = """    for (std::size_t i = 0; i < element.size(); i++)
    {
        char c = element[i];
        if (!isalnum(static_cast<unsigned char>(c)))
            into << '_';
        else
            into << c;
    }
"""
TV = """    for (auto c : value)
    {
        if (c == '"')
            into << "\\\\\\"";
        else if (c == '\\\\')
            into << "\\\\\\\\";
        else if (c == '\\n')
            into << "\\\\n";
        else
            into << c;
    }
"""
TAGS = """    auto tag = tags.begin();
    if (tag == tags.end())
        return into;

    format_tag_name(into, tag->first);
    into << "=\\"";
    format_tag_value(into, tag->second) << "\\"";
    for (++tag; tag != tags.end(); ++tag)
    {
        into << ",";
        format_tag_name(into, tag->first) << "=\\"";
        format_tag_value(into, tag->second) << "\\"";
    }
"""
NAME = """    auto elem = path.begin();
    if (elem->empty() || std::isdigit(static_cast<unsigned char>((*elem)[0])))
        into << '_';

    format_name_element(into, *elem);
    for (++elem; elem != path.end(); ++elem)
    {
        into << ':';
        format_name_element(into, *elem);
    }
"""
GUARD = """            if (name.begin() == name.end())
                return;
"""
WROTE = """       if (!header_written) \\
       { \\
           write_header(); \\
           header_written = true; \\
       } \\
"""
EDITS = [
    # well formed output
    (B, "C21", W, " || std::isnan(static_cast<long double>(value))", ""),
    (B, "C21", W, 'text.find_first_not_of("+-.0123456789eEinftyaINFTYA") != std::string::npos || ', ""),
    (B, "C21", W, "+-.0123456789eEinftyaINFTYA", "+-. 0123456789eEinftyaINFTYA"),
    (B, "C21", W, "return sample_value(sample * cxxmetrics::metric_value(opts.scale().factor()));", "return sample * cxxmetrics::metric_value(opts.scale().factor());"),
    (B, "C21", W, "std::numeric_limits<double>::quiet_NaN()", "-std::numeric_limits<double>::quiet_NaN()"),
    (B, "C21", W, "if (elem->empty() || std::isdigit(static_cast<unsigned char>((*elem)[0])))", "if (elem->empty())"),
    (B, "C21", W, "if (elem->empty() || std::isdigit(static_cast<unsigned char>((*elem)[0])))", "if (!elem->empty() && std::isdigit(static_cast<unsigned char>((*elem)[0])))"),
    (B, "C21", W, "if (name.empty() || std::isdigit(static_cast<unsigned char>(name[0])))", "if (!name.empty() && std::isdigit(static_cast<unsigned char>(name[0])))"),
    (B, "C21", W, "if (!isalnum(static_cast<unsigned char>(c)))", "if (!isalnum(static_cast<unsigned char>(c)) && c != '.')"),
    (B, "C21", W, "if (!isalnum(static_cast<unsigned char>(c)))", "if (!isprint(static_cast<unsigned char>(c)))"),
    (B, "C21", W, """        else if (c == '\\\\')
            into << "\\\\\\\\";
        else if (c == '\\n')
            into << "\\\\n";
""", """        else if (c == '\\n')
            into << "\\\\n";
""", 1),
    (B, "C21", W, """        if (c == '"')
            into << "\\\\\\"";
        else if""", "        if"),
    (B, "C21", W, """        if (c == '\\\\')
            into << "\\\\\\\\";
        else if (c == '\\n')
            into << "\\\\n";
        else
            into << c;""", """        if (c == '\\\\')
            into << "\\\\\\\\";
        else
            into << c;"""),
    (B, "C21", W, "        into << \",\";\n        format_tag_name", "        format_tag_name"),
    (B, "C21", W, "        into << ':';\n", "        into << '.';\n"),
    (B, "C21", W, "           header_written = true; \\\n", ""),
    (B, "C21", W, "           write_header(); \\\n", ""),
    (B, "C21", P, "            bool header = false;\n", "            bool header = true;\n"),
    (B, "C21", (P, "            bool header = false;\n", ""), (P, "        this->visit_all([this, &into]", "        bool header = false;\n        this->visit_all([this, &into, &header]")),
    (B, "C21", P, GUARD, ""),
    (B, "C21", G, 'gauge\\n"', 'gauge "'),
    (B, "C21", G, 'gauge\\n"', 'counter_gauge\\n"'),
    (B, "C21", G, '"} "', '"}"'),
    (B, "C21", M, 'if (tags.begin() != tags.end())\n            comma = ",";', 'comma = tags.begin() != tags.end() ? "" : ",";'),
    (B, "C21", M, 'const char* comma = "";', 'const char* comma = ";";'),
    (B, "C21", M, '<< "window=\\"" <<', '<< "window=" <<'),
    (B, "C21", T, 'internal::format_help(stream, path.join("/"))', 'stream << path.join("/")'),
    (B, "C21", T, '"quantile=\\"" << (q.percentile() / 100.0) << "\\""', '"quantile=\\"" << (q.percentile() / 100.0)'),
    (B, "C21", T, '" in microseconds\\n"', '" in\\nmicroseconds\\n"'),
    (B, "C21", T, "<< internal::window(window.first) << \"\\\"\" << comma", "<< internal::window(window.first) << \"\\\"\""),
    (B, "C21", H, "internal::scale_value(std::move(value), options.histogram_options())", "value"),
    (B, "C21", G, "internal::scale_value(snapshot.value(), options.value_options())", "snapshot.value()"),
    # refactorings
    (O, "C21,C22,C23", W, EL, """    for (auto c : element)
        into << (std::isalnum(static_cast<unsigned char>(c)) ? c : '_');
"""),
    (O, "C21,C22,C23", W, EL, """    for (auto it = element.begin(); it != element.end(); ++it)
    {
        const auto u = static_cast<unsigned char>(*it);
        const bool fine = (u >= 'a' && u <= 'z') || (u >= 'A' && u <= 'Z') || (u >= '0' && u <= '9');
        if (fine)
            into.put(*it);
        else
            into.put('_');
    }
"""),
    (O, "C21,C22,C23", W, TV, """    for (std::size_t i = 0; i < value.length(); ++i)
    {
        switch (value[i])
        {
        case '"':
            into << '\\\\' << '"';
            break;
        case '\\\\':
            into << "\\\\\\\\";
            break;
        case '\\n':
            into << "\\\\n";
            break;
        default:
            into << value[i];
        }
    }
"""),
    (O, "C21,C22,C23", W, TAGS, """    const char* sep = "";
    for (const auto& tag : tags)
    {
        into << sep;
        format_tag_name(into, tag.first) << "=\\"";
        format_tag_value(into, tag.second) << '"';
        sep = ",";
    }
"""),
    (O, "C21,C22,C23", W, TAGS, """    bool first = true;
    for (auto tag = tags.begin(); tag != tags.end(); ++tag)
    {
        if (!first)
            into << ',';
        first = false;
        format_tag_name(into, tag->first);
        into << "=\\"";
        format_tag_value(into, tag->second);
        into << "\\"";
    }
"""),
    (O, "C21,C22,C23", W, NAME, """    bool first = true;
    for (const auto& elem : path)
    {
        if (!first)
            into << ':';
        else if (elem.empty() || std::isdigit(static_cast<unsigned char>(elem.front())))
            into << '_';
        first = false;
        format_name_element(into, elem);
    }
"""),
    (O, "C21,C22,C23", W, WROTE, """       if (header_written) \\
           return; \\
       header_written = true; \\
       write_header(); \\
"""),
    (O, "C21,C22,C23", C, CROW, """        auto value = internal::scale_value(snapshot.value(), options.value_options());
        stream << internal::name(path);
        stream << "{" << internal::tags(tags) << "} ";
        stream << value << '\\n';
"""),
    (O, "C21,C22,C23", (W, "inline std::ostream& format_name_element(", """template<typename T>
void write_row(std::ostream& into, const cxxmetrics::metric_path& path, const char* suffix, T&& labels, const cxxmetrics::metric_value& value);

inline std::ostream& format_name_element("""), (W, "};\n\n#define", """template<typename T>
void write_row(std::ostream& into, const cxxmetrics::metric_path& path, const char* suffix, T&& labels, const cxxmetrics::metric_value& value)
{
    into << name(path) << suffix << '{';
    labels();
    into << "} " << value << "\\n";
}

};

#define"""), (C, CROW, """        internal::write_row(stream, path, "", [&] { stream << internal::tags(tags); }, internal::scale_value(snapshot.value(), options.value_options()));
""")),
    (O, "C21,C22,C23", M, """        const char* comma = "";
        if (tags.begin() != tags.end())
            comma = ",";
""", """        const std::string comma = tags.begin() == tags.end() ? "" : ",";
"""),
    (O, "C21,C22,C23", H, """        const char* comma = "";
        if (tags.begin() != tags.end())
            comma = ",";
""", """        const bool tagged = tags.begin() != tags.end();
        const char* comma = tagged ? "," : "";
"""),
    (O, "C21,C22,C23", (P, GUARD, ""), (P, "            const auto& options", GUARD + "\n            const auto& options")),
]
