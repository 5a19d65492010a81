// C33: composing paths puts their components one after the other; joining puts the delimiter between them
#include "common.hpp"
#include <cxxmetrics/metric_path.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
typedef std::string str;
typedef const std::string& cs;
X void probe_text(cs);
inline void text(cs s) { probe_text(s); }

// the components that are not empty, with the delimiter between them
inline str joined(const str* const* v, int n, cs d) {
    str r;
    bool first = true;
    for (int i = 0; i < n; ++i) {
        if (v[i]->empty())
            continue;
        if (!first)
            r += d;
        r += *v[i];
        first = false;
    }
    return r;
}
#define REF(N, ...) const str* v[] = { __VA_ARGS__ }; text(joined(v, N, d));
X void drv_one(cs a, cs d) { text(metric_path(a).join(d)); }
X void ref_one(cs a, cs d) { REF(1, &a) }
X void drv_two(cs a, cs b, cs d) { text((metric_path(a) / metric_path(b)).join(d)); }
X void ref_two(cs a, cs b, cs d) { REF(2, &a, &b) }
X void drv_three(cs a, cs b, cs c, cs d) { text((metric_path(a) / metric_path(b) / metric_path(c)).join(d)); }
X void ref_three(cs a, cs b, cs c, cs d) { REF(3, &a, &b, &c) }
X void drv_right(cs a, cs b, cs c, cs d) { text((metric_path(a) / (metric_path(b) / metric_path(c))).join(d)); }
X void ref_right(cs a, cs b, cs c, cs d) { REF(3, &a, &b, &c) }
// a path with literal text to the left, to the right, written as _m and written with its length
X void drv_left(cs a, cs d) { text(("left" / metric_path(a)).join(d)); }
X void ref_left(cs a, cs d) { str l("left"); REF(2, &l, &a) }
X void drv_lit(cs a, cs d) { text((metric_path(a) / "right").join(d)); }
X void ref_lit(cs a, cs d) { str l("right"); REF(2, &a, &l) }
X void drv_userlit(cs a, cs d) { text(("mine"_m / metric_path(a)).join(d)); }
X void ref_userlit(cs a, cs d) { str l("mine"); REF(2, &l, &a) }
X void drv_length(cs a, cs d) { text((metric_path("abcdef", 3) / metric_path(a)).join(d)); }
X void ref_length(cs a, cs d) { str l("abc"); REF(2, &l, &a) }
X void drv_none(cs a, cs d) { text((metric_path("") / metric_path(a) / "" / ""_m).join(d)); }
X void ref_none(cs a, cs d) { REF(1, &a) }
X void drv_leftnone(cs a, cs d) { text(("" / metric_path(a)).join(d)); }
X void ref_leftnone(cs a, cs d) { REF(1, &a) }
// composing a path with itself, and composing onto a copy, leave the operands as they were
X void drv_self(cs a, cs d) { metric_path p(a); text((p / p).join(d)); text(p.join(d)); }
X void ref_self(cs a, cs d) { { REF(2, &a, &a) } { REF(1, &a) } }
X void drv_operands(cs a, cs b, cs d) { metric_path p(a), q(b); metric_path r = p / q; text(p.join(d)); text(q.join(d)); text(r.join(d)); }
X void ref_operands(cs a, cs b, cs d) { { REF(1, &a) } { REF(1, &b) } { REF(2, &a, &b) } }
// walking over a path
X void drv_walk(cs a, cs b) { for (auto& s : metric_path(a) / metric_path(b)) text(s); }
X void ref_walk(cs a, cs b) { if (!a.empty()) text(a); if (!b.empty()) text(b); }
// paths are equal when their components are
inline bool same(const str* const* v, int n, const str* const* w, int m) {
    int i = 0, j = 0;
    for (;;) {
        while (i < n && v[i]->empty()) ++i;
        while (j < m && w[j]->empty()) ++j;
        if (i == n || j == m)
            return i == n && j == m;
        if (*v[i++] != *w[j++])
            return false;
    }
}
#define EQ(N, M) ref_bool(same(v, N, w, M))
X void probe_bool(int);
inline void ref_bool(bool b) { probe_bool(b ? 1 : 0); }
X void drv_assoc(cs a, cs b, cs c) { ref_bool((metric_path(a) / metric_path(b)) / metric_path(c) == metric_path(a) / (metric_path(b) / metric_path(c))); }
X void ref_assoc(cs a, cs b, cs c) { ref_bool(true); }
X void drv_eq1(cs a, cs b) { ref_bool(metric_path(a) == metric_path(b)); }
X void ref_eq1(cs a, cs b) { const str* v[] = {&a}; const str* w[] = {&b}; EQ(1, 1); }
X void drv_ne1(cs a, cs b) { ref_bool(!(metric_path(a) != metric_path(b))); }
X void ref_ne1(cs a, cs b) { const str* v[] = {&a}; const str* w[] = {&b}; EQ(1, 1); }
X void drv_eq2(cs a, cs b, cs c, cs d) { ref_bool(metric_path(a) / metric_path(b) == metric_path(c) / metric_path(d)); }
X void ref_eq2(cs a, cs b, cs c, cs d) { const str* v[] = {&a, &b}; const str* w[] = {&c, &d}; EQ(2, 2); }
X void drv_ne2(cs a, cs b, cs c, cs d) { ref_bool(!(metric_path(a) / metric_path(b) != metric_path(c) / metric_path(d))); }
X void ref_ne2(cs a, cs b, cs c, cs d) { const str* v[] = {&a, &b}; const str* w[] = {&c, &d}; EQ(2, 2); }
X void drv_eq21(cs a, cs b, cs c) { ref_bool(metric_path(a) / metric_path(b) == metric_path(c)); }
X void ref_eq21(cs a, cs b, cs c) { const str* v[] = {&a, &b}; const str* w[] = {&c}; EQ(2, 1); }
// copies, moves and assignments
X void drv_copy(cs a, cs b, cs d) { metric_path p = metric_path(a) / metric_path(b); metric_path q(p); q = q / "x"; text(p.join(d)); text(q.join(d)); }
X void ref_copy(cs a, cs b, cs d) { str l("x"); { REF(2, &a, &b) } { REF(3, &a, &b, &l) } }
X void drv_assign(cs a, cs b, cs d) { metric_path p(a); const metric_path q(b); p = q; text(p.join(d)); text(q.join(d)); p = p / p; text(q.join(d)); text(p.join(d)); }
X void ref_assign(cs a, cs b, cs d) { { REF(1, &b) } { REF(1, &b) } { REF(1, &b) } { REF(2, &b, &b) } }
X void drv_moved(cs a, cs b, cs d) { metric_path p = metric_path(a) / metric_path(b); metric_path q(std::move(p)); text(q.join(d)); metric_path r(a); r = std::move(q); text(r.join(d)); }
X void ref_moved(cs a, cs b, cs d) { { REF(2, &a, &b) } { REF(2, &a, &b) } }
X void drv_four(cs a, cs b, cs c, cs e, cs d) { text(((metric_path(a) / metric_path(b)) / (metric_path(c) / metric_path(e))).join(d)); }
X void ref_four(cs a, cs b, cs c, cs e, cs d) { REF(4, &a, &b, &c, &e) }
X void drv_cstr(cs a, cs d) { const char* s = "pointer"; text((metric_path(s) / metric_path(a)).join(d)); }
X void ref_cstr(cs a, cs d) { str l("pointer"); REF(2, &l, &a) }
X void drv_null(cs a, cs d) { const char* s = nullptr; text((metric_path(s) / metric_path(a)).join(d)); }
X void ref_null(cs a, cs d) { REF(1, &a) }
#define LENGTH(NAME, LEN, WHAT) \
    X void drv_##NAME(cs a, cs d) { const char* s = "abcdefghijklmnopqrst"; text((metric_path(a) / metric_path(s, LEN)).join(d)); } \
    X void ref_##NAME(cs a, cs d) { str l(WHAT); REF(2, &a, &l) }
LENGTH(length1, 1, "a")
LENGTH(length2, 2, "ab")
LENGTH(length5, 5, "abcde")
LENGTH(length16, 16, "abcdefghijklmnop")
LENGTH(length20, 20, "abcdefghijklmnopqrst")
LENGTH(length0, 0, "abcdefghijklmnopqrst")
#define LITERAL(NAME, TEXT) \
    X void drv_##NAME(cs a, cs d) { text((metric_path(a) / TEXT##_m / TEXT).join(d)); } \
    X void ref_##NAME(cs a, cs d) { str l(TEXT); REF(3, &a, &l, &l) } \
    X void drv_before##NAME(cs a, cs d) { text((TEXT / (TEXT##_m / metric_path(a))).join(d)); } \
    X void ref_before##NAME(cs a, cs d) { str l(TEXT); REF(3, &l, &l, &a) }
LITERAL(lit1, "a")
LITERAL(lit2, "ab")
LITERAL(slash, "a/b")
LITERAL(blank, " ")
LITERAL(litlong, "a text longer than what a string keeps inside")
