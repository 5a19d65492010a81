"""Checks of the value types: metric values, snapshots, copies (sequential value flow)."""
import re
from . import core, flow, settings, snapshots
from .policies import S
from .registry import prop

SPEC_RULE = ("for every driver drv_X over the public API the normalised value flow (after inlining, devirtualisation and "
             "value numbering by the compiler, then a decision diagram over its comparisons) must equal that of the "
             "specification ref_X; an obligation is one such pair")


@prop("C06", level="proof", technique="value-flow normal forms (compiler IR) compared with specification functions",
      rule=SPEC_RULE,
      explains="every comparison operator of metric_value, for pairs of values of one kind (each integral width, each floating "
               "type, each duration unit, text), for integers and floats of different widths and durations of different units, and the equality operators of value_snapshot, "
               "are reduced to a decision over the operands and compared with the language's own comparison of the operands",
      assumptions=["floating point operands are not NaN", "durations fit 64 bit nanoseconds and are told apart to the nanosecond"])
def c06(c):
    m = core.normalise("order.cpp", "S", S)
    n = core.spec_pairs(c, m, nan=False)
    c.expect(n, 400, "comparisons checked")


def leaves(t, pred, out):
    if isinstance(t, tuple):
        if t and pred(t):
            out.append(t)
        for x in t:
            leaves(x, pred, out)
    return out


def traps(w, d):
    """the divisor for which a division (op name type dividend divisor) is not known to be defined, or None"""
    args = d[3:] if len(d) == 5 else d[3]
    num, den = args[0], args[1]
    signed = d[1][0] == "s"
    wide = not (num[0] == "op" and num[1] in ("sext", "zext"))
    while den[0] == "op" and den[1] in ("sext", "zext"):
        den = den[3]
    for v in (0, -1) if signed and wide else (0,):
        if flow.isC(den):
            if flow.sgn(den[1], den[2]) == v:
                return v
            continue
        iv, ne = w.iv.get(den), w.ne.get(den, ())
        if iv and not (iv[0] <= v <= iv[1]) or any(flow.mask(x, 64) == flow.mask(v, 64) or x == v for x in ne):
            continue
        if iv and v < 0 and iv[3] < (1 << 31):
            continue
        if v < 0 and any(x == flow.mask(v, b) for x in ne for b in (8, 16, 32, 64)):
            continue
        return v
    return None


def truncated(t):
    """a parsed floating point number turned into an integer"""
    while isinstance(t, tuple) and t and t[0] == "op" and t[1] in ("sext", "zext", "trunc"):
        t = t[3]
    return isinstance(t, tuple) and t and t[0] == "op" and t[1] in ("fptosi", "fptoui") and bool(
        leaves(t[3:], lambda x: x[0] == "op" and x[1] in PARSES, [])) and not leaves(
        t[3:], lambda x: x[0] == "op" and x[1] in ("fmul", "fdiv"), [])


def plain(t):
    """a parsed number, possibly in another type"""
    while isinstance(t, tuple) and t and t[0] == "op" and t[1] in ("sext", "zext", "trunc", "rnd", "sitofp", "uitofp", "fptosi", "fptoui", "fpext", "fptrunc"):
        t = t[3]
    return flow.isC(t) or t[0] == "op" and t[1] in PARSES


PARSES = ("strtol", "strtoll", "strtoul", "strtoull", "strtod", "strtof", "strtold")


@prop("C08", level="proof", technique="value-flow normal forms (compiler IR) compared with specification functions; validated-use rule for parsed text",
      rule=SPEC_RULE + "; text operands: on every path on which the result depends on a parsed number the parser's end "
           "pointer was tested to be at the end of the text, and on every path without such a test the other operand is unchanged; "
           "a conversion gives the parsed number itself, as nanoseconds for a duration",
      explains="addition, subtraction, multiplication, division, negation, compound assignment, copies, moves and conversions of "
               "metric values of every integral and floating type, of mixed integers, of integers with floats and of durations in six "
               "units are reduced to value-flow normal forms over the operands",
      assumptions=["precision: a result is only distinguished from the specification when it passes through a narrower floating type "
                   "or a different operation; double rounding is not modelled"])
def c08(c):
    m = core.normalise("arith.cpp", "S", S, prefix="drv_,ref_,txt_")
    n = core.spec_pairs(c, m, nan=False)
    c.expect(n, 373, "arithmetic results compared")
    k = 0
    for f in m.roots("txt_"):
        k += 1
        num = not f.name.startswith("txt_conv")
        try:
            # text that is no number is left out of the operation: nothing - b is -b
            same = m.fns["ref_txt_" + ("neg" if f.name.startswith("txt_sub") and f.name.endswith("_r") else "same") +
                         ("_ms" if "_ms_" in f.name else "_f64" if "_f64" in f.name else "")]
            for w, (o, e) in flow.cases([f, same], nan=False, mod=m):
                c.count("paths with text operands")
                used = leaves(o.ret, lambda t: t[0] == "op" and t[1] in PARSES, [])
                valid = set()
                for t, iv in w.iv.items():
                    if t[0] == "op" and t[1] == "endchar" and iv[2] == iv[3] == 0:
                        valid.add((t[3], t[4]))
                key = "%s:parsed" % f.name
                bad = [u for u in used if (u[1], u[3]) not in valid]
                odd = [u for u in used if u[1] not in ("strtod", "strtof", "strtold") and flow.sgn(u[4][1], 32) != 10]
                trap = None
                for d in leaves(o.ret, lambda t: t[0] == "op" and t[1] in ("sdiv", "srem", "udiv", "urem"), []):
                    trap = trap or traps(w, d)
                if trap:
                    c.bad("%s:trap" % f.name, core.origin(f), "a division by %s traps" % trap,
                          "case: %s\nresult: %s" % ("; ".join(w.log), o.show()))
                cut = [d for d in leaves(o.ret, lambda t: t[0] == "op" and t[1] in ("mul", "sdiv", "udiv"), [])
                       if any(truncated(x) for x in (d[3:] if d[1] == "mul" else d[4:]))]
                if cut:
                    c.bad("%s:truncated" % f.name, core.origin(f), "the fraction of a parsed number is dropped before it is used",
                          "case: %s\nresult: %s" % ("; ".join(w.log), o.show()))
                if bad:
                    c.bad(key, core.origin(f), "a number parsed from text is used although the text is not known to be a number",
                          "case: %s\nresult: %s" % ("; ".join(w.log), o.show()))
                elif odd:
                    c.bad(key, core.origin(f), "text is not parsed as a decimal number", o.show())
                elif not num and used and not plain(o.ret):
                    c.bad("%s:converted" % f.name, core.origin(f), "the number a text is converted to is not the one it writes",
                          "case: %s\nresult: %s" % ("; ".join(w.log), o.show()))
                elif num and not used and not valid and o.ret != e.ret:
                    c.bad(key, core.origin(f), "an operand that is no number changes the other operand",
                          "case: %s\nresult: %s" % ("; ".join(w.log), o.show()))
                else:
                    c.ok(key, "; ".join(w.log))
        except (flow.Unsupported, flow.TooBig) as e:
            raise core.AnalysisError("%s: %s" % (f.name, e))
    c.expect(k, 30, "functions with a text operand")


@prop("C20", level="proof", technique="value-flow normal forms (compiler IR) compared with specification functions",
      rule=SPEC_RULE,
      explains="for each kind of publish options: every accessor after construction by every constructor, after copy and move "
               "construction and assignment, alone and inside the combined options",
      assumptions=[])
def c20(c):
    m = core.normalise("options.cpp", "S", S, prefix="drv_,ref_,avg_")
    n = core.spec_pairs(c, m, nan=False)
    c.expect(n, 783, "option values compared")
    n = core.spec_pairs(c, m, nan=False, real=True)
    c.expect(n, 4, "quantiles not set compared")
    settings.check(c)


@prop("C25", level="proof", technique="value-flow normal forms (compiler IR) compared with specification functions, averages over the reals",
      rule=SPEC_RULE + "; merged snapshots are compared as rational functions over the reals",
      explains="gauges of values, references, pointers, function objects and std::function: current value after set, assignment, "
               "change of the referred object, copies and moves; kind and merged value of the snapshot for both aggregations",
      assumptions=["rounding of floating point arithmetic is not modelled"])
def c25(c):
    m = core.normalise("snap.cpp", "S", S, prefix="drv_,ref_,avg_")
    n = core.spec_pairs(c, m, nan=False, prefix="gc_")
    c.expect(n, 60, "gauge readings compared")
    n = core.spec_pairs(c, m, nan=False, prefix="g", real=True)
    c.expect(n, 11, "gauge aggregations compared")


def sorts(ev, i, name, args):
    return flow.UNDEF


@prop("C31", level="proof", technique="value-flow normal forms (compiler IR) compared with specification functions over the reals, values symbolic",
      rule=SPEC_RULE + "; positions within 1e-8 of each other are the same (a quantile is linear between them)",
      explains="snapshots of one to four values, of integral and of floating point kind, from an array and from a range: quantiles at several positions "
               "including both ends and the places where one pair of neighbours gives way to the next, minimum, maximum, mean, size, and samples of up to seven",
      assumptions=["std::sort leaves values alone that are in order (C05: snapshots are in order)", "rounding of floating point arithmetic is not modelled"])
def c31(c):
    m = core.normalise("summary.cpp", "S", [r"opaque ^void std::(stable_|partial_)?sort<"] + S, prefix="avg_drv_,avg_ref_", tool=["--whole"])
    n = core.spec_pairs(c, m, nan=False, real=True, snap=1e-8, exact=[(re.compile(r"^void std::(stable_)?sort<"), sorts)])
    c.expect(n, 100, "readings of snapshots compared")
    snapshots.any_size(c)


def chosen(ev, i, name, args):
    """the random choice falls on the lowest number it may fall on (which position is replaced is no part of the property)"""
    return ev.load(args[2] if len(args) > 2 else args[0], flow.width(i.ty) // 8, i.ty)


ENGINES = r"std::(linear_congruential|mersenne_twister|subtract_with_carry)_engine<.*>::operator\(\)"
CHOICE = r"std::uniform_int_distribution<.*>::operator\(\)"


@prop("C32", level="proof", technique="value-flow normal forms (compiler IR) compared with specification functions over the reals, values and times symbolic",
      rule=SPEC_RULE,
      explains="size and mean of the snapshot after up to four updates at any times, of sliding windows of two and three elements and any length "
               "(also of copies, of what was assigned to and of the original after the copy went on), of simple and uniform reservoirs below and beyond their capacity, and of new ones",
      assumptions=["times and windows are far enough from the ends of 64 bit nanoseconds for their differences to fit",
                   "the size of a uniform reservoir beyond its capacity is decided for one outcome of the random choice (C03: any outcome stays inside the storage)",
                   "rounding of floating point arithmetic is not modelled"])
def c32(c):
    opaque = [r"opaque ^void std::(stable_|partial_)?sort<", "opaque ^(unsigned |int |long |short )+" + CHOICE, "opaque ^" + ENGINES]
    m = core.normalise("window.cpp", "S", opaque + S, prefix="avg_drv_,avg_ref_", tool=["--whole"])
    exact = [(re.compile(r"^void std::(stable_)?sort<"), sorts), (re.compile(CHOICE.replace(r"\(\)", "")), chosen),
             (re.compile("^" + ENGINES.replace(r"\(\)", "")), lambda ev, i, name, args: flow.C(1, flow.width(i.ty)))]
    n = core.spec_pairs(c, m, nan=False, real=True, exact=exact)
    c.expect(n, 30, "readings of reservoirs compared")


def text(ev, i, name, args):
    """a text that is looked at: its parts that are not known to be empty"""
    v = flow.cat(("lit", b""), ev.strval(args[0]))
    r = ("lit", b"")
    for q in (v[1:] if v[0] == "cat" else (v,)):
        if ev.w.value(("op", "length", "i64", q), 64) != 0:
            r = flow.cat(r, q)
    ev.trace.append(("text", r))
    return flow.UNDEF


@prop("C33", level="proof", technique="value-flow normal forms (compiler IR) compared with specification functions, texts symbolic",
      rule=SPEC_RULE + "; texts are compared as sequences of the texts they are joined from",
      explains="paths of up to four components of any text, written as text, literals of every kind and text with a length: what they are joined to "
               "with any delimiter, in which order their components are walked over, and which of them are equal; operands of a composition and copies stay as they were",
      assumptions=["the library's strings behave as the standard says"])
def c33(c):
    m = core.normalise("path.cpp", "S", S, prefix="drv_,ref_", tool=["--whole"])
    n = core.spec_pairs(c, m, nan=False, exact=[(re.compile("^probe_text"), text)])
    c.expect(n, 15, "compositions compared")


TIMES = """
#include "common.hpp"
#include <cxxmetrics/time.hpp>
#include <cxxmetrics/snapshots.hpp>
using namespace cxxmetrics;
using namespace cxxmetrics_literals;
typedef period::value V;
%s
"""
# the same duration written in different units, and different ones
SAME = [("1_msec", "1000_micro"), ("1_sec", "1000_msec"), ("1_sec", "1000000_micro"), ("1_min", "60_sec"), ("1_hour", "60_min"), ("24_hour", "1440_min"), ("2_min", "120000_msec")]
RISING = ["0_sec", "1_micro", "999_micro", "1_msec", "999_msec", "1_sec", "59_sec", "1_min", "61_sec", "59_min", "1_hour", "61_min", "24_hour", "1000_hour"]
QUANT = """
// template arguments hold a quantile to within their resolution, in order
constexpr long double back(V v) { return quantile(v).percentile(); }
constexpr bool near(long double a, long double b) { return a - b < 100.0l / 4294967295 && b - a < 100.0l / 4294967295; }
constexpr bool whole(int from, int to) { for (int i = from; i <= to; ++i) { const V v = quantile((long double)i); if (!near(back(v), i)) return false; } return true; }
constexpr bool fine(int from, int to) { for (int i = from; i <= to; ++i) { const V v = quantile(i / 1000.0l); if (!near(back(v), i / 1000.0l)) return false; } return true; }
constexpr bool rises(int from, int to) { for (int i = from; i < to; ++i) { const V v = quantile(i / 1000.0l), w = quantile((i + 1) / 1000.0l); if (v >= w) return false; } return true; }
"""
QUANTS = ["whole(0, 100)"] + ["fine(%d, %d)" % (i, i + 4999) for i in range(0, 100000, 5000)] + ["rises(%d, %d)" % (i, i + 5000) for i in range(0, 100000, 5000)] + [
    "near(back(V(99.9_p)), 99.9l)", "near(back(V(50_p)), 50)", "V(100_p) == 4294967295ull", "V(0_p) == 0", "(75_p).percentile() == 75.0l", "(99.9_p).percentile() == 99.9l", "(0.5_p).percentile() == 0.5l"]


@prop("C26", level="proof", technique="value-flow normal forms (compiler IR) compared with specification functions; constants evaluated by the type checker",
      rule=SPEC_RULE + "; constant expressions over the literals must hold",
      explains="for each unit: the duration, the conversion and the literal of a window of any length, arithmetic with windows, durations "
               "compared and computed with windows; constants: the same duration in different units is the same window, windows are "
               "ordered like durations, quantiles in thousandths of a percent survive the conversion to a template argument and stay in order",
      assumptions=["the length of a window fits the 64 bits that hold it"])
def c26(c):
    m = core.normalise("times.cpp", "S", S)
    n = core.spec_pairs(c, m, nan=False)
    c.expect(n, 70, "windows and quantiles compared")
    facts = [("same:%s:%s" % (a, b), "V(%s) == V(%s)" % (a, b)) for a, b in SAME]
    facts += [("same:%s:%s:duration" % (a, b), "(%s).to_duration() == (%s).to_duration()" % (a, b)) for a, b in SAME]
    facts += [("order:%s:%s" % (a, b), "V(%s) < V(%s)" % (a, b)) for a, b in zip(RISING, RISING[1:])]
    facts += [("order:%s:%s:duration" % (a, b), "(%s).to_duration() < (%s).to_duration()" % (a, b)) for a, b in zip(RISING, RISING[1:])]
    facts += [("exact:%s" % l, "(%s).to_duration() == std::chrono::%s" % (l, d)) for l, d in
              [("7_micro", "microseconds(7)"), ("7_msec", "milliseconds(7)"), ("7_sec", "seconds(7)"), ("7_min", "minutes(7)"), ("7_hour", "hours(7)")]]
    facts += [("quantile:" + q, q) for q in QUANTS]
    ok, diag = core.syntax(TIMES % QUANT + "V w = V(1_sec); quantile q = 50_p;", "times0.cpp", ["-fconstexpr-steps=100000000"])
    if not ok:
        raise core.AnalysisError("the witnesses do not compile: " + diag[:500])
    code = TIMES % QUANT + "\n".join('static_assert(%s, "W%d");' % (f, i) for i, (_, f) in enumerate(facts))
    ok, diag = core.syntax(code, "times1.cpp", ["-fconstexpr-steps=100000000", "-ferror-limit=0"])
    failed = set(int(x) for x in re.findall(r"static assertion failed[^\n]*W(\d+)", diag))
    if not ok and not failed or "not an integral constant expression" in diag:
        raise core.AnalysisError("the witnesses cannot be evaluated: " + diag[:800])
    for i, (name, f) in enumerate(facts):
        c.require(i not in failed, name, "cxxmetrics/snapshots.hpp (quantile)" if name.startswith("quantile") else "cxxmetrics/time.hpp (literals)", "%s does not hold" % f)
    c.expect(len(facts), 80, "constant facts")
