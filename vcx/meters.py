"""Meters and timers."""
import itertools
import re

from . import core, flow, policies, trace
from .averages import bare, cellof, conv
from .facts import Facts
from .flow import isC
from .registry import prop
from .snapshots import ptr

# what a moving average does is decided elsewhere
P = [r"opaque cxxmetrics::(internal::)?ewma<.*>::(mark|rate)[<(]"] + policies.A
EWMA = re.compile(r"cxxmetrics::(?:internal::)?ewma<(.*)>::(mark|rate)[<(]")
PUT = re.compile(r"std::(?:unordered_map|map)<.*>::(emplace|emplace_hint|try_emplace|insert|insert_or_assign|operator\[\])[<(]")


class Peek(trace.Tracer):
    peek = PUT


def ewma_of(name):
    """(method, window, interval) of a call of a moving average, in microseconds"""
    m = EWMA.search(name or "")
    if not m:
        return None
    ints = [int(x) for x in re.findall(r"(?<![\w:])(\d+)(?:u?l?l?)(?=[,>]|$)", m.group(1))]
    if len(ints) < 2:
        raise core.AnalysisError("cannot tell the window of %s" % name[:120])
    return m.group(2), ints[0], ints[1]


def ways(mod, n, cls=trace.Tracer, **kw):
    try:
        return [p for p in trace.paths(mod.fns[n], mod, cls=cls, stable=True, **kw) if not Facts(p.w).infeasible()]
    except (flow.Unsupported, flow.TooBig) as e:
        raise core.AnalysisError("%s: %s" % (n, e))


def marks(c, key, f, ps, windows, interval, amount, obj=0):
    """every way through marks each window and the total once; returns ({window: place}, {cells of the total})"""
    place, totals, bad = {}, set(), False
    rets = [p for p in ps if p.kind == "ret"]
    for p in ps:
        loops = [k for k, e in enumerate(p.ev) if e.kind == "loop" and e.x["h"] == p.ret] if p.kind == "back" else []
        seen, tot = {}, []
        for k, e in enumerate(p.ev):
            w = ewma_of(e.name) if e.kind == "call" else None
            if w and w[0] == "mark":
                seen.setdefault(w[1], []).append((k, e, w))
            if (e.kind == "rmw" or e.kind == "cas" and e.x["ok"]) and cellof(e) and conv(delta(e)) == amount:
                tot.append((k, e))
            elif e.kind in ("store", "rmw", "copy", "set") and cellof(e) in totals:
                c.bad("total:" + key, e.where(), "the total is changed by something other than the mark")
                bad = True
        if p.kind == "back":
            for k, e in [(k, e) for v in seen.values() for k, e, _ in v] + tot:
                if loops and k > loops[-1] and not (e.kind == "cas" and not e.x["ok"]):
                    c.bad("repeated:" + key, e.where(), "a mark is added each time round a loop")
                    bad = True
            continue
        if p.kind != "ret":
            continue
        totals |= {cellof(e) for _, e in tot}
        for w, es in sorted(seen.items()):
            if w not in windows:
                c.bad("window:%s:%s" % (key, w), es[0][1].where(), "a window of %d us is marked that the meter was not asked for" % w)
                bad = True
            if len(es) > 1:
                c.bad("twice:%s:%s" % (key, w), es[1][1].where(), "the window of %d us is marked %d times by one mark" % (w, len(es)))
                bad = True
            for _, e, d in es:
                if d[2] != interval:
                    c.bad("interval:%s:%s" % (key, w), e.where(), "the window of %d us ticks every %d us instead of %d" % (w, d[2], interval))
                    bad = True
                if conv(e.args[1]) != amount:
                    c.bad("amount:%s:%s" % (key, w), e.where(), "the window of %d us is marked with %s" % (w, flow.show(e.args[1])[:80]))
                    bad = True
                place.setdefault(w, set()).add(ptr(e.args[0])[1:3])
        for w in windows:
            if w not in seen:
                c.bad("missing:%s:%s" % (key, w), core.origin(f), "there is a way through a mark on which the window of %d us is not marked (%s)" % (w, p.facts()[:120]))
                bad = True
        if len(tot) != 1:
            c.bad("total:" + key, tot[1][1].where() if tot else core.origin(f), "there is a way through a mark that adds it %d times to the total (%s)" % (len(tot), p.facts()[:120]))
            bad = True
    if len(totals) > 1:
        c.bad("total:" + key, core.origin(f), "marks are added to different totals")
        bad = True
    for w, s in place.items():
        if len(s) > 1:
            c.bad("places:%s:%s" % (key, w), core.origin(f), "one window is kept in several places")
            bad = True
    flat = [x for s in place.values() for x in s]
    if len(set(flat)) != len(flat):
        c.bad("places:" + key, core.origin(f), "two windows share one average")
        bad = True
    if not rets:
        raise core.AnalysisError("%s: no way through" % f.name)
    if not bad:
        c.ok("marks:" + key, "%d ways, windows %s" % (len(rets), sorted(windows)))
    return {w: next(iter(s)) for w, s in place.items()}, totals


def delta(e):
    """what a step adds to its cell"""
    from .averages import added
    if e.kind == "rmw" and e.x.get("op") == "sub":
        return ("?",)
    d = added(e)
    return d if d is not None else ("?",)


def snapshot(c, n, mod, windows, place):
    key, f = n[3:], mod.fns[n]
    bad = False
    for p in ways(mod, n, cls=Peek):
        if p.kind != "ret":
            continue
        got = {}
        for k, e in enumerate(p.ev):
            if e.kind != "call" or not PUT.search(e.name or "") or e.x.get("in") is None:
                continue
            kt = e.x["in"][1] if len(e.x["in"]) > 1 else None
            kt = bare(kt[0]) if kt is not None else None
            if kt is None or not isC(kt):
                raise core.AnalysisError("%s: the key of an entry of the snapshot is not a constant at %s" % (n, e.where()))
            w = kt[1] // 1000
            rates = {v[1] for ws in e.x["in"][1:] for v in ws or () for v in [conv(v)] if v[0] == "res" and isinstance(v[1], int)}
            rates |= {conv(a)[1] for a in e.args[2:] if conv(a)[0] == "res"}
            for q in p.ev[k + 1:]:
                if q.kind == "store" and ptr(q.addr)[1] == e.res and conv(q.val)[0] == "res":
                    rates.add(conv(q.val)[1])
            rates = {x for x in rates if p.ev[x].kind == "call" and (ewma_of(p.ev[x].name) or ("",))[0] == "rate"}
            got.setdefault(w, []).append((e, rates))
        for w in windows:
            es = got.pop(w, [])
            if len(es) != 1:
                c.bad("entries:%s:%s" % (key, w), es[1][0].where() if es else core.origin(f), "the snapshot gets %d entries for the window of %d us" % (len(es), w))
                bad = True
                continue
            e, rates = es[0]
            want = [x for x in rates if ewma_of(p.ev[x].name)[1] == w and ptr(p.ev[x].args[0])[1:3] == place.get(w)]
            if not want:
                c.bad("entry:%s:%s" % (key, w), e.where(), "the entry of the snapshot for the window of %d us is not the rate of that window" % w)
                bad = True
        for w, es in got.items():
            c.bad("entries:%s:%s" % (key, w), es[0][0].where(), "the snapshot gets an entry for %d us, which is no window of the meter" % w)
            bad = True
    if not bad:
        c.ok("snapshot:" + key, "one entry for each of %s" % sorted(windows))


def meaning(c, n, mod, totals, interval, startcells):
    key, f = n[3:], mod.fns[n]
    full = bad = False
    for p in ways(mod, n):
        if p.kind != "ret":
            continue
        at = {}
        now = []
        for k, e in enumerate(p.ev):
            if e.kind == "load" and cellof(e):
                at.setdefault(cellof(e), []).append(e.res)
            if e.kind == "call" and e.short.endswith("::now"):
                now.append(e.res)
        tot = [t for x in totals for t in at.get(x, [])]
        starts = [(x, t) for x in at if x not in totals for t in at[x]]
        v = flow.infield(flow.eqclass(p.ret, p.w))
        plain = [t for t in tot if flow.infield(flow.eqclass(t, p.w)) == v]
        frac = []
        for t in tot:
            for x, s in starts:
                for m in now:
                    fr = ("op", "fmul", "d", t, ("op", "fdiv", "d", ("f", str(interval * 1000)), ("op", "fadd", "d", m, ("op", "fneg", "d", s))))
                    if flow.infield(flow.eqclass(fr, p.w)) == v:
                        frac.append(x)
        if frac:
            full = True
            startcells.update(frac)
        elif not plain:
            c.bad("mean:" + key, core.origin(f), "the mean is neither the total nor the total per interval since the first mark (%s)" % p.facts()[:120])
            bad = True
    if not bad:
        c.require(full, "mean:" + key, core.origin(f), "the mean is never the total per interval since the first mark", detail="total per interval")


@prop("C16", technique="path-sensitive dataflow over marks and readings (compiler IR), and type-level witnesses for the windows", level="sound-analysis",
      explains="mark, mean, readings and snapshots of meters with one to four windows, written in different orders, units and with repetitions; every permutation of four windows for the set of windows",
      rule="on every path of a mark each window of the meter is marked exactly once with that amount and the total grows by it exactly once; the reading of a window and its entry in a snapshot are the rate of the average that mark feeds for that window; the mean is the total per interval since the first mark; meters over the same windows have the same windows; a window that the meter does not have does not compile",
      assumptions=["a moving average counts each mark (C15)"])
def c16(c):
    mod = core.normalise("meter.cpp", "A", P, prefix="me_")
    kinds = sorted(n.split("__", 1)[1] for n in mod.fns if n.startswith("me_mark__"))
    nw = nr = 0
    for k in kinds:
        secs = [int(x) for x in k[2:].split("_")]
        interval, windows = secs[0] * 1000000, sorted({x * 1000000 for x in secs[1:]})
        place, totals = marks(c, k, mod.fns["me_mark__" + k], ways(mod, "me_mark__" + k), windows, interval, ("arg", 1))
        marks(c, "one:" + k, mod.fns["me_one__" + k], ways(mod, "me_one__" + k), windows, interval, flow.C(1, 64))
        nw += len(place)
        starts = set()
        meaning(c, "me_mean__" + k, mod, totals, interval, starts)
        for p in ways(mod, "me_mark__" + k):
            for e in p.ev:
                if cellof(e) in starts and e.kind in ("store", "rmw", "copy", "set", "cas"):
                    unset = e.kind == "cas" and isC(bare(e.x["exp"])) and bare(e.x["exp"])[1] == 0
                    if not unset:
                        c.bad("start:" + k, e.where(), "a mark moves the time the mean is measured from although it was set")
        for n in ("me_snap__" + k, "me_snapc__" + k):
            snapshot(c, n, mod, windows, place)
        for n in sorted(x for x in mod.fns if x.startswith("me_rate") and x.endswith("__" + k)):
            w = int(re.search(r"_(\d+)__", n).group(1)) * 1000000
            f = mod.fns[n]
            nr += 1
            good = False
            for p in ways(mod, n):
                if p.kind != "ret":
                    continue
                st = {ptr(e.addr)[2]: e.val for e in p.ev if e.kind == "store" and ptr(e.addr)[1] == ("arg", 1)}
                good = True
                if not (0 in st and isC(bare(st[0])) and bare(st[0])[1] == w * 1000):
                    c.bad("period:" + n[3:], core.origin(f), "the reading of the window of %d us says it is over another period" % w)
                    good = False
                v = conv(st.get(8, ("?",)))
                e = p.ev[v[1]] if v[0] == "res" and isinstance(v[1], int) else None
                if e is None or ewma_of(e.name) is None or ewma_of(e.name)[:2] != ("rate", w) or ptr(e.args[0])[1:3] != place.get(w):
                    c.bad("reading:" + n[3:], core.origin(f), "the reading of the window of %d us is not the rate of that window" % w)
                    good = False
            if good:
                c.ok("reading:" + n[3:])
    c.expect(nw, 8, "windows of meters")
    c.expect(nr, 16, "readings of windows")
    head = '#include "common.hpp"\n#include <cxxmetrics/meter.hpp>\n#include <cxxmetrics/timer.hpp>\nusing namespace cxxmetrics; using namespace cxxmetrics_literals;\n'
    ws = ["10_sec", "1_min", "5_min", "500_msec"]
    uses = []
    for k, perm in enumerate(itertools.permutations(ws)):
        for rep in (perm, perm + (perm[k % 4],), (perm[(k + 1) % 4],) + perm):
            uses.append("ok<meter<1_sec, %s>>();" % ", ".join(rep))
    body = head + "template<typename M> void ok() { const M* m = nullptr; static_assert(sizeof(M) == sizeof(meter<1_sec, %s>), \"as many windows\"); (void)m->template rate<10_sec>(); (void)m->template rate<1_min>(); (void)m->template rate<5_min>(); (void)m->template rate<500_msec>(); (void)m->template rate<60_sec>(); }\n" % ", ".join(ws)
    good, diag = core.syntax(body + "void all() { %s }\n" % " ".join(uses), "windows.cpp")
    where = re.search(r"(\S+\.hpp:\d+):\d+: (?:error|note)", diag)
    if not good and not re.search(r"static assertion|static_assert", diag):
        raise core.AnalysisError("the witness for the windows does not compile: " + diag[:600])
    c.require(good, "canonical", where.group(1) if where else "cxxmetrics/meter.hpp", "meters over the same windows do not have the same windows, whatever their order and repetition", diag[:600], detail="%d ways of writing four windows" % len(uses))
    for what, code in (("meter", "template<typename T> auto get(const T& m) { return m.template rate<%s>().rate; } double use(const meter<1_sec, 10_sec, 1_min>& m) { return get(m); }"),
                       ("changing meter", "template<typename T> auto get(T& m) { return m.template rate<%s>().rate; } double use(meter<1_sec, 10_sec, 1_min>& m) { return get(m); }"),
                       ("timer", "typedef timer<1_sec, std::chrono::system_clock, uniform_reservoir<std::chrono::system_clock::duration, 16>, 10_sec, 1_min> t; template<typename T> auto get(const T& m) { return m.template rate<%s>().rate; } double use(const t& m) { return get(m); }")):
        ok, diag = core.syntax(head + code % "1_min")
        if not ok:
            raise core.AnalysisError("asking a %s for a window it has does not compile: %s" % (what, diag[:600]))
        ok, _ = core.syntax(head + code % "2_min")
        c.require(not ok, "unknown:" + what, "cxxmetrics/meter.hpp", "asking a %s for a window that it does not have compiles" % what, detail="does not compile")


class PeekUpdate(trace.Tracer):
    peek = re.compile(r"(probe_timer|timer<.*>|probe_reservoir)::update[<(]")


# what is recorded: (thrown work) -> segments of start and end, counted in pieces of work begun
ONE, NONE = (0, 1), None
SCOPES = {
    "scope": {"": ONE, "a": ONE}, "factory": {"": ONE, "a": ONE},
    "clear": {"": NONE, "a": ONE},
    "reset": {"": (1, 2), "a": ONE, "b": (1, 2)},
    "again": {"": (1, 2), "a": NONE, "b": (1, 2)},
    "move": {"": ONE, "a": ONE, "b": ONE},
    "gone": {"": NONE, "a": NONE},
    "none": {"": ONE, "a": NONE}, "void": {"": ONE, "a": NONE},
    "all": {"": ONE, "a": ONE}, "vall": {"": ONE, "a": ONE},
}
WORK = re.compile(r"^(a_probe|b_probe|(runs|does)::operator\(\).*)$")


def scope(c, n, mod):
    what = n[3:].split("__")[0]
    f, spec, bad, seen = mod.fns[n], SCOPES[what], False, set()
    for p in ways(mod, n, cls=PeekUpdate, exc=True):
        work, nows, ups, thrown, other, run = 0, {}, [], "", False, None
        for k, e in enumerate(p.ev):
            if e.kind not in ("call", "throw"):
                continue
            nm = e.name or ""
            if WORK.match(nm.split("(")[0]) or WORK.match(nm):
                work += 1
                if e.kind == "throw":
                    thrown = "b" if nm.startswith("b") else "a"
                else:
                    run = e.res
            elif e.kind == "throw" and nm not in ("__cxa_rethrow",):
                other = True
            elif e.kind == "call" and e.short.endswith("probe_clock::now"):
                nows[e.res] = work
            elif e.kind == "call" and PeekUpdate.peek.search(nm):
                ups.append((k, e))
        if other or p.kind == "back":
            continue
        want = spec[thrown]
        seen.add(thrown)
        how = {"": "when the scope ends", "a": "when the work throws", "b": "when the work that follows throws"}[thrown]
        if p.kind not in ("ret", "resume", "unwind"):
            continue
        if thrown and p.kind == "ret":
            c.bad("swallowed:" + n[3:], core.origin(f), "an exception of the timed work does not reach the caller")
            bad = True
        if len(ups) != (want is not None):
            c.bad("recorded:%s:%s" % (n[3:], thrown or "end"), ups[-1][1].where() if ups else core.origin(f), "%s %d durations are recorded instead of %d" % (how, len(ups), want is not None))
            bad = True
            continue
        if p.kind == "ret" and what in ("none", "all") and p.ret != run:
            c.bad("result:" + n[3:], core.origin(f), "the caller does not get the result of the timed work")
            bad = True
        for k, e in ups:
            if ptr(e.args[0])[1:3] != (("arg", 0), 0):
                c.bad("other:" + n[3:], e.where(), "the duration is recorded by another timer")
                bad = True
            ws = e.x["in"][1]
            v = bare(ws[0]) if ws else ("?",)
            if not (v[0] == "lin" and v[2] == 0 and len(v[3]) == 2 and sorted(flow.sgn(y, v[1]) for _, y in v[3]) == [-1, 1] and all(t in nows for t, _ in v[3])):
                c.bad("duration:" + n[3:], e.where(), "what is recorded is not the time between two readings of the clock: %s" % flow.show(v)[:80])
                bad = True
                continue
            end = next(t for t, y in v[3] if flow.sgn(y, v[1]) == 1)
            start = next(t for t, y in v[3] if flow.sgn(y, v[1]) == -1)
            if (nows[start], nows[end]) != want:
                c.bad("span:%s:%s" % (n[3:], thrown or "end"), e.where(), "%s the recorded time starts after %d and ends after %d pieces of work, not %d and %d" % (how, nows[start], nows[end], want[0], want[1]))
                bad = True
    if "" not in seen:
        raise core.AnalysisError("%s: no way through" % n)
    if not bad:
        c.ok("recorded:" + n[3:], "ways out: %s" % sorted(x or "end" for x in seen))
    return len(seen)


def loads(mod, n):
    return {cellof(e) for p in ways(mod, n) for e in p.ev if e.kind == "load" and cellof(e)}


def updated(c, k, mod):
    n = "tu_update__" + k
    f = mod.fns[n]
    secs = [int(x) for x in k[2:].split("_")]
    interval, windows = secs[0] * 1000000, sorted({x * 1000000 for x in secs[1:]})
    ps = ways(mod, n, cls=PeekUpdate)
    zero = [p for p in ps if p.w.iv.get(("arg", 1), [1, 1])[:2] == [0, 0]]
    ps = [p for p in ps if p not in zero]
    counts = loads(mod, "tu_count__" + k)
    totals = loads(mod, "tu_mean__" + k)
    touched = {cellof(e) for p in ps for e in p.ev if e.kind in ("rmw", "cas", "store") and cellof(e)}
    total, count = totals & touched, counts & touched
    starts = {cellof(e) for p in ps for e in p.ev if e.kind == "cas" and cellof(e) in total and isC(bare(e.x["exp"])) and bare(e.x["exp"])[1] == 0}
    total -= starts
    if len(total) != 1 or len(count) != 1:
        if not count or not total:
            c.bad("updated:" + k, core.origin(f), "recording a duration does not change the %s" % ("count" if not count else "rate"))
            return
        raise core.AnalysisError("%s: the total of the rate or the count is not one cell" % n)

    class View:
        """a way through, as the rate sees it"""

        def __init__(self, p):
            self.kind, self.ret, self.w, self.facts = p.kind, p.ret, p.w, p.facts
            self.ev = [e for e in p.ev if not (e.kind in ("rmw", "cas", "store") and cellof(e) in count)]
    marks(c, "timer:" + k, f, [View(p) for p in ps], windows, interval, flow.C(1, 64))
    bad = False
    for p in ps + zero:
        if p.kind != "ret":
            continue
        ups = [e for e in p.ev if e.kind == "call" and e.short.endswith("probe_reservoir::update")]
        adds = [e for e in p.ev if (e.kind == "rmw" or e.kind == "cas" and e.x["ok"]) and cellof(e) in count]
        if p in zero and not ups and not adds:
            continue
        if len(ups) != 1 or len(adds) != 1:
            c.bad("observed:" + k, (ups or adds)[-1].where() if ups or adds else core.origin(f), "recording a duration puts %d values into the reservoir and counts %d" % (len(ups), len(adds)))
            bad = True
            continue
        a = ups[0].args[1]
        ws = ups[0].x["in"][1]
        v = bare(ws[0]) if ws else bare(a)
        if v != ("arg", 1) and flow.eqclass(v, p.w) != flow.eqclass(("arg", 1), p.w):
            c.bad("value:" + k, ups[0].where(), "the reservoir gets something other than the duration")
            bad = True
        if conv(delta(adds[0])) != flow.C(1, 64):
            c.bad("observed:" + k, adds[0].where(), "one duration is counted as something other than one")
            bad = True
    if not bad:
        c.ok("observed:" + k, "%d ways" % len(ps))


@prop("C17", technique="path-sensitive dataflow with exceptions over timer scopes (compiler IR)", level="sound-analysis",
      explains="the life cycle of a scope over any timer (end, clear, reset, move, exceptions), timing a callable with and without exceptions counted, and what the timer does with a duration",
      rule="on every way out of a scope, exceptional ones included, the timer gets exactly one duration, the difference of the clock readings of start (or last reset) and end, or none where the scope was cleared or moved from or the exception policy says so; a duration reaches the reservoir, the count, the total and each window exactly once",
      assumptions=["reading the clock and recording do not throw", "a moving average counts each mark (C15)"])
def c17(c):
    head = '#include "common.hpp"\n#include <cxxmetrics/timer.hpp>\n'
    use = "struct runs { int operator()() const; }; int call(cxxmetrics::timer<>& t, const runs& r) { return %s; }\n"
    ok, diag = core.syntax(head + use % "t.time(r)", "time.cpp")
    ctl, cd = core.syntax(head + use % "(t.update(std::chrono::seconds(1)), r())", "time0.cpp")
    if not ctl:
        raise core.AnalysisError("the timer does not compile: " + cd[:500])
    c.require(ok, "callable", "cxxmetrics/timer.hpp (timer::time)", "a callable cannot be timed: timer::time does not compile for it", diag[:600], detail="timer::time can be called")
    flags = [] if ok else ["-DNO_TIME"]
    mod = core.normalise("timer.cpp", "A", [r"opaque cxxmetrics::timer<.*>::update[<(]"] + P, prefix="ts_,tt_", flags=flags)
    out = 0
    fs = sorted(x for x in mod.fns if x.startswith(("ts_", "tt_")))
    for n in fs:
        out += scope(c, n, mod)
    c.expect(len(fs), 7 if not ok else 15, "uses of scopes")
    c.expect(out, 15, "ways out of scopes")
    mod = core.normalise("timer.cpp", "A", P, prefix="tu_", flags=flags)
    ks = sorted(x.split("__", 1)[1] for x in mod.fns if x.startswith("tu_update__"))
    for k in ks:
        updated(c, k, mod)
    c.expect(len(ks), 3, "kinds of timers")
