"""Moving averages and meters: what happens to the marks."""
from . import core, flow, policies, trace
from .facts import Facts
from .flow import C, isC
from .registry import prop
from .snapshots import ptr


def bare(t):
    """a term without conversions that keep its bits"""
    while t and t[0] == "op" and t[1] in ("bitcast", "freeze"):
        t = t[3]
    return t


def iszero(t):
    t = bare(t)
    return isC(t) and t[1] == 0 or t[0] == "f" and float(t[1]) == 0 or t == ("f", "0")


class Flow:
    """what the values of the paths of one function are computed from"""

    def __init__(self, paths):
        self.back = {}
        for p in paths:
            if p.kind == "back" and p.x:
                for k, t in p.x.items():
                    self.back.setdefault((p.ret, k), []).append((p, t))

    def leaves(self, p, t, stop=None, seen=None):
        """the atomic reads, arguments and calls a term is computed from; stop: a term that counts as a leaf"""
        seen = set() if seen is None else seen
        out = set()
        work = [t]
        while work:
            x = work.pop()
            if not isinstance(x, tuple):
                continue
            if stop is not None and bare(x) == stop:
                out.add(("taken",))
                continue
            if (id(p), x) in seen:
                continue
            seen.add((id(p), x))
            if x and x[0] in ("at", "arg"):
                out.add(x)
            elif x and x[0] == "res":
                out.add(x)
                e = p.ev[x[1]] if x[1] < len(p.ev) else None
                if e is not None and e.args:
                    work += e.args
            elif x and x[0] == "iv":
                for e in p.ev:
                    if e.kind == "loop":
                        for k, (init, t2) in e.x["iv"].items():
                            if t2 == x:
                                work.append(init)
                                for q, b in self.back.get((e.x["h"], k), []):
                                    if q.ev[:len(p.ev)] is p.ev or q is p:
                                        work.append(b)
                                    elif self.prefix(q, p, e):
                                        out |= self.leaves(q, b, stop, seen)
            else:
                work += [y for y in x if isinstance(y, tuple)]
        return out

    @staticmethod
    def prefix(q, p, loop):
        """whether q goes the way of p up to a loop, and around it"""
        for k, e in enumerate(p.ev):
            if k >= len(q.ev) or q.ev[k].i is not e.i or q.ev[k].kind != e.kind:
                return False
            if e is loop:
                return True
        return False


def cellof(e):
    if e.addr is None:
        return None
    a = ptr(e.addr)
    return (a[1], a[2]) if a[1] == ("arg", 0) and not a[3] else None


def added(e):
    """what a successful read-modify-write adds to its cell, or None"""
    if e.kind == "rmw":
        if e.x.get("op") in ("add", "fadd"):
            return bare(e.val)
        return None
    if e.kind == "cas" and e.x.get("ok"):
        n, x = bare(e.val), bare(e.x["exp"])
        while n[0] == "op" and n[1] in ("rnd", "bitcast"):
            n = n[3]
        if n[0] == "op" and n[1] == "fadd":
            for a, b in ((3, 4), (4, 3)):
                if bare(n[a]) == x:
                    return bare(n[b])
        if n[0] == "lin":
            items = tuple((y, k) for y, k in n[3] if y != x)
            if any(y == x and k == 1 for y, k in n[3]):
                if not items:
                    return C(n[2], n[1])
                return items[0][0] if n[2] == 0 and len(items) == 1 and items[0][1] == 1 else ("lin", n[1], n[2], items)
    return None


def clears(e):
    """the sum a step took out of its cell while clearing it, or None"""
    if e.kind == "cas" and e.x.get("ok") and iszero(e.val):
        return bare(e.x["exp"])
    if e.kind == "rmw" and e.x.get("op") == "xchg" and iszero(e.val):
        return bare(e.res)
    return None


def conv(t):
    """a term without arithmetic conversions"""
    t = bare(t)
    while t[0] == "op" and t[1] in ("sitofp", "fpext", "rnd", "uitofp", "bitcast"):
        t = bare(t[3])
    return t


def nonfinite(p, fl, taken):
    """the path was taken because something computed from the taken sum is infinite or no number"""
    for k, s in p.w.rel.items():
        if k[0] != "f":
            continue
        if s <= {"un", "uno"} or any(isinstance(t, tuple) and t[0] == "f" and "inf" in str(t[1]).lower() for t in k[1:3]):
            if any(("taken",) in fl.leaves(p, t, taken) for t in k[1:3]):
                return True
    return False


def earlier(p, fl):
    """the path was taken because the clock showed less than a time kept in the object"""
    for k, s in p.w.rel.items():
        if k[0] not in "su":
            continue
        for a, b, want in ((k[1], k[2], {"lt"}), (k[2], k[1], {"gt"})):
            if s == want and bare(a)[0] == "res" and fl.leaves(p, b) and all(x[0] == "at" for x in fl.leaves(p, b)):
                return True
    return False


def ticking(c, mod, name, pending, tallies):
    f = mod.fns[name]
    try:
        ps = [p for p in trace.paths(f, mod, stable=True) if not Facts(p.w).infeasible()]
    except (flow.Unsupported, flow.TooBig) as e:
        raise core.AnalysisError("%s: %s" % (name, e))
    fl = Flow(ps)
    bad = set()

    def report(key, e, msg):
        if key not in bad and c is not None:
            bad.add(key)
            c.bad("%s:%s" % (key, name), e.where() if e is not None else core.origin(f), msg)
    for p in ps:
        marks = 0
        loops_ = [k for k, e in enumerate(p.ev) if e.kind == "loop" and p.kind == "back" and e.x["h"] == p.ret]
        since = loops_[-1] if loops_ else 0
        took = None
        for k, e in enumerate(p.ev):
            q = cellof(e)
            if q == pending and e.kind in ("store", "copy", "set"):
                report("pending", e, "the pending sum is written in a step that does not depend on what it holds then: marks that arrive meanwhile are lost")
                continue
            if q == pending and e.kind == "load" and not e.ord:
                report("pending", e, "the pending sum is read without synchronisation")
            if q == pending and (e.kind == "rmw" or e.kind == "cas" and e.x.get("ok")):
                t = clears(e)
                if t is not None:
                    took = (k, e, t)
                    tallies["clears"] = tallies.get("clears", 0) + 1
                    if p.kind == "back" and k < since:
                        continue
                    kept(p, k, e, t, fl, pending, report, tallies)
                    continue
                d = added(e)
                if d is not None and conv(d) == ("arg", 1):
                    marks += 1
                    tallies["marks"] = tallies.get("marks", 0) + 1
                    if p.kind == "back" and k > since:
                        report("marked", e, "a mark is added each time round a loop")
                elif d is not None and took is not None and bare(d) == took[2]:
                    pass
                else:
                    report("pending", e, "the pending sum is changed by something that is neither a mark nor a sum taken before")
            if q is not None and q != pending and (e.kind == "store" or e.kind == "cas" and e.x.get("ok") or e.kind == "rmw") and q in tallies.get("rates", ()) and took is None:
                report("applied", e, "the rate is changed though no interval was taken")
        if p.kind == "ret" and "mark" in name:
            if marks != 1 and not (marks == 0 and earlier(p, fl)):
                report("marked", None, "there is a way through mark that adds the mark %d times to the pending sum (%s)" % (marks, p.facts()[:160]))
    tallies["paths"] = tallies.get("paths", 0) + len(ps)
    if not bad and c is not None:
        c.ok("conserved:" + name, "%d paths" % len(ps))


def kept(p, k, e, t, fl, pending, report, tallies):
    for j in range(k + 1, len(p.ev)):
        w = p.ev[j]
        q = cellof(w)
        if q is None:
            continue
        if q == pending:
            if added(w) is not None and bare(added(w)) == t:
                return
            continue
        if w.kind == "store" or w.kind == "cas" and w.x.get("ok") or w.kind == "rmw":
            ls = fl.leaves(p, w.val, t)
            if ("taken",) in ls:
                other = [x for x in ls if x[0] == "at" and x != t and cellof(p.ev[x[1]]) == pending]
                if other:
                    report("exact", w, "the rate is computed from another reading of the pending sum than the one that was taken")
                if w.kind == "store" and any(x[0] == "at" and cellof(p.ev[x[1]]) == q for x in ls):
                    report("rate-overwritten", w, "the rate is stored over whatever a concurrent tick has made of it since it was read: the sum that one took is lost")
                tallies.setdefault("rates", set()).add(q)
                return
            if [x for x in ls if x[0] == "at" and cellof(p.ev[x[1]]) == pending]:
                report("exact", w, "the rate is computed from another reading of the pending sum than the one that was taken")
                return
            if nonfinite(p, fl, t) and not ls - {("taken",)}:
                return
    report("dropped", e, "the pending sum is cleared but neither applied to the rate nor put back (%s)" % p.facts()[-200:])


@prop("C15", technique="path-sensitive dataflow over the atomic accesses of ticks and marks (compiler IR)", level="sound-analysis",
      explains="all paths of mark and rate of moving averages (floating point, integral, window equal to the interval), one generic iteration of each loop",
      rule="the pending sum changes only by an indivisible addition of the mark, by an indivisible exchange that clears it, or by putting a sum back that was taken before; on every path a mark is added exactly once unless the clock is behind the last tick; on every path on which a sum is taken, that very sum (and no other reading) goes into the rate by a step that fails when the rate has changed since, or goes back to the pending sum",
      assumptions=["std::atomic is implemented correctly", "the clock is the only source of time"])
def c15(c):
    mod = core.normalise("average.cpp", "A", policies.A, prefix="cc_,ob_")
    tallies = {}
    kinds = sorted({n.split("__")[0][3:] for n in mod.fns if n.startswith("cc_")})
    for k in kinds:
        f = mod.fns["cc_%s__mark" % k]
        cells = set()
        for p in trace.paths(f, mod, stable=True):
            fl = Flow([])
            for e in p.ev:
                if cellof(e) and e.kind in ("store", "rmw", "cas") and ("arg", 1) in fl.leaves(p, e.val):
                    cells.add(cellof(e))
        if len(cells) != 1:
            if not cells:
                c.bad("marked:cc_%s__mark" % k, core.origin(f), "marking changes nothing")
                continue
            raise core.AnalysisError("%s: the pending sum is not one cell: %s" % (k, cells))
        pending = cells.pop()
        tallies["rates"] = set()
        fs = sorted(x for x in mod.fns if x.startswith("cc_%s__" % k))
        for n in fs:
            ticking(None, mod, n, pending, {"rates": tallies["rates"]})
        for n in fs:
            ticking(c, mod, n, pending, tallies)
        rates = tallies["rates"]
        # what was taken must go where the rate is read from
        g = mod.fns["ob_%s__rate" % k]
        reads = set()
        for p in trace.paths(g, mod, stable=True):
            fl = Flow([])
            if p.kind == "ret" and p.ret:
                reads |= {cellof(p.ev[x[1]]) for x in fl.leaves(p, p.ret) if x[0] == "at"}
        c.require(rates and rates <= reads, "read:" + k, core.origin(g), "the rate is not computed from where ticks keep it", detail="ticks keep the rate where readings find it")
    c.expect(len(kinds), 4, "kinds of moving averages")
    c.expect(tallies.get("clears", 0), 8, "steps that take a pending sum")
    c.count("paths", tallies.get("paths", 0))


FORMULA = ("the value-flow normal form of a scenario over the public operations (times and amounts symbolic) equals, over the reals, that of a model "
           "of the property: same value in every case of the same conditions")


def formula(c, suffix, least, what):
    m = core.normalise("formula.cpp", "S", policies.S, prefix="avg_drv_,avg_ref_", tool=["--whole"])
    n = core.spec_pairs(c, m, nan=False, real=True, spans=True, prefix=suffix)
    c.expect(n, least, what)


@prop("C29", level="proof", technique="value-flow normal forms (compiler IR) compared over the reals with a model of the average, times and amounts symbolic",
      rule=FORMULA,
      explains="moving averages over real, float and integral values, with windows longer than and equal to the interval: readings before the first tick, from any state, "
               "ticks from any state after any time, marks from any state",
      assumptions=["rounding of floating point arithmetic is not modelled", "exp and pow are the functions of those names", "times are less than 2^63 ns apart", "amounts and rates are finite",
                   "one thread (schedules: C15)"])
def c29(c):
    formula(c, ("fresh", "first", "read", "tick", "mark"), 20, "readings of moving averages compared")


@prop("C30", level="proof", technique="value-flow normal forms (compiler IR) compared over the reals with a model of the mean, times and amounts symbolic",
      rule=FORMULA,
      explains="meters with and without windows: the mean before any mark, after one and after two marks",
      assumptions=["rounding of floating point arithmetic is not modelled", "times are less than 2^63 ns apart", "one thread (schedules: C16)",
                   "histories of more than two marks only add to the total (C16)"])
def c30(c):
    formula(c, ("none", "one", "two"), 4, "means of meters compared")
