"""Visiting: which handler gets which snapshot, who is visited, and what is built for it.  C19, C28"""
import re

from . import core, flow, policies, reg, trace
from .facts import Facts
from .flow import C, isC
from .reg import MAPS, callseq, isend, receiver, vcall, nm
from .registry import prop
from .snapshots import layout, ptr

KINDS = {"cumulative_value_snapshot": 1, "average_value_snapshot": 2, "meter_snapshot": 3, "histogram_snapshot": 4, "timer_snapshot": 5}
# the handler C++ overload resolution picks for each type of snapshot; 'split' where there is none for a timer:
# it is visited as its histogram and its rates
HANDLERS = {
    "aggh": {1: 1, 2: 2, 3: 3, 4: 4, 5: 5},
    "agg5": {1: 1, 2: 2, 3: 3, 4: 4, 5: 5},
    "tagh": {1: 1, 2: 2, 3: 3, 4: 4, 5: 5},
    "agg2": {1: 6, 2: 6, 3: 6, 4: 7, 5: 7},
    "agg3": {1: None, 2: 2, 3: 2, 4: 4, 5: 4},
    "agg4": {1: 1, 2: None, 3: 3, 4: None, 5: "split"},
}
OWN = {"counter": "cumulative_value_snapshot", "ewma": "average_value_snapshot", "gauge": "cumulative_value_snapshot", "histogram": "histogram_snapshot", "meter": "meter_snapshot", "timer": "timer_snapshot"}


def visits(r, cls):
    """{snapshot type: (slot, function)} of a class's vtable"""
    out = {}
    for s, g in enumerate(r.vt[cls]):
        d = r.mod.fns[g].dem if g in r.mod.fns else g or ""
        m = re.search(r"visit\(cxxmetrics::(\w+) const&\)$", d)
        if m:
            out[m.group(1)] = (s, g)
    return out


def slot_type(r, e):
    """the type of snapshot a virtual visit takes"""
    if r.dem.get(e.i.d["cls"][4:], "").find("snapshot_visitor") < 0:
        return None
    for k, g in r.cands(e.i):
        d = r.mod.fns[g].dem if g in r.mod.fns else g
        m = re.search(r"visit\(cxxmetrics::(\w+) const&\)$", d)
        if m:
            return m.group(1)
    return None


def is_dtor(r, e):
    """'D2' or 'D0' when a virtual call is one of a visitor's destructors"""
    if not vcall(r, e) or "snapshot_visitor" not in r.dem.get(e.i.d["cls"][4:], ""):
        return None
    for k, g in r.cands(e.i):
        d = r.mod.fns[g].dem if g in r.mod.fns else g
        if "::~" in d:
            return "D0" if g.endswith("D0Ev") else "D2"
    return None


def delivered(r, cls, fn, off=0, depth=0):
    """per path: what handlers are called with, following virtual calls on the visitor itself: [(probe, kind, offset, event)]"""
    if depth > 6:
        raise core.AnalysisError("visiting %s does not end" % fn)
    outs = []
    for p in r.paths(fn):
        if p.kind != "ret":
            if p.kind == "back":
                raise core.AnalysisError("%s calls handlers in a loop" % fn)
            continue
        res = [[]]
        for n, e in callseq(p):
            if e.name in ("probe_agg", "probe_snap"):
                k, a = e.args[-2], ptr(e.args[-1])
                kind = k[1] if isC(k) else None
                o = a[2] + off if a[1] == ("arg", 1) and not a[3] else None
                res = [x + [(kind, o, e)] for x in res]
            elif vcall(r, e) and slot_type(r, e) is not None and ptr(e.args[receiver(e)]) == ptr(("arg", 0)):
                s = e.i.d["slot"] // 8
                a = ptr(e.args[1])
                if a[1] != ("arg", 1) or a[3]:
                    raise core.AnalysisError("%s visits something else than (part of) what it is given" % fn)
                sub = delivered(r, cls, r.vt[cls][s], off + a[2], depth + 1)
                res = [x + y for x in res for y in sub]
        outs += [(x) for x in res]
    return outs


# ---------------------------------------------------------------- walking a container
def shift(t, depth=0):
    """(base iterator, number of steps taken from it)"""
    n = 0
    t = ptr(t)
    while True:
        r = t[1]
        if t[2] or t[3]:
            return None
        if r[0] == "ld" and ptr(r[1])[1][0] in ("pc", "iv", "ld") and ptr(r[1])[2] == 0 and not ptr(r[1])[3]:
            t = ptr(r[1])
            n += 1
            continue
        if r[0] == "pc" and r[1] == "next" and isC(r[3]):
            t = ptr(r[2])
            n += r[3][1]
            continue
        if r[0] == "pc" and "increment" in str(r[1]):
            t = ptr(r[2])
            n += 1
            continue
        return r, n


def begin_of(t):
    return ptr(t[2]) if t[0] == "pc" and t[1] in ("begin", "cbegin") else None


def endtests(p):
    """{(base, steps): bool} iterators known to be (not) the end of their container, with the container"""
    out = {}
    for k, v in p.w.bool.items():
        if k[0] == "peq":
            pairs = ((k[1], k[2]), (k[2], k[1]))
        elif k[0] == "bool" and k[1][0] == "pc" and k[1][1] in ("operator==", "operator!="):
            pairs = ((k[1][2], k[1][3]), (k[1][3], k[1][2]))
            v = v if k[1][1] == "operator==" else not v
        else:
            continue
        for x, y in pairs:
            y = ptr(y)
            if y[1][0] == "pc" and y[1][1] in ("end", "cend") and not y[2]:
                s = shift(x)
                if s is not None:
                    out[s] = (v, ptr(y[1][2]))
    return out


class Walk:
    """a loop over a container: which elements its iterations are at"""

    def __init__(self, r, ps, h, fn):
        self.h, self.fn = h, fn
        self.bodies, self.exits = [], []
        for p in ps:
            ks = [n for n, x in enumerate(p.ev) if x.kind == "loop" and x.x["h"] == h and x.x["fn"] == fn]
            if not ks:
                continue
            if p.kind == "back":
                if p.ret == h:
                    self.bodies.append((p, ks[-1]))
            else:
                self.exits.append((p, ks[-1]))
        self.ivs = next(x.x["iv"] for p in ps for x in p.ev if x.kind == "loop" and x.x["h"] == h and x.x["fn"] == fn)
        self.U = self.first = self.iv = None
        self.why = "no variable of the loop runs over a container"
        for k, (init, t) in self.ivs.items():
            if init is None or not self.bodies:
                continue
            s = shift(init)
            if s is None or begin_of(s[0]) is None:
                continue
            U, a = begin_of(s[0]), s[1]
            if any(shift(p.x.get(k)) != (t, 1) if p.x.get(k) is not None else True for p, _ in self.bodies):
                self.why = "an iteration does not go on to the next element"
                continue
            ns = set()
            for p, _ in self.bodies:
                ns.add(next((n for (b, n), (v, u) in endtests(p).items() if b == t and v is False and u == U), None))
            if len(ns) != 1 or None in ns:
                self.why = "an iteration may run past the end"
                continue
            n = ns.pop()
            self.iv, self.U, self.at, self.first = t, U, n, a + n
            early = [p for p, _ in self.exits if p.kind == "ret" and endtests(p).get((t, n), (None, None)) != (True, U)]
            self.why = "the loop may be left before the end (%s)" % early[0].facts()[:200] if early else ""
            return

    def element(self, t):
        """(whether the address lies in the element an iteration is at, offset in it)"""
        if self.iv is None:
            return False, 0
        q = ptr(t)
        s = shift(("ptr", q[1], 0, ()))
        return s == (self.iv, self.at) and not q[3], q[2]


def index_of(p, t, U):
    """position (counted from the beginning of U) of the element an address outside loops lies in, and the offset in it"""
    q = ptr(t)
    s = shift(("ptr", q[1], 0, ()))
    if s is None or begin_of(s[0]) != U or q[3]:
        return None
    return s[1], q[2]


def through(p, t, upto):
    """the address a local copy (of a pair, a key or a smart pointer) was made from"""
    q = ptr(t)
    for _ in range(6):
        if q[1][0] != "alloca":
            return q
        src = None
        for n in range(upto - 1, -1, -1):
            e = p.ev[n]
            if e.kind != "call" or len(e.args) < 2 or (e.x and e.x.get("pure")):
                continue
            d = ptr(e.args[0])
            if d[1] == q[1] and not d[3] and re.search(r"::(pair|shared_ptr|__shared_ptr|tag_collection|metric_path)$", e.short) and d[2] <= q[2]:
                s = ptr(e.args[1])
                src = ("ptr", s[1], s[2] + q[2] - d[2], s[3])
                upto = n
                break
        if src is None:
            return q
        q = src
    return q


def pointee(p, t, upto):
    """the address of the smart pointer a pointer was taken from"""
    q = ptr(t)
    b = q[1]
    if q[2] or q[3]:
        return None
    if b[0] == "pc" and b[1] in ("operator->", "operator*", "get", "_M_get"):
        return through(p, b[2], upto)
    if b[0] == "ld":
        return through(p, b[1], upto)
    return None


def snapshots(r, p):
    """[(index, event, address of the smart pointer of the metric, the snapshot object)]"""
    out = []
    for n, e in callseq(p):
        if e.short.endswith("::snapshot") and e.short.startswith("cxxmetrics::") and len(e.args) == 2:
            out.append((n, e, pointee(p, e.args[1], n), ptr(e.args[0])))
    return out


def candidates(r, name):
    return sorted(g for g in r.virtuals if re.search(r"registered_metric<.*>::%s\(" % name, r.mod.fns[g].dem))


def metric_of(r, g):
    m = re.search(r"registered_metric<cxxmetrics::(\w+)<", r.mod.fns[g].dem)
    return m.group(1) if m else None


def loop_heads(ps):
    out = []
    for p in ps:
        for e in p.ev:
            if e.kind == "loop" and (e.x["h"], e.x["fn"]) not in out:
                out.append((e.x["h"], e.x["fn"]))
    return out


def vslots(r, roots, method):
    """functions of entries that a driver's virtual call on its entry reaches"""
    out = []
    for f in roots:
        hit = 0
        for p in r.paths(f):
            for n, e in callseq(p):
                if vcall(r, e) and r.kindname(e.i.d["cls"][4:]) == "E":
                    hit += 1
                    out.append((f, p, e))
        if not hit:
            raise core.AnalysisError("%s reaches no entry" % f)
    return out


@prop("C19", technique="dispatch-table analysis and loop-coverage dataflow over all paths", level="sound-analysis",
      explains="for visitors with handlers for all types, for base types only and for some types, every visit function of their vtables is followed (virtual calls on the visitor itself resolved in its own table) and must call exactly the handler overload resolution picks, with the snapshot it was given; every walk over the registry's maps must begin at the first element, stop only at the end and deliver, per iteration, the element's own key and snapshot once; aggregation must start with one element's snapshot and merge each other element's once",
      rule="handler reached = handler of the snapshot's own type or nearest base; coverage [begin, end) of the map by the loop; one delivery per element",
      assumptions=["the maps' iterators run over every element once, as specified"])
def c19(c):
    r = reg.load()
    core_reg(c, r)


def core_reg(c, r):
    rate = [m for m in layout(r.mod, "cxxmetrics::timer_snapshot")["m"] if "meter_snapshot" in m.get("t", "")]
    rate = rate[0]["o"] if rate else None
    tables = 0
    classes = {}
    for k in r.vt:
        d = r.dem.get(k, "")
        m = re.match(r"cxxmetrics::invokable_snapshot_visitor<(.*)>$", d)
        if not m:
            continue
        h = re.search(r"\b(aggh|agg2|agg3|agg4|agg5|tagh)\b", m.group(1))
        if not h:
            continue
        h = h.group(1)
        classes[k] = h
        vs = visits(r, k)
        for ty, num in KINDS.items():
            if ty not in vs:
                c.bad("visit:%s:%s" % (h, ty), d, "the visitor has no visit function for %s" % ty)
                continue
            tables += 1
            want = HANDLERS[h][num]
            exp = [] if want is None else [(3, rate)] if want == "split" else [(want, 0)]
            for got in delivered(r, k, vs[ty][1]):
                g = [(a, b) for a, b, _ in got]
                w = got[0][2].where() if got else vs[ty][1]
                c.require(g == exp, "dispatch:%s:%s" % (h, ty), w, "a %s reaches the handlers %s of the visitor %s instead of %s (kind, offset of what is passed in the snapshot)" % (
                    ty, g, h, exp), detail="%s -> %s" % (ty, exp))
                for _, _, e in got:
                    if e.name == "probe_snap":
                        tagcheck(c, r, k, e)
    c.expect(tables, 20, "visit functions")
    # walking a metric's tag sets
    each = candidates(r, "visit_each")
    c.expect(len(each), 4, "types of entries that can be visited")
    for g in each:
        ps = [p for p in r.paths(g)]
        own = OWN.get(metric_of(r, g))
        covered = False
        for h, fn in loop_heads(ps):
            W = Walk(r, ps, h, fn)
            used = [k for q, k in W.bodies if any(is_visit(r, e) for e in q.ev[k:])]
            if not used:
                continue
            if W.iv is None or W.why:
                c.bad("walk:" + nm(r, g), next(e.where() for q, k in W.bodies for e in q.ev[k + 1:] if e.i is not None), "visiting does not cover all tag sets: " + W.why)
                covered = True
                continue
            covered = W.first == 0
            c.require(W.first == 0, "walk:" + nm(r, g), W.bodies[0][0].ev[-1].where(), "visiting starts at element %d" % W.first)
            for q, k in W.bodies:
                built = [(n, e) for n, e in callseq(q) if n > k and is_construct(r, e)]
                vis = [(n, e) for n, e in callseq(q) if n > k and is_visit(r, e)]
                w = vis[0][1].where() if vis else q.ev[-1].where()
                c.require(len(vis) == 1, "once:" + nm(r, g), w, "an element is visited %d times (%s)" % (len(vis), q.facts()[:200]))
                if len(vis) != 1:
                    continue
                n, e = vis[0]
                b = [x for x in built if x[0] < n]
                if not b:
                    c.bad("tags:" + nm(r, g), w, "an element is visited without its tags")
                else:
                    key = through(q, b[-1][1].args[2], b[-1][0])
                    ok, off = W.element(key)
                    c.require(ok and off == 8, "tags:" + nm(r, g), b[-1][1].where(), "an element is visited with other tags than its own", detail="element's own key")
                sn = [s for s in snapshots(r, q) if s[0] > k and s[3] == ptr(e.args[1])]
                ok = False
                if sn and sn[-1][2] is not None:
                    ok, off = W.element(sn[-1][2])
                    ok = ok and off == 8 + layout(r.mod, "cxxmetrics::tag_collection")["size"]
                c.require(ok, "snapshot:" + nm(r, g), w, "what is visited is not the snapshot of the element", detail="element's own snapshot")
                c.require(own is None or slot_type(r, e) == own, "type:" + nm(r, g), w, "the snapshot of a %s is visited as a %s" % (metric_of(r, g), slot_type(r, e)), detail=own)
        if not covered:
            c.bad("walk:" + nm(r, g), g, "no loop visits the metrics from the first on")
        for p in ps:
            if p.kind == "ret" and not any(e.kind == "loop" for e in p.ev) and not any(is_visit(r, e) for e in p.ev):
                U = [u for u, v in emptiness(p) if v]
                c.require(bool(U), "skip:" + nm(r, g), p.ev[-1].where() if p.ev else g, "a path visits nothing although there may be metrics (%s)" % p.facts()[:200])
    # aggregation
    for g in candidates(r, "aggregate_all"):
        aggregate(c, r, g)
    # the registry's entries
    for f in ("vi_reg", "pu_all"):
        ps = r.paths(f)
        done = 0
        for h, fn in loop_heads(ps):
            W = Walk(r, ps, h, fn)
            if not any(e.kind == "call" and e.name == "probe_reg" for q, k in W.bodies for e in q.ev[k:]):
                continue
            done += 1
            if W.iv is None or W.why or W.first != 0:
                c.bad("walk:" + f, r.mod.fns[f].dem, "visiting the registry does not cover all metrics: " + (W.why or "it starts at element %d" % W.first))
                continue
            for q, k in W.bodies:
                ps_ = [(n, e) for n, e in callseq(q) if n > k and e.name == "probe_reg"]
                w = ps_[0][1].where() if ps_ else q.ev[-1].where()
                c.require(len(ps_) == 1, "once:" + f, w, "a metric is visited %d times" % len(ps_))
                if len(ps_) == 1:
                    e = ps_[0][1]
                    ok1, o1 = W.element(through(q, e.args[0], ps_[0][0]))
                    a = pointee(q, e.args[1], ps_[0][0])
                    ok2, o2 = W.element(a) if a is not None else (False, 0)
                    c.require(ok1 and o1 == 8, "path:" + f, w, "a metric is visited under another path than its own", detail="element's own path")
                    c.require(ok2 and o2 == 8 + layout(r.mod, "cxxmetrics::metric_path")["size"], "entry:" + f, w, "another entry than the element's is visited", detail="element's own entry")
        if not done:
            c.bad("walk:" + f, f, "no loop visits the metrics of the registry")
    # drivers reach their entry once
    for f in ("vi_each", "vi_agg", "vi_agg2", "vi_agg3", "vi_agg4", "vi_agg5"):
        for p in r.paths(f):
            if p.kind != "ret":
                continue
            es = [e for n, e in callseq(p) if vcall(r, e) and r.kindname(e.i.d["cls"][4:]) == "E"]
            w = es[0].where() if es else f
            c.require(len(es) == 1 and ptr(es[0].args[0]) == ptr(("arg", 0)), "asked:" + f, w, "the entry is asked %d times to visit" % len(es))


def emptiness(p):
    """[(container, whether the path knows it empty)]"""
    out = [(u, v) for (b, n), (v, u) in endtests(p).items() if n == 0 and begin_of(b) == u]
    for k, v in p.w.bool.items():
        if k[0] == "bool" and k[1][0] == "pc" and k[1][1] == "empty":
            out.append((ptr(k[1][2]), v))
    for t, iv in p.w.iv.items():
        if t[0] == "pc" and t[1] == "size" and iv[2] == iv[3] == 0:
            out.append((ptr(t[2]), True))
    return out


def is_visit(r, e):
    return e.kind == "call" and vcall(r, e) and slot_type(r, e) is not None


def is_builder(r, e):
    return e.kind == "call" and vcall(r, e) and "visitor_builder" in r.dem.get(e.i.d["cls"][4:], "")


def is_construct(r, e):
    return is_builder(r, e) and len(e.args) >= 3


def tagcheck(c, r, k, e):
    """the tags a bound visitor passes on are those it was constructed with"""
    t = ptr(e.args[0])
    own = t[1][0] == "ld" and ptr(ptr(t)[1][1])[1] == ("arg", 0) and not t[2] and not t[3]
    off = ptr(t[1][1])[2] if own else None
    ok = False
    w = e.where()
    for g in sorted(r.virtuals):
        if not re.search(r"visitor_builder<.*>::construct\(", r.mod.fns[g].dem):
            continue
        for p in r.paths(g):
            if p.kind != "ret":
                continue
            at = {}
            for s in p.ev:
                if s.kind == "store" and s.addr is not None and ptr(s.addr)[1] == ("arg", 1):
                    at[ptr(s.addr)[2]] = s
            vt = at.get(0)
            if vt is None or vt.val is None or ("_ZTV" + k) not in str(vt.val):
                continue
            s = at.get(off) if off is not None else None
            ok = s is not None and ptr(s.val) == ptr(("arg", 2))
            w = s.where() if s is not None else w
    c.require(ok, "bound tags:" + r.dem[k][-60:], w, "the handler is not given the tags the visitor was built for", detail="the tags it was built with")


def aggregate(c, r, g):
    name = nm(r, g)
    own = OWN.get(metric_of(r, g))
    ps = r.paths(g)
    for p in ps:
        if p.kind != "ret":
            continue
        vis = [(n, e) for n, e in callseq(p) if is_visit(r, e)]
        if not vis:
            c.require(any(v for _, v in emptiness(p)), "nothing:" + name, p.ev[-1].where() if p.ev else g, "nothing is handed to the visitor although there may be metrics (%s)" % p.facts()[:200], detail="only when there are none")
            continue
        w = vis[0][1].where()
        if len(vis) != 1:
            c.bad("once:" + name, w, "the visitor is called %d times" % len(vis))
            continue
        n, e = vis[0]
        X = ptr(e.args[1])
        c.require(own is None or slot_type(r, e) == own, "type:" + name, w, "the aggregate of a %s is visited as a %s" % (metric_of(r, g), slot_type(r, e)), detail=own)
        # where the aggregate begins
        sn = snapshots(r, p)
        src = X
        first = None
        for m in range(n - 1, -1, -1):
            x = p.ev[m]
            if x.kind != "call" or not x.args or ptr(x.args[0]) != src:
                continue
            hit = next((s for s in sn if s[0] == m), None)
            if hit:
                first = hit
                break
            if re.search(r"_snapshot::\w+_snapshot$", x.short) and len(x.args) > 1:
                src = ptr(x.args[1])
        if first is None or first[2] is None:
            c.bad("start:" + name, w, "the aggregate does not start with the snapshot of a metric")
            continue
        U = None
        taken = {}
        b = shift(("ptr", first[2][1], 0, ()))
        if b is None or begin_of(b[0]) is None:
            raise core.AnalysisError("%s: cannot tell which element %s is" % (g, flow.show(first[2])))
        U = begin_of(b[0])
        want = 8 + layout(r.mod, "cxxmetrics::tag_collection")["size"]
        i = index_of(p, first[2], U)
        if i is None or i[1] != want:
            raise core.AnalysisError("%s: the element's metric is taken from an unexpected place" % g)
        taken[i[0]] = 1
        rest = None
        # merges outside loops
        loop = [m for m, x in enumerate(p.ev) if x.kind == "loop"]
        for m, x in callseq(p):
            if x.short.endswith("_snapshot::merge") and ptr(x.args[0]) == X:
                s = [y for y in sn if y[3] == ptr(x.args[1]) and y[0] < m]
                j = index_of(p, s[-1][2], U) if s and s[-1][2] is not None else None
                if j is None or j[1] != want:
                    c.bad("merge:" + name, x.where(), "something else than a metric's snapshot is merged")
                else:
                    taken[j[0]] = taken.get(j[0], 0) + 1
        for m in loop:
            W = Walk(r, ps, p.ev[m].x["h"], p.ev[m].x["fn"])
            counts = set()
            for q, k in W.bodies:
                ms = [(a, x) for a, x in callseq(q) if a > k and x.short.endswith("_snapshot::merge") and ptr(x.args[0]) == X]
                sq = snapshots(r, q)
                good = 0
                for a, x in ms:
                    s = [y for y in sq if y[3] == ptr(x.args[1]) and k < y[0] < a]
                    if s and s[-1][2] is not None and W.element(s[-1][2]) == (True, want):
                        good += 1
                    else:
                        c.bad("merge:" + name, x.where(), "what is merged is not the snapshot of the element the loop is at")
                counts.add(good)
            if counts == {0}:
                continue
            if counts != {1}:
                c.bad("merge:" + name, p.ev[m - 1].where(), "an iteration merges the element's snapshot %s times" % sorted(counts))
                continue
            if W.iv is None or W.why:
                c.bad("merge:" + name, p.ev[m - 1].where(), "the merging does not cover all tag sets: " + W.why)
                continue
            rest = W.first if rest is None else -1
        if rest is None:
            known = [v for (bb, k), (v, u) in endtests(p).items() if u == U and begin_of(bb) == U and k == max(taken) + 1]
            ok = known == [True] and set(taken) == set(range(max(taken) + 1)) and set(taken.values()) == {1}
        else:
            ok = set(taken) == set(range(rest)) and set(taken.values()) == {1}
        c.require(ok, "each once:" + name, w, "the aggregate takes element(s) %s first and then all from %s on: not every tag set once (%s)" % (taken, rest, p.facts()[:200]), detail="each element once")


# ---------------------------------------------------------------- C28
def cycle_blocks(f, drop):
    """blocks on a cycle when the blocks in drop are taken away"""
    live = [b for b in f.live() if b not in drop]
    out = set()
    for b in live:
        seen, work = set(), [s for s in f.succ[b] if s not in drop]
        while work:
            x = work.pop()
            if x == b:
                out.add(b)
                break
            if x in seen or x in drop:
                continue
            seen.add(x)
            work += f.succ[x]
    return out


@prop("C28", technique="stack-allocation and call-graph recursion analysis; object typestate on all paths with exception edges", level="sound-analysis",
      explains="in everything visiting runs (virtual calls resolved through the vtables) no stack allocation may lie on a cycle of the control flow and no function may reach itself; on every path, an exception possible at every call, a visitor is used only while built and destroyed exactly once; its storage must be at least as big as the builder says and the builder must say at least what it writes",
      rule="no alloca on a cycle; acyclic call graph; built - visited - destroyed typestate; storage size",
      assumptions=["std::align behaves as specified", "handlers of visitors are the user's own"])
def c28(c):
    r = reg.load()
    roots = [f for f in r.drivers if f.startswith("vi_") or f in ("pu_all", "pu_one")]
    work, reach, calls = list(roots), {}, {}
    while work:
        x = work.pop()
        if x in reach or x not in r.mod.fns:
            continue
        f = reach[x] = r.mod.fns[x]
        calls[x] = {}
        for i in f.insts():
            if i.is_call() and i.callee_raw:
                calls[x].setdefault(i.callee_raw, i)
                work.append(i.callee_raw)
            elif i.d.get("cls"):
                for _, g in r.cands(i):
                    calls[x].setdefault(g, i)
                    work.append(g)
    c.stats["functions reached by visiting"] = len(reach)
    dyn = 0
    for n, f in reach.items():
        al = [(b, i) for b in f.live() for i in f.blocks[b] if i.op == "alloca"]
        rest = {b for b in f.live() if any(i.is_call() and i.callee_raw and i.callee_raw.startswith("llvm.stackrestore") for i in f.blocks[b])}
        cyc = cycle_blocks(f, rest) if al else set()
        bad = [i for b, i in al if b in cyc]
        for i in bad:
            c.bad("stack:" + nm(r, n), i.where(), "%s takes stack on every iteration of a loop and releases it only on return" % nm(r, n))
        dyn += len([1 for b, i in al if "asize" not in i.d])
    c.ok("no stack is taken on a cycle", "%d functions" % len(reach))
    # recursion
    for n in reach:
        if not f_of(reach[n]):
            continue
        seen, work = set(), list(calls.get(n, {}))
        while work:
            x = work.pop()
            if x == n:
                c.bad("recursion:" + nm(r, n), next(iter(calls[n].values())).where(), "%s can reach itself while visiting" % nm(r, n))
                break
            if x not in seen:
                seen.add(x)
                work += list(calls.get(x, {}))
        else:
            c.ok("not recursive:" + nm(r, n))
    sizes = builder(c, r)
    each = candidates(r, "visit_each")
    c.expect(len(each), 4, "types of entries that can be visited")
    npaths = 0
    for g in each:
        for exc in (False, True):
            for p in r.paths(g, exc):
                npaths += 1
                typestate(c, r, g, p)
        storage(c, r, g, sizes)
    c.stats["paths followed"] = npaths


def f_of(f):
    return "cxxmetrics::" in f.dem


def typestate(c, r, g, p):
    alive = None
    name = nm(r, g)
    evs = [e for e in p.ev]
    what = p.facts()[:200]
    for n, e in enumerate(evs):
        thrown = n + 1 < len(evs) and evs[n + 1].kind == "throw" and evs[n + 1].i is e.i
        if e.kind == "loop" and alive is not None and p.kind == "back" and p.ret == e.x["h"]:
            c.bad("alive:" + name, evs[n - 1].where(), "a visitor is alive across iterations")
        if e.kind != "call":
            continue
        if is_construct(r, e):
            if thrown:
                continue
            if alive is not None:
                c.bad("leak:" + name, e.where(), "a visitor is built where one is still alive (%s)" % what)
            alive = ptr(e.args[1])
        elif is_visit(r, e):
            if alive is None or ptr(e.args[receiver(e)]) != alive:
                if ptr(e.args[receiver(e)]) != ptr(("arg", 1)):
                    c.bad("dead:" + name, e.where(), "a visitor is used that is not built (%s)" % what)
        else:
            d = is_dtor(r, e)
            if d is None:
                continue
            o = ptr(e.args[receiver(e)])
            if alive is None or o != alive:
                c.bad("twice:" + name, e.where(), "a visitor is destroyed that is not alive (%s)" % what)
            if d == "D0":
                c.bad("freed:" + name, e.where(), "a visitor in storage that was not allocated for it is deleted")
            alive = None
    if alive is not None:
        last = next((e for e in reversed(evs) if e.i is not None), None)
        c.bad("leak:" + name, last.where() if last else g, "a visitor is never destroyed on a path (%s, %s)" % (p.kind, what))
    c.ok("built and destroyed once:" + name)


def builder(c, r):
    """{builder class: (size it says, end of what it writes)}"""
    out = {}
    for k in r.vt:
        if not re.match(r"cxxmetrics::(\w+::)*\w*visitor_builder<", r.dem.get(k, "")):
            continue
        says = end = None
        for g in r.vt[k]:
            if g not in r.mod.fns or "~" in r.mod.fns[g].dem:
                continue
            for p in r.paths(g):
                if p.kind != "ret":
                    continue
                if p.ret is not None and isC(p.ret):
                    says = min(p.ret[1], says) if says is not None else p.ret[1]
                for e in p.ev:
                    if e.kind in ("store", "copy") and e.addr is not None and ptr(e.addr)[1] == ("arg", 1):
                        a = ptr(e.addr)
                        if a[3] or not isinstance(e.size, int):
                            raise core.AnalysisError("%s writes where it cannot be told" % g)
                        end = max(end or 0, a[2] + e.size)
        if says is None or end is None:
            raise core.AnalysisError("%s: cannot tell what it builds" % r.dem[k])
        c.require(says >= end, "size:" + r.dem[k][-70:], r.dem[k], "a builder asks for %d bytes and writes %d" % (says, end), detail="%d >= %d" % (says, end))
        out[k] = says
    c.expect(len(out), 1, "builders of visitors")
    return out


def lin(t):
    """(constant, {term: factor}) of a size"""
    if isC(t):
        return flow.sgn(t[1], 64), {}
    if t[0] == "lin":
        return flow.sgn(t[2], 64), {x: flow.sgn(v, 64) for x, v in dict(t[3]).items()}
    return 0, {t: 1}


def fixed(r, root, e):
    """a local array as the allocation it is"""
    i = next((i for i in r.mod.fns[root[1]].insts() if i.id == root[2]), None)
    if i is None or "asize" not in i.d:
        return None
    return trace.Ev("alloca", i, addr=("ptr", root, 0, ()), val=C(i.d["asize"], 64), size=1)


def storage(c, r, g, sizes):
    name = nm(r, g)
    for p in r.paths(g):
        evs = p.ev
        vs = {e.res for e in evs if e.kind == "call" and is_builder(r, e) and len(e.args) == 1}
        for n, e in callseq(p):
            if not is_construct(r, e):
                continue
            loc = ptr(e.args[1])
            align, al = 1, None
            if loc[1][0] == "ld" and not loc[2]:
                cell = ptr(loc[1][1])
                a = next((x for m, x in reversed(callseq(p)) if m < n and "std::align" in x.name and ptr(x.args[2]) == cell), None)
                if a is not None:
                    al = a
                    v = a.x["in"][2][0] if a.x["in"][2] else None
                    while v is not None and v[0] == "op" and v[1] in ("bitcast", "inttoptr", "ptrtoint", "freeze"):
                        v = v[3]
                    loc = ptr(v) if v is not None else loc
            elif loc[1][0] == "res" and "std::align" in evs[loc[1][1]].name:
                al = evs[loc[1][1]]
                cell = ptr(al.args[2])
                v = al.x["in"][2][0] if al.x["in"][2] else None
                while v is not None and v[0] == "op" and v[1] in ("bitcast", "inttoptr", "ptrtoint", "freeze"):
                    v = v[3]
                loc = ptr(v) if v is not None else loc
            src = next((x for x in evs if x.kind == "alloca" and ptr(x.addr)[1] == loc[1]), None)
            if src is None and loc[1][0] == "alloca":
                src = fixed(r, loc[1], e)
            if src is None and loc[1][0] == "res":
                src = evs[loc[1][1]]
                size = src.args[0] if re.match(r"^operator new", src.name or "") else None
                given = 16
            else:
                size = src.val if src is not None else None
                given = src.i.d["al"] if src is not None else 1
                if src is not None and src.size != 1:
                    raise core.AnalysisError("%s: storage in units of %d" % (g, src.size))
            if size is None:
                raise core.AnalysisError("%s: cannot tell where visitors are built: %s" % (g, flow.show(e.args[1])))
            k, ts = lin(size)
            need = 8 if al is None else al.args[0][1] if isC(al.args[0]) else None
            slack = max(0, (need or 16) - given)
            units = sum(v for t, v in ts.items() if t in vs)
            other = [t for t in ts if t not in vs]
            ok = not other and (units >= 1 and k >= slack or not units and not ts and any(Facts(p.w).le(v, C(k - slack, 64)) for v in vs))
            c.require(ok, "storage:" + name, src.where(), "the storage visitors are built in may be too small: %s" % flow.show(size), detail="%s bytes" % flow.show(size))
            if al is not None:
                sp = al.x["in"][3][0] if al.x["in"][3] else None
                if sp is not None:
                    while sp[0] == "op" and sp[1] in ("bitcast", "freeze"):
                        sp = sp[3]
                    k2, t2 = lin(sp)
                    c.require(k2 <= k and all(ts.get(t, 0) >= v or t in vs and units >= v for t, v in t2.items()), "space:" + name, al.where(), "std::align is told of more space than there is")
            c.require((need or 16) >= 8 or given >= 8, "alignment:" + name, src.where(), "the storage may not be aligned for a visitor")
