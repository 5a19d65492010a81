"""Reservoirs."""
import itertools
import re
from . import core, policies, trace
from .flow import isC
from .machine import Machine, Outside, State, Unknown, num
from .meters import ways
from .registry import prop
from .rings import offset

PUT = re.compile(r"\bstd::vector(<.*>)?::(emplace_back|push_back)\b|^cxxmetrics::metric_value::metric_value")
VEC = re.compile(r"\bstd::vector(<.*>)?::")
DIST = re.compile(r"uniform_int_distribution(<.*>)?::(uniform_int_distribution|operator\(\))")
COPY = re.compile(r"\bstd::copy(_n)?<")
ENGINE = re.compile(r"^std::(linear_congruential_engine|mersenne_twister_engine|subtract_with_carry_engine|random_device)(<.*>)?::(operator\(\)|~?\w+)")


class PeekPut(trace.Tracer):
    peek = PUT


class Sampler(Machine):
    """choice: the outcome of the random choice; havoc: offsets of object 0 of which every reading may give anything"""
    choice = 0
    havoc = ()
    pick = ()
    atomic = ()

    def read(self, o, off):
        if o == 0 and off in self.havoc:
            return self.pick[min(self.seen.setdefault(self.at, len(self.seen)), len(self.pick) - 1)]
        return super().read(o, off)

    def write(self, o, off, v, e):
        super().write(o, off, v, e)

    def run(self, args, states):
        self.seen = {}
        return super().run(args, states)

    def put(self, e, a, words=None):
        """a value goes into the snapshot"""
        if words and words[0] is not None:
            v = self.value(words[0])
        else:
            o, off = self.cell(a, e)
            v = self.read(o, off)
        self.said.append(v)

    def called(self, e, k):
        n = e.name or ""
        res = ("res", k)
        words = (e.x or {}).get("in") or []
        m = DIST.search(n)
        if m:
            if m.group(2) == "operator()":
                lo, hi = self.env.get(("dist", e.args[0]), (None, None))
                if len(e.args) > 2:
                    p = ("dist", e.args[2])
                    lo, hi = self.env.get(p, (lo, hi))
                if lo is None:
                    raise Unknown((n[:60], "the bounds of a random choice"))
                if lo + self.choice > hi:
                    return False
                self.env[res] = num(lo + self.choice)
            elif len(e.args) >= 3:
                a, b = self.ev(e.args[1]), self.ev(e.args[2])
                if a[0] != "n" or b[0] != "n" or a[1] or b[1]:
                    raise Unknown((n[:60], "the bounds of a random choice"))
                self.env[("dist", e.args[0])] = (a[2], b[2])
            return True
        m = ENGINE.search(n)
        if m:
            if m.group(3) == "operator()":
                self.env[res] = num(self.choice)
            v = self.value(e.args[0]) if e.args else ("tok", None)
            if v[0] == "p" and v[1] in self.st and v[2][1] == 0:
                self.st[v[1]].cells[v[2][2]] = num(0)
            return True
        if PUT.search(n):
            j = 1
            w = words[j] if j < len(words) and words else None
            if "metric_value::metric_value" in n:
                self.env[("made", e.args[0])] = self.argument(e, e.args[1], w)
            else:
                v = self.env.get(("made", e.args[1]))
                self.said.append(v if v is not None else self.argument(e, e.args[1], w))
            return True
        if VEC.search(n) or re.search(r"^(void )?std::sort\b|metric_value::~|::now\(\)", n):
            ps = [self.value(a) for a in e.args[1:]]
            ps = [p for p in ps if p[0] == "p" and p[1] in self.st]
            if len(ps) == 2 and ps[0][1] == ps[1][1] and re.search(r"::(vector|assign|insert)\b", n):
                self.block(e, ps[0], ps[1])
            elif ps and VEC.search(n) and re.search(r"::(assign|insert|swap)\b", n):
                raise Unknown(n[:60])
            self.env[res] = ("tok", ("result", n[:40], k))
            return True
        if COPY.search(n):
            a, b, d = [self.ev(x) for x in e.args[:3]]
            if "copy_n" in n and b[0] == "n":
                b = ("p", a[1], num(a[2][2] + b[2] * self.elem, a[2][1] + b[1] * self.elem))
            if a[0] == b[0] == d[0] == "p" and a[1] == b[1]:
                if a[2][1] or b[2][1] or d[2][1]:
                    raise Outside(e, "the range is not bounded")
                for j in range(0, b[2][2] - a[2][2], self.elem):
                    o, x = self.inside(a[1], a[2][2] + j, e)
                    v = self.read(o, x)
                    o, x = self.inside(d[1], d[2][2] + j, e)
                    self.write(o, x, v, e)
                self.env[res] = ("tok", ("copied", k))
                return True
        raise Unknown((n[:80], e.where()))

    def cell(self, addr, e):
        o, off = super().cell(addr, e)
        if e is not None and (e.kind == "call" or e.kind == "load" and not e.ord) and off in self.atomic and isinstance(o, int):
            raise Outside(e, "bookkeeping is read as an element")
        return o, off

    def block(self, e, a, b):
        off = a[2][2]
        if a[2][1] or b[2][1]:
            raise Outside(e, "the range is not bounded")
        step = self.elem
        while off < b[2][2]:
            o, x = self.inside(a[1], off, e)
            self.said.append(self.read(o, x))
            off += step

    def inside(self, o, off, e):
        if not 0 <= off < self.sizes[o]:
            raise Outside(e, "offset %d is outside the %d bytes of its storage" % (off, self.sizes[o]))
        if off in self.atomic and isinstance(o, int):
            raise Outside(e, "bookkeeping is read as an element")
        return o, off

    def argument(self, e, a, w):
        if w and w[0] is not None:
            return self.value(w[0])
        v = self.value(a)
        if v[0] != "p":
            return v
        o, off = self.cell(a, e)
        return self.read(o, off)


class Bad(Exception):
    pass


W = ("tok", ("v", "x"))


class Kind:
    def __init__(self, mod, k):
        self.mod, self.k = mod, k
        self.N, self.elem = int(k[2:]), {"I": 8, "D": 8, "S": 4}[k[1]]
        self.size = [p for p in ways(mod, "rv_sizeof__" + k) if p.kind == "ret"][0].ret[1]
        self.paths = {}

    def get(self, what):
        if what not in self.paths:
            self.paths[what] = [p for p in ways(self.mod, "rv_%s__%s" % (what, self.k), cls=PeekPut) if p.kind in ("ret", "back")]
        return self.paths[what]

    def atomic(self):
        """cells that updates access atomically"""
        if "atomic" not in self.paths:
            self.paths["atomic"] = {offset(e) for p in self.get("update") for e in p.ev if e.kind in ("load", "store", "rmw", "cas") and e.ord} - {None}
        return self.paths["atomic"]

    def where(self, what):
        return core.origin(self.mod.fns["rv_%s__%s" % (what, self.k)])

    def run(self, what, args, states, choice=0, havoc=(), pick=()):
        sizes = {j: self.size for j in states if j != "v"}
        sizes["v"] = self.elem
        m = Sampler("rv_%s__%s" % (what, self.k), self.get(what), self.N, sizes)
        m.choice, m.havoc, m.pick, m.elem = choice, havoc, pick, self.elem
        m.atomic = self.atomic()
        return m.run(args, states)

    def one(self, what, args, states, **kw):
        rs = self.run(what, args, states, **kw)
        if len(rs) != 1:
            raise core.AnalysisError("%s: %d outcomes" % (what, len(rs)))
        return rs[0]

    def new(self):
        return self.one("new", [obj(0)], {0: State()})[0][0]

    def updates(self, s, v=W, **kw):
        """the states an update can lead to"""
        for choice in range(2 * self.N + 3):
            try:
                r = self.one("update", [obj(0), obj("v")], {0: s, "v": State({0: v})}, choice=choice, **kw)
            except core.AnalysisError as x:
                if choice and "no way through" in str(x):
                    return
                raise
            yield r[0][0]

    def snapshot(self, s, **kw):
        st, said, _ = self.one("snap", [obj("to"), obj(0)], {"to": State(), 0: s}, **kw)
        return said, st[0]


def obj(j):
    return ("p", j, num(0))


def canonical(s, N):
    out = {}
    for o, v in s.cells.items():
        if v[0] == "n":
            a, c = v[1], v[2]
            if a == 0 and c >= 2 * N or a and c >= N:
                v = num(c % N, 1)
        elif v[1][0] == "v":
            v = W
        out[o] = v
    return State(out)


def key(s):
    return tuple(sorted(s.cells.items(), key=repr))


def marked(s):
    """the same state with distinct elements"""
    return State({o: ("tok", ("v", o)) if v == W else v for o, v in s.cells.items()})


def reach(kd, limit=400):
    """every state (up to the values of the elements) with the number of elements it has to hold: {key: (state, filled, name)}"""
    s = canonical(kd.new(), kd.N)
    todo, seen = [(s, 0, "a new reservoir")], {}
    while todo:
        s, filled, name = todo.pop(0)
        k = (key(s), filled)
        if k in seen:
            continue
        seen[k] = (s, filled, name)
        if len(seen) > limit:
            raise core.AnalysisError("the states of the reservoir do not come to an end")
        n = min(filled + 1, kd.N)
        for t in kd.updates(s):
            todo.append((canonical(t, kd.N), n, "a reservoir after %s updates" % (filled + 1 if filled < kd.N else "many")))
        try:
            c = kd.one("copy", [obj(0), obj(1)], {0: State(), 1: s})[0][0]
            todo.append((canonical(c, kd.N), filled, "a copy of " + name if not name.startswith("a copy") else name))
        except Outside as o:
            raise Bad("copy:outside", o.e.where() if o.e is not None else kd.where("copy"), "copying %s: %s" % (name, o))
    return list(seen.values())


@prop("C03", technique="abstract interpretation over reachable states (compiler IR)", level="sound-analysis",
      explains="uniform and simple reservoirs of 2 to 4 elements of 4 and 8 bytes: every update with every outcome of the random choice, snapshot, copy and assignment from every abstract state that construction, updates and copies lead to (counts exact up to two fillings, beyond that by their remainder), and update and snapshot when every reading of the bookkeeping gives any value",
      rule="every element read or written lies inside the storage of the elements; a snapshot takes elements that have been written, each of them once and all of them",
      assumptions=["fewer than 2^64 updates", "the code does not depend on the element type beyond its size", "the standard random distributions stay inside the bounds they were given"])
def c03(c):
    mod = core.normalise("sampling.cpp", "A", policies.AV, prefix="rv_")
    kinds = sorted(x.split("__", 1)[1] for x in mod.fns if x.startswith("rv_update__"))
    nstates = nupd = nsnap = nother = 0
    errors = []
    for k in kinds:
        kd = Kind(mod, k)
        N = kd.N

        def step(name, what, fn):
            try:
                d = fn()
                c.ok("%s:%s" % (name, k), d or "")
                return True
            except Bad as b:
                c.bad("%s:%s:%s" % (name, k, b.args[0]), b.args[1], b.args[2])
            except Outside as o:
                c.bad("%s:%s:outside" % (name, k), o.e.where() if o.e is not None else kd.where(what), str(o))
            except core.AnalysisError as x:
                errors.append(str(x))
        states = []

        def history():
            states.extend(reach(kd))
            return "%d states" % len(states)

        def snapshots():
            nonlocal nsnap
            for s, filled, name in states:
                t = marked(s)
                said, after = kd.snapshot(t)
                nsnap += 1
                if after.cells != t.cells:
                    raise Bad("changed", kd.where("snap"), "a snapshot of %s changes it" % name)
                if any(v[0] != "tok" or v[1][0] != "v" for v in said):
                    raise Bad("unwritten", kd.where("snap"), "a snapshot of %s takes something that is not a sample" % name)
                if len(set(said)) != len(said):
                    raise Bad("twice", kd.where("snap"), "a snapshot of %s takes a sample twice" % name)
                if len(said) != filled:
                    raise Bad("missing", kd.where("snap"), "a snapshot of %s has %d samples instead of %d" % (name, len(said), filled))
            return "%d snapshots" % len(states)

        def assigned():
            nonlocal nother
            for s, filled, name in states:
                for d, _, dn in states:
                    nother += 1
                    x = kd.one("assign", [obj(0), obj(1)], {0: d, 1: marked(s)})[0]
                    said, _ = kd.snapshot(x[0])
                    if any(v[1][0] != "v" for v in said) or len(said) != filled or len(set(said)) != len(said):
                        raise Bad("assigned", kd.where("assign"), "%s assigned to %s gives %d samples instead of %d" % (name, dn, len(said), filled))
                    k2 = (key(canonical(x[0], N)))
                    if k2 not in {key(s2) for s2, _, _ in states}:
                        for _ in range(2):
                            for y in kd.updates(x[0]):
                                kd.snapshot(y)
            return "%d assignments" % nother

        def racing():
            nonlocal nupd
            cells = sorted({o for s, _, _ in states for o, v in s.cells.items() if v[0] == "n"})
            vals = [num(j) for j in range(2 * N + 1)] + [num(r, 1) for r in range(N)]
            full = State({o: v if v[0] == "n" else W for s, f, _ in states if f == N for o, v in s.cells.items()})
            for pick in itertools.product(vals, vals):
                for _ in kd.updates(full, havoc=cells, pick=pick):
                    nupd += 1
                if k[0] == "u":
                    kd.snapshot(full, havoc=cells, pick=pick)
            return "every pair of readings"
        if step("history", "update", history):
            nstates += len(states)
            step("snapshot", "snap", snapshots)
            step("assign", "assign", assigned)
            step("overlapping", "update", racing)
    if errors:
        raise core.AnalysisError(errors[0])
    if not c.violations:
        c.expect(nstates, 20, "abstract states")
        c.expect(nsnap, 20, "snapshots")
        c.expect(nother, 50, "assignments")
        c.count("updates under interference", nupd)
