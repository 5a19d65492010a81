"""Ring buffers."""
from . import core, policies
from .effects import releases
from .flow import isC
from .machine import Machine, Outside, State, num
from .meters import ways
from .registry import prop


class Ring(Machine):
    def called(self, e, k_):
        if (e.name or "").startswith("visit_probe"):
            k = e.args[0]
            self.said.append((k[1] if isC(k) else None, self.value(e.args[1])))
            return
        super().called(e, k_)


def obj(j):
    return ("p", j, num(0))


class Kind:
    """the functions of one kind of ring buffer over abstract states"""

    def __init__(self, mod, k):
        self.mod, self.k, self.N = mod, k, int(k[1:])
        f = mod.fns["rb_sizeof__" + k]
        ret = [p for p in ways(mod, f.name) if p.kind == "ret"][0].ret
        self.size = ret[1]
        self.paths = {}
        self.elem = {"I": 8, "D": 8, "S": 4}[k[0]]

    def get(self, what):
        if what not in self.paths:
            self.paths[what] = [p for p in ways(self.mod, "rb_%s__%s" % (what, self.k)) if p.kind in ("ret", "back")]
        return self.paths[what]

    def run(self, what, args, states, sizes=None):
        m = Ring("rb_%s__%s" % (what, self.k), self.get(what), self.N, {**{j: self.size for j in states}, **(sizes or {})})
        return m.run(args, states)

    def new(self):
        return [st[0] for st, _, _ in self.run("new", [obj(0)], {0: State()})]

    def push(self, s, v):
        return [st[0] for st, _, _ in self.run("push", [obj(0), v], {0: s})]

    def walk(self, s):
        """the ways a walk over the buffer may go: lists of elements, None if it does not end"""
        out = []
        for st, said, _ in self.run("walk", [obj(0)], {0: s}):
            if [k for k, _ in said] != list(range(len(said))):
                out.append(None)
            elif len(said) > self.N:
                out.append(None)
            else:
                out.append([v for _, v in said])
            if st[0].cells != s.cells:
                out.append(None)
        return out

    def length(self, s):
        return [r for _, _, r in self.run("size", [obj(0)], {0: s})]


def tok(x):
    return ("tok", ("v", x))


def shown(vs):
    return "nothing that ends" if vs is None else "[%s]" % ", ".join("an unwritten slot" if v[0] == "tok" and v[1][0] == "unwritten" else "v%s" % v[1][1] if v[0] == "tok" and v[1][0] == "v" else str(v)[:20] for v in vs)


class Bad(Exception):
    pass


def only(xs, what):
    if len(xs) != 1:
        raise core.AnalysisError("%s: %d outcomes" % (what, len(xs)))
    return xs[0]


def origin(kd, what):
    return core.origin(kd.mod.fns["rb_%s__%s" % (what, kd.k)])


def history(kd):
    """every abstract state that can occur, with its content: [(state, content, name)]"""
    N = kd.N
    s = only(kd.new(), "construction")
    seq = [(s, [], "after no push")]
    for k in range(3 * N):
        s = only(kd.push(s, tok(k)), "push")
        seq.append((s, (seq[-1][1] + [tok(k)])[-N:], "after %d pushes" % (k + 1)))
    out = seq[:2 * N + 1]
    for r in range(N):
        a, b = seq[N + r][0].numbers(), seq[2 * N + r][0].numbers()
        if set(a) != set(b):
            raise core.AnalysisError("the bookkeeping of the ring buffer changes its shape")
        g = State(seq[N + r][0].cells)
        for o in a:
            d = b[o][2] - a[o][2]
            if d == 0:
                continue
            if d != N:
                raise core.AnalysisError("the bookkeeping of the ring buffer does not come back after as many pushes as it has slots")
            g.cells[o] = num(a[o][2] - N, 1)
        out.append((g, seq[N + r][1], "after a multiple of %d and %d pushes" % (N, r)))
    return out


def same(x, y, N):
    """whether two states are the same up to the number of times the buffer was filled"""
    a, b = x.numbers(), y.numbers()
    if set(a) != set(b):
        return False
    shift = {b[o][2] - a[o][2] for o in a if a[o][1] == 1}
    return all(a[o][1] == b[o][1] for o in a) and all(a[o][2] == b[o][2] for o in a if a[o][1] == 0) and shift <= {0} or \
        all(a[o][1] == b[o][1] for o in a) and all(a[o][2] == b[o][2] for o in a if a[o][1] == 0) and shift == {N}


def copied(kd, hist):
    """copies and assignments in every state; returns their number"""
    N, n = kd.N, 0
    for s, want, name in hist:
        for d, _, dn in [(None, None, "")] + [hist[0], hist[N - 1], hist[-1]]:
            what = "copy" if d is None else "assign"
            for st, _, r in kd.run(what, [obj(0), obj(1)], {0: State(d.cells if d else {}), 1: s}):
                n += 1
                if st[1].cells != s.cells:
                    raise Bad("source", origin(kd, what), "%s the source of a copy is changed" % name)
                for got in kd.walk(st[0]):
                    if got != want:
                        raise Bad(what, origin(kd, what), "%s a %s has %s instead of %s" % (name, "copy" if d is None else "target " + dn, shown(got), shown(want)))
                if not any(same(h, st[0], N) and len(w) == len(want) for h, w, _ in hist):
                    raise Bad(what + ":state", origin(kd, what), "%s a copy is in a state that no number of pushes leads to" % name)
    for s, want, name in hist:
        for st, _, r in kd.run("assign", [obj(0), obj(0)], {0: s}):
            for got in kd.walk(st[0]):
                if got != want:
                    raise Bad("self", origin(kd, "assign"), "%s an assignment to itself makes a buffer %s instead of %s" % (name, shown(got), shown(want)))
    return n


def concurrent(c, kd, hist):
    """accesses under any interference: every reading of the bookkeeping is any value it can have"""
    import itertools
    values = {}
    for s, _, _ in hist:
        for o, v in s.numbers().items():
            values.setdefault(o, set()).add(v)
    n = 0
    sizes = {o for p in kd.get("size") for e in p.ev if e.kind == "load" for o in [offset(e)] if o in values}
    for what in ("push", "walk"):
        for p in kd.get(what):
            seen = []
            for e in p.ev:
                if e.kind == "loop":
                    seen += [(t, o) for i, (init, t) in e.x["iv"].items() for o in [cell_of(p, init)] if o is not None and o in values]
                elif e.kind in ("load", "rmw", "cas") and e.res is not None and offset(e) in values:
                    seen.append((e.res, offset(e)))
            if any(e.kind in ("store", "set", "copy") and offset(e) in sizes for e in p.ev) and what == "push":
                e = next(e for e in p.ev if e.kind in ("store", "set", "copy") and offset(e) in sizes)
                raise Bad("size", e.where(), "the size is written in a step that does not depend on what it is then: it can shrink when several pushes overlap")
            done = [k for k, e in enumerate(p.ev) if e.kind == "store" and ("arg", 1) in (e.val, bare(e.val))]
            for k, e in enumerate(p.ev):
                if what == "push" and e.kind in ("cas", "rmw") and offset(e) in sizes and (e.kind == "rmw" or e.x["ok"]) and e.val != ("c", 0, 64):
                    tail = any(q.kind == "rmw" and offset(q) == offset(e) for q in p.ev) and e.kind == "rmw" and len(values) == 1
                    if not tail and (not done or done[0] > k or not releases(e.ord)):
                        raise Bad("published", e.where(), "the size covers a slot before the element is there")
            combos = itertools.islice(itertools.product(*[sorted(values[o]) for _, o in seen]), 20000)
            for combo in combos:
                m = Ring(p and kd.k, [p], kd.N, {0: kd.size})
                m.args = [obj(0), tok("x")]
                m.env = {t: v for (t, _), v in zip(seen, combo)}
                m.st, m.said = {0: State()}, []
                if not m.feasible(p, True):
                    continue
                n += 1
                for e in p.ev:
                    if e.kind in ("load", "store", "rmw", "cas"):
                        try:
                            o, off = m.cell(e.addr, e)
                        except Outside as x:
                            raise Bad("bounds", e.where(), "%s: %s" % (what, x))
                        if e.kind == "load" and off not in values and e.res not in m.env:
                            m.env[e.res] = ("tok", ("slot", off))
                        if off in values and offset(e) is None:
                            raise Bad("bounds", e.where(), "%s: an element is where the bookkeeping is kept" % what)
                    if e.kind in ("cas", "rmw") and what == "push" and offset(e) in sizes and (e.kind == "rmw" or e.x["ok"]):
                        old = m.ev(e.x["exp"]) if e.kind == "cas" else m.env[e.res]
                        new = m.ev(e.val) if e.kind == "cas" else num(old[2] + m.ev(e.val)[2], old[1])
                        before = sized(kd, offset(e), old)
                        after = sized(kd, offset(e), new)
                        if before is None or after is None:
                            continue
                        if m.cmp(after, before) & {"lt"}:
                            raise Bad("shrinks", e.where(), "the size can shrink when several pushes overlap")
                        if m.cmp(after, num(kd.N)) & {"gt"}:
                            raise Bad("exceeds", e.where(), "the size can exceed the capacity when several pushes overlap")
    return n


def sized(kd, o, v):
    """the size when the cell at o holds v, if it depends on that cell alone"""
    cells = {offset(e) for p in kd.get("size") for e in p.ev if e.kind == "load"}
    if cells != {o}:
        return None
    rs = [r for _, _, r in kd.run("size", [obj(0)], {0: State({o: v})})]
    return rs[0] if len(rs) == 1 else None


def bare(t):
    while t and t[0] == "op" and t[1] in ("bitcast", "freeze"):
        t = t[3]
    return t


def offset(e):
    """the constant offset of an access to the object"""
    from .snapshots import ptr
    if e.addr is None:
        return None
    a = ptr(e.addr)
    return a[2] if a[1] == ("arg", 0) and not a[3] else None


def cell_of(p, t):
    t = bare(t)
    if t[0] == "at" and isinstance(t[1], int):
        return offset(p.ev[t[1]])
    return None


def checked(c, key, kd, what, fn):
    try:
        d = fn()
        c.ok(key, d or "")
    except Bad as b:
        c.bad("%s:%s" % (key, b.args[0]) if b.args[0] else key, b.args[1], b.args[2])
    except Outside as o:
        c.bad(key + ":outside", o.e.where() if o.e is not None else origin(kd, what), str(o))
    except core.AnalysisError as x:
        kd.errors.append(str(x))


@prop("C02", technique="abstract interpretation over a finite partition of histories (compiler IR)", level="sound-analysis",
      explains="ring buffers of 2 to 5 elements of 4 and 8 bytes: construction, push, iteration, size, copies, assignments and construction from a range, in every state a history of pushes can lead to (exact up to two fillings, beyond that by the remainder of the number of pushes), and push and iteration under any interference",
      rule="from every reachable abstract state: push leads to a state whose iteration gives the previous elements and the new one, at most the latest N, oldest first, and to a state of the partition again; iteration ends; size is the number of elements; all accesses stay inside the storage, also when every reading of the bookkeeping is any value it can have; the size only changes by steps that never make it smaller or larger than N, after the element is in place",
      assumptions=["fewer than 2^64 pushes", "the code does not depend on the element type beyond its size"])
def c02(c):
    mod = core.normalise("ring.cpp", "A", policies.A, prefix="rb_")
    kinds = sorted(x.split("__", 1)[1] for x in mod.fns if x.startswith("rb_push__"))
    nstates = npush = ncopy = nobs = 0
    errors = []
    for k in kinds:
        kd = Kind(mod, k)
        kd.errors = errors
        N = kd.N
        try:
            hist = history(kd)
        except core.AnalysisError as x:
            errors.append(str(x))
            continue
        except Outside as o:
            c.bad("history:%s:outside" % k, o.e.where() if o.e is not None else origin(kd, "push"), str(o))
            continue
        nstates += len(hist)

        def contents():
            for s, want, name in hist:
                for got in kd.walk(s):
                    if got != want:
                        raise Bad("", origin(kd, "walk"), "%s a walk over a buffer of %d gives %s instead of %s" % (name, N, shown(got), shown(want)))
                for r in kd.length(s):
                    if r != num(len(want)):
                        raise Bad("size", origin(kd, "size"), "%s the size of a buffer of %d is %s instead of %d" % (name, N, r and r[2], len(want)))
            return "%d states" % len(hist)

        def pushes():
            nonlocal npush
            for j, (s, want, name) in enumerate(hist):
                if j == 2 * N:
                    continue
                for t in kd.push(s, tok("x")):
                    npush += 1
                    nxt = (want + [tok("x")])[-N:]
                    for got in kd.walk(t):
                        if got != nxt:
                            raise Bad("", origin(kd, "push"), "%s a push makes the content of a buffer of %d %s instead of %s" % (name, N, shown(got), shown(nxt)))
                    if j > 2 * N:
                        g = hist[2 * N + 1 + (j - 2 * N - 1 + 1) % N][0]
                        if not same(g, t, N):
                            raise Bad("closed", origin(kd, "push"), "%s a push leads to a state that no number of pushes from the start leads to" % name)
            return "%d pushes" % npush

        def copies():
            nonlocal ncopy
            n = copied(kd, hist)
            ncopy += n
            return "%d copies" % n

        def ranges():
            for m in range(N + 2):
                src = State({kd.elem * j: tok(j) for j in range(m)})
                for st, _, _ in kd.run("range", [obj(0), obj("src"), ("p", "src", num(m * kd.elem))], {0: State(), "src": src}, {"src": m * kd.elem}):
                    want = [tok(j) for j in range(m)]
                    for got in kd.walk(st[0]):
                        if m <= N and got != want or m > N and (got is None or len(got) != N or [x for x in want if x in got] != got):
                            raise Bad("", origin(kd, "range"), "a buffer of %d made of %d elements has %s" % (N, m, shown(got)))
            return "up to %d elements" % (N + 1)

        def racing():
            nonlocal nobs
            nobs += concurrent(c, kd, hist)
            return "every combination of readings"
        checked(c, "content:" + k, kd, "walk", contents)
        checked(c, "push:" + k, kd, "push", pushes)
        checked(c, "copied:" + k, kd, "copy", copies)
        checked(c, "range:" + k, kd, "range", ranges)
        checked(c, "overlapping:" + k, kd, "push", racing)
    if errors:
        raise core.AnalysisError(errors[0])
    if not c.violations:
        c.expect(nstates, 30, "abstract states")
        c.expect(npush, 25, "pushes from abstract states")
        c.expect(ncopy, 60, "copies of abstract states")
        c.count("combinations of readings", nobs)
