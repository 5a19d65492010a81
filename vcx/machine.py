"""Abstract interpretation of small containers over a partition of their histories.

An object is a map from offsets to values: numbers of the form a*Q + c, where Q is an unknown positive multiple of the
capacity N, and tokens, which stand for any element.  A function is applied to such a state by means of the summaries
of its paths (trace.py): the paths whose conditions can hold in the state decide what it does.  Nothing here depends on
how the object is laid out.
"""
from . import core, flow
from .flow import isC, sgn


class Outside(Exception):
    """an access outside the object; .e is the event"""

    def __init__(self, e, msg):
        super().__init__(msg)
        self.e = e


class Unknown(Exception):
    pass


def num(c, a=0):
    return ("n", a, c)


class State:
    def __init__(self, cells=None):
        self.cells = dict(cells or {})

    def copy(self):
        return State(self.cells)

    def numbers(self):
        return {k: v for k, v in self.cells.items() if v[0] == "n"}


class Machine:
    def __init__(self, name, paths, N, sizes, limit=None):
        self.name, self.paths, self.N, self.sizes = name, paths, N, sizes
        self.limit = limit or 4 * N + 8

    # -- values
    def ev(self, t):
        """value of a term"""
        t0 = t
        if t in self.env:
            return self.env[t]
        k = t[0]
        if k == "c":
            return num(sgn(t[1], t[2]))
        if k == "null":
            return ("p", None, num(0))
        if k == "f":
            return ("tok", t)
        if k == "arg":
            return self.args[t[1]]
        if k == "lin":
            a, c = 0, sgn(t[2], t[1])
            base = None
            for x, m in t[3]:
                v, m = self.ev(x), sgn(m, t[1])
                if v[0] == "p":
                    if base is not None or m != 1:
                        # a difference of pointers
                        if base is not None and m == -1 and base[1] == v[1]:
                            a, c, base = a + base[2][1] - v[2][1], c + base[2][2] - v[2][2], None
                            continue
                        raise Unknown(t)
                    base = v
                    continue
                if v[0] == "tok":
                    return ("tok", ("of", t, v))
                if v[0] != "n":
                    raise Unknown(t)
                a, c = a + m * v[1], c + m * v[2]
            if base is not None:
                return ("p", base[1], num(base[2][2] + c, base[2][1] + a))
            return num(c, a)
        if k == "ptr":
            b = self.ev(t[1])
            if b[0] != "p":
                raise Unknown(t)
            a, c = b[2][1], b[2][2] + t[2]
            for idx in t[3]:
                if isinstance(idx, tuple) and len(idx) == 2 and isinstance(idx[0], int):
                    s, x = idx
                elif isinstance(idx, tuple) and len(idx) == 2 and isinstance(idx[1], int):
                    x, s = idx
                else:
                    raise Unknown(t)
                v = self.ev(x)
                if v[0] != "n":
                    raise Unknown(t)
                a, c = a + s * v[1], c + s * v[2]
            return ("p", b[1], num(c, a))
        if k == "ld":
            o, off = self.cell(t[1], None)
            return self.read(o, off)
        if k == "op":
            o = t[1]
            if o in ("zext", "sext", "trunc", "bitcast", "freeze", "rnd", "inttoptr", "ptrtoint"):
                return self.ev(t[3])
            if o != "select":
                vs = tuple(self.ev(x) for x in t[3:] if isinstance(x, tuple))
                if any(v[0] == "tok" for v in vs):
                    return ("tok", ("of", t, vs))
            if o in ("urem", "srem", "and"):
                x, m = self.ev(t[3]), self.ev(t[4])
                if o == "and" and x[0] == "n" and x[1] == 0 and (m[0] != "n" or m[1] != 0 or (m[2] + 1) & m[2]):
                    x, m = m, x
                if o == "and" and x[0] == m[0] == "n" and x[1] == m[1] == 0:
                    return num((x[2] & m[2]))
                if x[0] == m[0] == "n" and m[1] == 0:
                    d = m[2] + 1 if o == "and" else m[2]
                    if d > 0 and (o != "and" or d & (d - 1) == 0) and x[1] * self.N % d == 0 and (x[2] >= 0 or x[1] > 0 and x[1] * self.N + x[2] >= 0):
                        return num(x[2] % d)
                raise Unknown(t)
            if o in ("xor", "or", "lshr", "ashr"):
                x, m = self.ev(t[3]), self.ev(t[4])
                if x[0] == m[0] == "n" and x[1] == m[1] == 0 and x[2] >= 0 and m[2] >= 0:
                    return num({"xor": x[2] ^ m[2], "or": x[2] | m[2]}.get(o, x[2] >> min(m[2], 64)))
                raise Unknown(t)
            if o in ("umin", "umax", "smin", "smax"):
                x, y = self.ev(t[3]), self.ev(t[4])
                r = self.cmp(x, y)
                if len(r) == 1 or r <= {"lt", "eq"} or r <= {"gt", "eq"}:
                    less = "gt" not in r
                    return (x if less else y) if o.endswith("min") else (y if less else x)
                raise Unknown(t)
            if o == "udiv" or o == "sdiv":
                x, m = self.ev(t[3]), self.ev(t[4])
                if x[0] == m[0] == "n" and x[1] == 0 and m[1] == 0 and m[2] > 0 and x[2] >= 0:
                    return num(x[2] // m[2])
            if o == "mul":
                x, m = self.ev(t[3]), self.ev(t[4])
                if x[0] == m[0] == "n" and (x[1] == 0 or m[1] == 0):
                    x, m = (x, m) if m[1] == 0 else (m, x)
                    return num(x[2] * m[2], x[1] * m[2])
            if o == "shl":
                x, m = self.ev(t[3]), self.ev(t[4])
                if x[0] == m[0] == "n" and m[1] == 0:
                    return num(x[2] << m[2], x[1] << m[2])
            if o == "select":
                raise Unknown(t)
        raise Unknown(t0)

    def cmp(self, x, y):
        """possible outcomes of comparing two numbers"""
        if x[0] == "p" and y[0] == "p":
            if x[1] != y[1]:
                return {"lt", "gt"}
            return self.cmp(x[2], y[2])
        if x[0] != "n" or y[0] != "n":
            raise Unknown((x, y))
        a, c = x[1] - y[1], x[2] - y[2]
        if a == 0:
            return {"lt" if c < 0 else "gt" if c > 0 else "eq"}
        if a > 0:
            low = a * self.N + c
            return {"gt"} if low > 0 else {"gt", "eq"} if low == 0 else {"lt", "eq", "gt"}
        high = a * self.N + c
        return {"lt"} if high < 0 else {"lt", "eq"} if high == 0 else {"lt", "eq", "gt"}

    def cell(self, addr, e):
        v = self.ev(addr)
        if v[0] != "p" or v[1] is None:
            raise Outside(e, "an access through a null pointer")
        if v[2][1] != 0:
            raise Outside(e, "the index is not bounded")
        o, off = v[1], v[2][2]
        if not 0 <= off < self.sizes[o]:
            raise Outside(e, "offset %d is outside the %d bytes of its storage" % (off, self.sizes[o]))
        return o, off

    def read(self, o, off):
        return self.st[o].cells.get(off, ("tok", ("unwritten", o, off)))

    def write(self, o, off, v, e):
        old = self.st[o].cells.get(off)
        if old is not None and (old[0] == "n") != (v[0] == "n"):
            raise Outside(e, "an element is written where the bookkeeping is kept" if v[0] != "n" else "bookkeeping is written where elements are kept")
        self.st[o].cells[off] = v

    # -- paths
    def feasible(self, p, partial=False):
        if partial:
            # as far as known
            for one in self.conditions(p):
                try:
                    if not one():
                        return False
                except Unknown:
                    pass
            return True
        return all(one() for one in self.conditions(p))

    def conditions(self, p):
        def iv(t, slo, shi, ulo, uhi):
            v = self.ev(t)
            if v[0] == "tok":
                return True
            if v[0] != "n":
                raise Unknown(t)
            return self.within(v, max(slo, -(1 << 63)), shi) and self.within(v, ulo, uhi, True)

        def rel(key, s):
            if key[0] not in ("s", "u"):
                raise Unknown(key)
            return bool(self.cmp(self.ev(key[1]), self.ev(key[2])) & set(s))

        def boo(key, val):
            if key[0] == "peq":
                return ("eq" in self.cmp(self.ev(key[1]), self.ev(key[2]))) == bool(val)
            if key[0] == "cas":
                return True
            if key[0] == "bool":
                v = self.ev(key[1])
                if v[0] == "n" and v[1] == 0:
                    return bool(v[2] & 1) == bool(val)
                raise Unknown(key)
            raise Unknown(key)
        for t, b in p.w.iv.items():
            yield lambda t=t, b=b: iv(t, *b)
        for key, s in p.w.rel.items():
            yield lambda key=key, s=s: rel(key, s)
        for key, val in p.w.bool.items():
            yield lambda key=key, val=val: boo(key, val)

    def within(self, v, lo, hi, unsigned=False):
        a, c = v[1], v[2]
        if a == 0:
            if unsigned and c < 0:
                c += 1 << 64
            return lo <= c <= hi
        if a > 0:
            return a * self.N + c <= hi
        return a * self.N + c >= lo if not unsigned else True

    def steps(self, p, start, stop=None):
        """effects of the events of a path; False if a compare-exchange cannot go the way the path says"""
        for k in range(start, len(p.ev)):
            e = p.ev[k]
            self.at = k
            if e.kind == "loop":
                return k
            if e.kind in ("load", "store", "rmw", "cas"):
                a = e.addr
                v = self.ev(a)
                if v[0] == "g":
                    raise Unknown(a)
                o, off = self.cell(a, e)
                if e.kind == "load":
                    if e.res is not None:
                        self.env[e.res] = self.read(o, off)
                elif e.kind == "store":
                    self.write(o, off, self.value(e.val), e)
                elif e.kind == "rmw":
                    old = self.read(o, off)
                    self.env[e.res] = old
                    op = e.x.get("op")
                    d = self.ev(e.val)
                    if op == "xchg":
                        self.write(o, off, d, e)
                    elif op in ("add", "sub") and old[0] == d[0] == "n":
                        s = 1 if op == "add" else -1
                        self.write(o, off, num(old[2] + s * d[2], old[1] + s * d[1]), e)
                    else:
                        raise Unknown(e.addr)
                else:
                    old = self.read(o, off)
                    if e.res is not None:
                        self.env[e.res] = old
                    same = "eq" in self.cmp(old, self.ev(e.x["exp"]))
                    if same != bool(e.x["ok"]):
                        return False
                    if same:
                        self.write(o, off, self.ev(e.val), e)
            elif e.kind == "call":
                if self.called(e, k) is False:
                    return False
            elif e.kind in ("enter", "exit"):
                pass
            else:
                raise Unknown((e.kind, e.where()))
        return None

    def value(self, t):
        try:
            return self.ev(t)
        except Unknown:
            return ("tok", t)

    def called(self, e, k):
        raise Unknown((e.name or "", e.where()))

    def run(self, args, states):
        """[(states, what the calls said, returned value)]"""
        self.args = args
        self.results = []
        try:
            self.go(self.paths, 0, {}, {k: s.copy() for k, s in states.items()}, [], 0)
        except Unknown as u:
            raise core.AnalysisError("%s: cannot interpret %s" % (self.name, str(u)[:200]))
        if not self.results:
            raise core.AnalysisError("%s: no way through for a state that can occur" % self.name)
        return self.results

    def go(self, paths, start, env, states, said, depth):
        """follows the feasible paths from event `start` on; paths that reach a loop go on from its head together"""
        if depth > self.limit:
            raise Unknown(("loop", self.name))
        heads = {}
        for p in paths:
            self.env = {t: v for t, v in env.items() if not (t[0] in ("at", "res") and isinstance(t[1], int) and t[1] >= start)}
            self.st, self.said = {k: s.copy() for k, s in states.items()}, list(said)
            try:
                k = self.steps(p, start)
            except Outside:
                if self.feasible(p, True):
                    raise
                continue
            if k is False:
                continue
            if k is None:
                if not self.feasible(p):
                    continue
                if p.kind == "ret":
                    self.results.append((self.st, self.said, self.ev(p.ret) if p.ret is not None else None))
                elif p.kind == "back":
                    self.again.append((p, {i: self.ev(t) for i, t in p.x.items()}, self.st, self.said, dict(self.env)))
                continue
            if not self.feasible(p, True):
                continue
            e = p.ev[k]
            heads.setdefault((e.x["h"], k), []).append((p, e, dict(self.env), self.st, self.said))
        for (h, k), group in heads.items():
            p0, e0, env0, st0, said0 = group[0]
            self.env, self.st = env0, st0
            ivs = {i: (t, self.ev(init)) for i, (init, t) in e0.x["iv"].items()}
            ps = [g[0] for g in group]
            for p, e, env, st, _ in group[1:]:
                self.env, self.st = env, st
                if {i: self.ev(init) for i, (init, t) in e.x["iv"].items()} != {i: v for i, (t, v) in ivs.items()} or any(st[j].cells != st0[j].cells for j in st0):
                    raise Unknown(("several ways to a loop", self.name))
            e1 = dict(env0)
            e1.update({t: v for t, v in ivs.values()})
            self.loop(ps, h, k, e1, st0, said0, ivs, depth)

    def loop(self, ps, h, k, env, st, said, ivs, depth):
        for _ in range(self.limit):
            saved = getattr(self, "again", None)
            self.again = []
            self.go(ps, k + 1, env, st, said, depth + 1)
            again, self.again = self.again, saved
            mine = [a for a in again if a[0].ret == h]
            if saved is not None:
                saved.extend(a for a in again if a[0].ret != h)
            if not mine:
                return
            if len(mine) > 1:
                raise Unknown(("several ways round a loop", self.name))
            p, back, st, said, env2 = mine[0]
            env = dict(env)
            for i, v in back.items():
                if i in ivs:
                    env[ivs[i][0]] = v
        raise Unknown(("a loop that does not end", self.name))
