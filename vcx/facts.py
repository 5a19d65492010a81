"""What the branch facts of a path say about sizes and indices: difference bounds over unsigned 64 bit integers."""
from . import flow
from .flow import isC, sgn, width

ZERO = ("zero-node",)
M64 = 1 << 64
SIZEMAX = (1 << 63) - 1


def split(t, w=64):
    """term as (base term or ZERO, constant)"""
    if isC(t):
        return ZERO, t[1]
    if t[0] == "lin" and t[1] == w and len(t[3]) == 1 and t[3][0][1] == 1:
        return t[3][0][0], sgn(t[2], w)
    return t, 0


def w_of(t):
    if isC(t):
        return t[2]
    if t[0] == "lin":
        return t[1]
    return None


class Facts:
    def __init__(self, world, extra=()):
        """extra: further (a, b, c) meaning a - b <= c"""
        self.w = world
        self.e = {}          # (x, y) -> c   x - y <= c
        self.nodes = {ZERO}
        self.pending = []
        self.extra = list(extra)
        self.build()

    def node(self, t):
        if t not in self.nodes:
            self.nodes.add(t)
            self.add(ZERO, t, 0)
            hi = M64 - 1
            if t[0] == "pc" and t[1] in ("size", "length", "capacity"):
                hi = SIZEMAX
            if t[0] == "op" and t[1] == "zext" and width(t[4]):
                hi = (1 << width(t[4])) - 1
            self.add(t, ZERO, hi)

    def add(self, x, y, c):
        k = (x, y)
        if k not in self.e or self.e[k] > c:
            self.e[k] = c
            return True
        return False

    def close(self):
        n = list(self.nodes)
        for k in n:
            for i in n:
                a = self.e.get((i, k))
                if a is None:
                    continue
                for j in n:
                    b = self.e.get((k, j))
                    if b is not None:
                        self.add(i, j, a + b)

    def bounds(self, t):
        if t == ZERO:
            return 0, 0
        self.node(t)
        return -self.e.get((ZERO, t), 0), self.e.get((t, ZERO), M64 - 1)

    def nowrap(self, base, c):
        lo, hi = self.bounds(base)
        return lo + c >= 0 and hi + c < M64

    def build(self):
        W = self.w
        cons = []           # (a, b, strict)   a <= b or a < b over terms
        for t, v in W.iv.items():
            if isC(t):
                continue
            b, c = split(t)
            self.node(b)
            cons.append(("iv", t, v))
        for k, s in W.rel.items():
            if k[0] == "u":
                _, a, b = k
                cons.append(("rel", a, b, frozenset(s)))
            elif k[0] == "s":
                cons.append(("srel", k[1], k[2], frozenset(s)))
            elif k[0] == "f":
                cons.append(("frel", k[1], k[2], frozenset(s)))
        for a, v in W.bool.items():
            t = a[1] if a[0] == "bool" else None
            if t is not None and t[0] == "pc" and t[1] == "empty" and len(t) == 4:
                s = ("pc", "size", t[2], t[3])
                self.node(s)
                if v:
                    self.add(s, ZERO, 0)
                else:
                    self.add(ZERO, s, -1)
            if a[0] == "peq":
                x, y = a[1], a[2]
                for p, q in ((x, y), (y, x)):
                    if p[0] == "ptr" and q[0] == "ptr" and p[1][0] == "pc" and q[1][0] == "pc" and p[1][1] == "begin" and q[1][1] == "end" and p[1][2:] == q[1][2:] and not (p[2] or p[3] or q[2] or q[3]):
                        s = ("pc", "size") + p[1][2:]
                        self.node(s)
                        if v:
                            self.add(s, ZERO, 0)
                        else:
                            self.add(ZERO, s, -1)
        for c in cons:
            if c[0] in ("rel", "srel"):
                for t in c[1:3]:
                    self.node(split(t)[0])
        for a, b, c in self.extra:
            self.node(a)
            self.node(b)
            self.add(a, b, c)
        for _ in range(3):
            self.close()
            ch = False
            for c in cons:
                if c[0] == "iv":
                    b, k = split(c[1])
                    if self.nowrap(b, k):
                        ch |= self.add(b, ZERO, c[2][3] - k)
                        ch |= self.add(ZERO, b, k - c[2][2])
                elif c[0] in ("rel", "srel"):
                    (x, cx), (y, cy) = split(c[1]), split(c[2])
                    if not (self.nowrap(x, cx) and self.nowrap(y, cy)):
                        continue
                    if c[0] == "srel" and not (self.bounds(x)[1] + cx <= SIZEMAX and self.bounds(y)[1] + cy <= SIZEMAX):
                        continue
                    s = c[3]
                    if s <= {"lt", "eq"}:
                        ch |= self.add(x, y, cy - cx - (0 if "eq" in s else 1))
                    if s <= {"gt", "eq"}:
                        ch |= self.add(y, x, cx - cy - (0 if "eq" in s else 1))
                    if "eq" not in s:
                        if self.e.get((x, y)) == cy - cx:
                            ch |= self.add(x, y, cy - cx - 1)
                        if self.e.get((y, x)) == cx - cy:
                            ch |= self.add(y, x, cx - cy - 1)
                elif c[0] == "frel":
                    ch |= self.frel(c)
            if not ch:
                break
        self.close()

    def frel(self, c):
        """a truncated number keeps the order to the integers around it"""
        ch = False
        for x, y, s in ((c[1], c[2], c[3]), (c[2], c[1], frozenset({"lt": "gt", "gt": "lt"}.get(k, k) for k in c[3]))):
            n = asint(y)
            if n is None:
                continue
            b, k = split(n)
            for t in list(self.nodes):
                if t[0] == "op" and t[1] in ("fptoui", "fptosi") and strip(t[3]) == strip(x):
                    self.node(b)
                    if not self.nowrap(b, k):
                        continue
                    if s <= {"lt"}:          # x < n, so trunc(x) < n
                        ch |= self.add(t, b, k - 1)
                    elif s <= {"lt", "eq"}:
                        ch |= self.add(t, b, k)
                    elif s <= {"gt", "eq"}:  # x >= n, so trunc(x) >= n
                        ch |= self.add(b, t, -k)
        return ch

    def diff(self, a, b):
        """an upper bound of a - b, or None"""
        (x, cx), (y, cy) = split(a), split(b)
        self.node(x)
        self.node(y)
        self.close()
        if not (self.nowrap(x, cx) and self.nowrap(y, cy)):
            return None
        if x == y:
            return cx - cy
        d = self.e.get((x, y))
        return None if d is None else d + cx - cy

    def infeasible(self):
        """the facts contradict each other"""
        return any(i == j and c < 0 for (i, j), c in self.e.items()) or any(lo > hi for lo, hi in map(self.bounds, list(self.nodes)))

    def lt(self, a, b):
        d = self.diff(a, b)
        return d is not None and d <= -1

    def le(self, a, b):
        d = self.diff(a, b)
        return d is not None and d <= 0

    def eq(self, a, b):
        return self.le(a, b) and self.le(b, a)


def strip(t):
    while t[0] == "op" and t[1] in ("rnd", "fpext"):
        t = t[3]
    return t


def asint(t):
    t = strip(t)
    if t[0] == "op" and t[1] == "uitofp":
        return t[3]
    if t[0] == "f":
        try:
            x = float(t[1])
        except ValueError:
            return None
        if 0 <= x < 1e15 and x == int(x):
            return flow.C(int(x), 64)
    return None
