"""A function that writes the elements of a container writes all of them."""
from . import core
from .emit import strip
from .snapshots import ptr

LOOKS = ("empty", "size", "length", "begin", "end", "cbegin", "cend", "data", "operator[]", "at", "front", "back")


def last(name):
    return str(name).split("::")[-1]


def is_(t, names, of):
    """a call of the container's begin, end and so on"""
    return isinstance(t, tuple) and len(t) >= 3 and t[0] == "pc" and last(t[1]) in names and ptr(t[2])[1] == of


class Walk:
    """the ways through a function that is given a stream and a container of several-part elements"""

    def __init__(self, em, raw, arg, parts):
        self.em, self.raw, self.of, self.nparts = em, raw, ("arg", arg), parts
        self.f = em.mod.fns[raw]
        self.ps = [p for p in em.paths(raw) if p.kind in ("ret", "back")]
        self.found = []

    def bad(self, e, msg, p):
        at = e.where() if e is not None and e.i is not None and e.kind != "loop" else core.origin(self.f)
        self.found.append((at, msg, p.facts()[-400:]))

    def dem(self, e):
        f = self.em.mod.fns.get(e.i.callee_raw)
        return f.dem if f is not None else str(e.name) + str(e.i.callee_raw).replace("4pairI", "pair<").replace("_iterator", "iterator")

    def begin(self, t):
        return is_(strip(t) if t is not None else None, ("begin", "cbegin"), self.of)

    def next(self, s, t):
        """s is the element after t"""
        if not isinstance(s, tuple):
            return False
        if s[0] == "ptr":
            return s[1] == t and not s[3] and s[2] > 0
        if s[0] == "ld":
            return ptr(s[1])[1] == t and ptr(s[1])[2] == 0
        return False

    def asks(self, t):
        return isinstance(t, tuple) and (is_(t, ("empty", "size"), self.of) or any(self.asks(x) for x in t))

    def empty(self, p):
        for key, v in p.w.bool.items():
            if self.asks(strip(key)):
                return True
            if v and key[0] == "peq":
                a, b = strip(key[1]), strip(key[2])
                if any(self.begin(x) and is_(y, ("end", "cend"), self.of) for x, y in ((a, b), (b, a))):
                    return True
        return False

    def handed(self, evs):
        """calls that are given the container itself"""
        return [e for e in evs if e.kind == "call" and e.i.callee_raw in self.em.mod.fns and last(e.short) not in LOOKS and
                any(isinstance(a, tuple) and ptr(a)[1] == self.of and not ptr(a)[2] for a in e.args or [])]

    def used(self, evs, root, lo=0, hi=1 << 30):
        """the parts of an element that are given to functions"""
        out = set()
        for e in evs:
            if e.kind != "call" or last(e.short) in LOOKS:
                continue
            for a in e.args or []:
                if isinstance(a, tuple):
                    q = strip(ptr(a))
                    b, o = (q[1], q[2]) if q[0] == "ptr" else (q, 0)
                    if b == root and lo <= o < hi:
                        out.add(o)
                        if "pair<" in self.dem(e):
                            out |= set(range(self.nparts))
        return len(out) >= self.nparts

    def run(self):
        """None if it cannot tell, else what is left out"""
        ps = self.ps
        if any(e.kind == "call" and any(self.begin(a) for a in e.args or [] if isinstance(a, tuple)) and last(e.short) not in LOOKS and
               (self.nparts > 1 or "iterator" in self.dem(e)) for p in ps for e in p.ev):
            return None
        loops = {}
        for p in ps:
            for n, e in enumerate(p.ev):
                if e.kind == "loop":
                    for k, (init, t) in e.x["iv"].items():
                        i = strip(init) if init is not None else None
                        if i is not None and (self.begin(i) or isinstance(i, tuple) and i[0] in ("ld", "ptr") and self.begin(ptr(i[1] if i[0] == "ld" else i)[1])):
                            loops[e.x["fn"], e.x["h"]] = (k, i, strip(t))
        for p in ps:
            if p.kind == "ret":
                if self.empty(p):
                    continue
                ns = [n for n, e in enumerate(p.ev) if e.kind == "loop" and (e.x["fn"], e.x["h"]) in loops]
                if not ns:
                    if any(e.kind == "loop" for e in p.ev):
                        return None
                    h = self.handed(p.ev)
                    if h:
                        continue
                    self.bad(next((e for e in reversed(p.ev) if e.i is not None), None), "there is a way on which no more than the first is written", p)
                    continue
                k, i, t = loops[p.ev[ns[-1]].x["fn"], p.ev[ns[-1]].x["h"]]
                end = False
                for key, v in p.w.bool.items():
                    if v and key[0] == "peq":
                        a, b = strip(key[1]), strip(key[2])
                        for x, y in ((a, b), (b, a)):
                            if is_(y, ("end", "cend"), self.of) and (x == t or self.next(x, t)):
                                end = True
                if not end:
                    self.bad(p.ev[ns[-1]], "the walk stops before the end", p)
            else:
                n = next((n for n, e in reversed(list(enumerate(p.ev))) if e.kind == "loop" and e.x["h"] == p.ret and (e.x["fn"], e.x["h"]) in loops), None)
                if n is None:
                    continue
                k, i, t = loops[p.ev[n].x["fn"], p.ev[n].x["h"]]
                s = strip(p.x.get(k)) if p.x and p.x.get(k) is not None else None
                if s is None:
                    return None
                if not self.next(s, t):
                    if isinstance(s, tuple) and s[0] == "ld" and self.next(strip(ptr(s[1])[1]), t):
                        self.bad(p.ev[n], "every other one is passed over", p)
                        continue
                    return None
                body = p.ev[n + 1:]
                if s[0] == "ptr":
                    now, nxt = self.used(body, t, 0, s[2]), self.used(body, t, s[2], 2 * s[2])
                else:
                    now, nxt = self.used(body, t), self.used(body, s)
                if not now and not nxt:
                    self.bad(next((e for e in reversed(body) if e.i is not None), p.ev[n]), "one is left out, or written in part", p)
                    continue
                first = self.begin(i)
                if first and now:
                    continue
                if not first and not now:
                    self.bad(p.ev[n], "the second is passed over", p)
                    continue
                b = i if first else ptr(i[1])[1] if i[0] == "ld" else i[1]
                if not self.used(p.ev[:n], strip(b), 0, s[2] if s[0] == "ptr" else 1 << 30) and not self.handed(p.ev[:n]):
                    self.bad(p.ev[n], "the first is left out, or written in part", p)
        return self.found


def check(em, raw, arg, parts, depth=0):
    """what is left out, [(where, what, path)]; None if it cannot tell"""
    if raw not in em.mod.fns or depth > 6:
        return None
    w = Walk(em, raw, arg, parts)
    if any(e.kind == "call" and any(is_(strip(e.res) if e.res is not None else None, ("begin", "cbegin"), w.of) for _ in (0,)) for p in w.ps for e in p.ev) or \
            any(e.kind == "call" and last(e.short) in ("begin", "cbegin") and any(isinstance(a, tuple) and ptr(a)[1] == w.of for a in e.args or []) for p in w.ps for e in p.ev):
        return w.run()
    out = []
    for p in w.ps:
        if p.kind != "ret" or w.empty(p):
            continue
        h = w.handed(p.ev)
        if not h:
            if any(e.kind == "loop" for e in p.ev):
                return None
            w.bad(next((e for e in reversed(p.ev) if e.i is not None), None), "there is a way on which nothing of it is written", p)
            continue
        rs = []
        for e in h:
            j = next(j for j, a in enumerate(e.args) if isinstance(a, tuple) and ptr(a)[1] == w.of and not ptr(a)[2])
            rs.append(check(em, e.i.callee_raw, j, parts, depth + 1))
        if len(rs) == 1:
            if rs[0] is None:
                return None
            out += rs[0]
    return out + w.found
