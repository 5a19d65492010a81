"""The normalised LLVM IR of a driver unit, as printed by irtool."""
import json
import os
import re


class Inst:
    __slots__ = ("d", "fn", "blk", "id", "op", "ty", "pos")

    def __init__(self, d, fn, blk, pos):
        self.d = d
        self.fn = fn
        self.blk = blk
        self.pos = pos
        self.id = d["id"]
        self.op = d["op"]
        self.ty = d["ty"]

    def get(self, k, dflt=None):
        return self.d.get(k, dflt)

    @property
    def ops(self):
        return self.d.get("ops", [])

    @property
    def callee(self):
        """demangled name of a direct callee, or None"""
        c = self.d.get("callee")
        if c and c["k"] == "fn":
            return c["d"]
        return None

    @property
    def callee_raw(self):
        c = self.d.get("callee")
        if c and c["k"] == "fn":
            return c["n"]
        return None

    def is_call(self):
        return self.op in ("call", "invoke")

    def where(self, prefer=os.environ.get("VCX_REPO", "/repo").rstrip("/") + "/"):
        """file:line of the innermost frame that lies in the repository, and its function"""
        for l in self.d.get("loc", []):
            if l.startswith(prefer):
                f, ln, fn = l.split(":", 2)
                return "%s:%s (%s)" % (f[len(prefer):], ln, fn)
        locs = self.d.get("loc", [])
        return locs[0] if locs else "?"

    def frames(self):
        """names of the functions this instruction was inlined through, innermost first"""
        return [l.split(":", 2)[2] for l in self.d.get("loc", [])]

    def __repr__(self):
        return "%%%d=%s@b%d" % (self.id, self.op, self.blk)


TERMS = ("br", "switch", "ret", "unreachable", "resume", "invoke", "indirectbr")


class Function:
    def __init__(self, d):
        self.d = d
        self.name = d["name"]
        self.dem = d["dem"]
        self.args = d["args"]
        self.repo = d["repo"]
        self.follow = d["follow"]
        self.blocks = []
        self.byid = {}
        for bi, b in enumerate(d["blocks"]):
            l = []
            for pi, i in enumerate(b):
                ins = Inst(i, self, bi, pi)
                l.append(ins)
                self.byid[ins.id] = ins
            self.blocks.append(l)
        self.succ = [self._succ(b) for b in self.blocks]
        self.pred = [[] for _ in self.blocks]
        for i, s in enumerate(self.succ):
            for t in s:
                if i not in self.pred[t]:
                    self.pred[t].append(i)
        self._dom = None
        self._reach = None

    @staticmethod
    def _succ(b):
        if not b:
            return []
        t = b[-1]
        if t.op == "br":
            return list(dict.fromkeys(t.get("succ")))
        if t.op == "switch":
            return list(dict.fromkeys([t.get("def")] + [c[1] for c in t.get("cases")]))
        if t.op == "invoke":
            return [t.get("norm"), t.get("unw")]
        return []

    def insts(self):
        for b in self.blocks:
            for i in b:
                yield i

    def calls(self, pat=None):
        r = re.compile(pat) if pat else None
        for i in self.insts():
            if i.is_call() and (r is None or (i.callee and r.search(i.callee))):
                yield i

    # ---- graph
    def reachable(self, start, avoid=(), succ=None):
        """blocks reachable from the blocks in start (included) without entering those in avoid"""
        succ = succ or self.succ
        seen = set()
        work = [b for b in start if b not in avoid]
        while work:
            b = work.pop()
            if b in seen:
                continue
            seen.add(b)
            for s in succ[b]:
                if s not in avoid and s not in seen:
                    work.append(s)
        return seen

    def live(self):
        if self._reach is None:
            self._reach = self.reachable([0])
        return self._reach

    def doms(self):
        """dominator sets of the reachable blocks"""
        if self._dom is not None:
            return self._dom
        live = self.live()
        allb = set(live)
        dom = {b: set(allb) for b in live}
        dom[0] = {0}
        ch = True
        order = sorted(live)
        while ch:
            ch = False
            for b in order:
                if b == 0:
                    continue
                ps = [dom[p] for p in self.pred[b] if p in live]
                n = set.intersection(*ps) if ps else set()
                n = n | {b}
                if n != dom[b]:
                    dom[b] = n
                    ch = True
        self._dom = dom
        return dom

    def dominates(self, a, b):
        """instruction a dominates instruction b"""
        if a.blk == b.blk:
            return a.pos < b.pos
        return a.blk in self.doms().get(b.blk, ())

    def in_cycle(self, blk):
        return any(blk in self.reachable([s]) for s in self.succ[blk])

    def edge_cond(self, frm, to):
        """[(cond value, truth)] facts that hold on the edge frm->to (conditional branches only)"""
        t = self.blocks[frm][-1]
        if t.op == "br" and t.get("cond"):
            s = t.get("succ")
            if s[0] != s[1]:
                return [(t.get("cond"), s[0] == to)]
        return []

    def guards(self, blk):
        """branch facts (cond, truth) that hold on every path to blk"""
        out = []
        live = self.live()
        for d in self.doms()[blk]:
            t = self.blocks[d][-1]
            if t.op == "br" and t.get("cond"):
                s = t.get("succ")
                if s[0] == s[1]:
                    continue
                for i in (0, 1):
                    # blk is only reachable through the edge d->s[i]
                    if s[i] != blk and s[i] not in self.doms()[blk]:
                        continue
                    if s[i] != d and [p for p in self.pred[s[i]] if p in live] == [d]:
                        out.append((t.get("cond"), i == 0))
        return out


class Module:
    def __init__(self, path):
        with open(path, errors="replace") as f:
            d = json.load(f)
        self.d = d
        self.fns = {}
        for f in d["functions"]:
            self.fns[f["name"]] = Function(f)
        self.globals = d["globals"]
        self.types = d["types"]

    def __getitem__(self, n):
        return self.fns[n]

    def roots(self, prefix="drv_"):
        return [f for n, f in self.fns.items() if n.startswith(prefix)]

    def string(self, gname, off=0):
        """bytes of a constant string global"""
        g = self.globals.get(gname)
        if not g or not g.get("const") or "init" not in g:
            return None
        i = g["init"]
        if isinstance(i, dict) and "hex" in i:
            return bytes.fromhex(i["hex"])[off:]
        if isinstance(i, dict) and "zero" in i:
            return b"\0" * (i["zero"] - off)
        return None
