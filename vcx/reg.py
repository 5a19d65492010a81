"""The registry: locks, ownership, types, visiting.

Objects are told apart by how a path gets hold of them: the registry (R) and a publisher (P) are what an operation
is called on, an entry (E) is what the registry's map of entries owns, a metric (M) what an entry's map owns,
options (O) what the maps of options own.  A lock or container is identified by the kind of object it lies in and
its offset there.
"""
import re

from . import core, flow, policies, trace
from .facts import Facts
from .flow import isC
from .registry import prop
from .snapshots import Loop, at_end, layout, ptr

FLAGS = ["-fvisibility=hidden", "-fwhole-program-vtables", "-flto"]
LOCK = re.compile(r"^std::(?:recursive_|timed_|shared_|recursive_timed_|shared_timed_)?mutex::(lock|unlock|lock_shared|unlock_shared|try_lock|try_lock_shared)\(")
MAPS = re.compile(r"^(?:[\w:<>,*&() ]+ )?std::(?:__cxx11::)?(unordered_map|unordered_set|map|set|vector|list|deque)<")
ROLES = {"pv_": {0: "P"}, "pvr_": {0: "P"}, "pve_": {0: "P", 1: "E"}, "in_": {1: "R"}, "in0_": {1: "R"}, "ix_": {0: "R"}, "rg_": {1: "R"}, "rx_": {0: "R"}, "po_eff": {0: "P", 1: "E"}, "po_": {0: "R"}, "pu_ty": {1: "P"}, "pu_": {0: "P"}, "vi_reg": {0: "R"}, "vi_": {0: "E"}}
BASES = {"cxxmetrics::basic_registered_metric": "E", "cxxmetrics::basic_publish_options": "O", "cxxmetrics::internal::metric": "M"}


def roles(name):
    best = max((p for p in ROLES if name.startswith(p)), key=len, default=None)
    return ROLES[best] if best else {}


class Reg:
    def __init__(self, driver="reg.cpp", prefix="rg_,rx_,ty_,po_,pu_,vi_", extra=()):
        self.mod = core.normalise(driver, "A", list(extra) + policies.R, flags=FLAGS, prefix=prefix)
        self.vt, self.up, self.dem = {}, {}, {}
        for g, d in self.mod.globals.items():
            if g.startswith("_ZTV") and isinstance(d.get("init"), list) and d["init"] and isinstance(d["init"][0], list):
                self.vt[g[4:]] = [x.get("n") if x.get("k") == "fn" else None for x in d["init"][0]][2:]
                self.dem[g[4:]] = d["dem"].replace("vtable for ", "", 1)
            elif g.startswith("_ZTI") and isinstance(d.get("init"), list):
                self.up[g[4:]] = [x["n"][4:] for x in d["init"][1:] if isinstance(x, dict) and x.get("k") == "g" and x["n"].startswith("_ZTI")]
                self.dem.setdefault(g[4:], d["dem"].replace("typeinfo for ", "", 1))
        self.basic = layout(self.mod, "cxxmetrics::basic_registered_metric")["size"]
        self._p = {}
        self.roots = {}
        work = [(n, roles(n)) for n in self.mod.fns if n.startswith(tuple(prefix.split(",")))]
        self.drivers = [n for n, _ in work]
        while work:
            n, r = work.pop()
            if n in self.roots or n not in self.mod.fns:
                continue
            self.roots[n] = r
            for f in self.closure(n):
                for i in f.insts():
                    if i.d.get("cls"):
                        for k, g in self.cands(i):
                            if g in self.mod.fns and g not in self.roots:
                                work.append((g, self.thisrole(k, g)))
        self.virtuals = {g for g in self.roots if g not in self.drivers}

    def kindname(self, cls):
        """the kind of object of a class"""
        seen, work = set(), [cls]
        while work:
            k = work.pop()
            if k in seen:
                continue
            seen.add(k)
            if self.dem.get(k) in BASES:
                return BASES[self.dem[k]]
            work += self.up.get(k, [])
        return self.dem.get(cls, cls)

    def thisrole(self, cls, fn):
        f = self.mod.fns[fn]
        k = 1 if f.d.get("sret") or any(a.get("sret") for a in f.args if isinstance(a, dict)) else 0
        return {k: self.kindname(cls)}

    def derives(self, k, base):
        seen, work = set(), [k]
        while work:
            x = work.pop()
            if x == base:
                return True
            if x not in seen:
                seen.add(x)
                work += self.up.get(x, [])
        return False

    def cands(self, i):
        """(class, function) a virtual call may reach"""
        base, s = i.d["cls"][4:], i.d["slot"] // 8
        out = []
        for k, fns in self.vt.items():
            if self.derives(k, base) and s < len(fns) and fns[s] and "__cxa_pure" not in fns[s]:
                out.append((k, fns[s]))
        return out

    def closure(self, n, virtual=False):
        """a function and the functions with a body it calls directly"""
        seen, work, out = set(), [n], []
        while work:
            x = work.pop()
            if x in seen or x not in self.mod.fns:
                continue
            seen.add(x)
            f = self.mod.fns[x]
            out.append(f)
            for i in f.insts():
                if i.is_call() and i.callee_raw:
                    work.append(i.callee_raw)
                elif virtual and i.d.get("cls"):
                    work += [g for _, g in self.cands(i)]
        return out

    def paths(self, n, exc=False):
        if (n, exc) not in self._p:
            try:
                self._p[n, exc] = [p for p in trace.paths(self.mod.fns[n], self.mod, exc=exc, stable=True) if not Facts(p.w).infeasible()]
            except (flow.Unsupported, flow.TooBig) as e:
                raise core.AnalysisError("%s: %s" % (n, e))
        return self._p[n, exc]

    def interesting(self, n):
        """functions of the registry itself: those that lock, or handle its containers"""
        return any(i.callee and (LOCK.match(i.callee) or MAPS.match(i.callee) and ("cxxmetrics::" in i.callee)) for f in self.closure(n) if self.mod.fns[n].follow for i in f.insts() if i.is_call())

    # ---------------------------------------------------------------- objects
    def evof(self, p, t):
        if t[0] == "res":
            return p.ev[t[1]]
        for e in p.ev:
            if e.kind == "call" and e.res == t:
                return e
        return None

    def node(self, p, t):
        """the container an iterator or node pointer points into: (container pointer, event that names it), or None"""
        t = ptr(t)
        r = t[1]
        for _ in range(40):
            if r[0] == "pc" and r[1] in ("find", "begin", "end", "cbegin", "cend", "front", "back", "at", "lower_bound", "upper_bound", "equal_range", "operator->", "operator*"):
                e = self.evof(p, r)
                if e is None or not MAPS.match(e.name):
                    return None
                return ptr(r[2]), e
            if r[0] in ("ext", "res"):
                n = r[1] if r[0] == "ext" else r
                if n[0] != "res":
                    return None
                e = p.ev[n[1]]
                if e.kind == "call" and MAPS.match(e.name) and e.short.split("::")[-1] in ("emplace", "insert", "try_emplace", "emplace_hint", "operator[]", "insert_or_assign", "find", "erase"):
                    return ptr(e.args[0]), e
                return None
            if r[0] == "iv":
                init = None
                for e in p.ev:
                    if e.kind == "loop":
                        for k, (i, t2) in e.x["iv"].items():
                            if t2 == r:
                                init = i
                if init is None:
                    return None
                r = ptr(init)[1]
                continue
            if r[0] == "ld" and ptr(r[1])[2] == 0 and not ptr(r[1])[3]:
                r = ptr(r[1])[1]
                if r[0] in ("arg", "alloca", "g"):
                    return None
                continue
            return None
        return None

    @staticmethod
    def mapped(name):
        """the kind of object the elements of a container own"""
        m = re.search(r"std::(?:unique_ptr|shared_ptr)<((?:const )?cxxmetrics::[^,<>]*)", name)
        if not m:
            return None
        k = m.group(1)
        if "registered_metric" in k:
            return "E"
        if "options" in k:
            return "O"
        if "shared_ptr" in m.group(0):
            return "M"
        return None

    def slot(self, p, t):
        """the kind of object a smart pointer in a container at this address owns, or None"""
        n = self.node(p, t)
        if n is None:
            return None
        e = n[1]
        q = ptr(t)
        if e.short.split("::")[-1] in ("operator[]", "at") or q[2] > 8:
            k = self.mapped(e.name)
            if k and self.obj(p, n[0]) and self.obj(p, n[0])[0] in "RE":
                return k, n
        return None

    def obj(self, p, t, rl=None):
        """(kind, offset, base term) of an address"""
        rl = p.x["roles"] if rl is None else rl
        t = ptr(t)
        r = t[1]
        if r[0] == "arg" and r[1] in rl:
            return rl[r[1]], t[2], r
        if r[0] == "ld":
            a = ptr(r[1])
            o = self.obj(p, a) if a[1][0] in ("arg", "ld") else None
            if o and o[0] == "P":
                return "R", t[2], r
            s = self.slot(p, a)
            if s:
                return s[0], t[2], r
            return None
        if r[0] in ("pc", "res"):
            e = self.evof(p, r)
            if e is not None and re.search(r"(shared_ptr|unique_ptr)", e.short) and e.short.split("::")[-1] in ("operator->", "operator*", "get", "_M_get"):
                s = self.slot(p, e.args[0])
                if s:
                    return s[0], t[2], r
        return None

    def cell(self, p, t):
        """identification of a lock or container: (kind, offset)"""
        o = self.obj(p, t)
        if o is None:
            return None
        k, off, b = o
        if k == "E" and off >= self.basic:
            return k, "own+%d" % (off - self.basic), b
        return k, off, b

    # ---------------------------------------------------------------- locks
    def lockev(self, e):
        """('+' or '-', lock address) of lock operations"""
        if e.kind != "call":
            return []
        m = LOCK.match(e.name)
        if m:
            return [("-" if "unlock" in m.group(1) else "?" if "try" in m.group(1) else "+", ptr(e.args[0]))]
        if re.match(r"^(int )?(std::)?(try_)?lock<", e.name) or e.short in ("std::lock", "std::try_lock"):
            raise core.AnalysisError("locks taken with %s are not modelled" % e.short)
        if e.name.startswith("pthread_mutex_lock"):
            return [("+", ptr(e.args[0]))]
        if e.name.startswith("pthread_mutex_unlock"):
            return [("-", ptr(e.args[0]))]
        return []

    def walk(self, p):
        """(event, locks held before it) along a path; a list of errors"""
        held, err = [], []
        out = []
        atloop = {}
        for n, e in enumerate(p.ev):
            out.append((e, tuple(held)))
            if e.kind == "loop":
                atloop[e.x["fn"], e.x["h"]] = tuple(held)
            thrown = n + 1 < len(p.ev) and p.ev[n + 1].kind == "throw" and p.ev[n + 1].i is e.i
            for s, l in self.lockev(e):
                if s == "-":
                    if l in held:
                        held.remove(l)
                    else:
                        err.append(("released", e, l))
                elif s == "?":
                    raise core.AnalysisError("try_lock is not modelled")
                else:
                    if l in held:
                        err.append(("twice", e, l))
                    held.append(l)
        return out, held, err, atloop


_reg = {}


def load(driver="reg.cpp", prefix="rg_,rx_,ty_,po_,pu_,vi_", extra=()):
    key = driver, prefix, tuple(extra)
    if key not in _reg:
        r = _reg[key] = Reg(driver, prefix, extra)
        old = r.paths

        def paths(n, exc=False):
            ps = old(n, exc)
            for p in ps:
                p.x = dict(p.x or {})
                p.x["roles"] = r.roots.get(n, {})
            return ps
        r.paths = paths
    return _reg[key]


def lockfns(r):
    return [n for n in r.roots if r.mod.fns[n].follow and any(i.callee and (LOCK.match(i.callee) or i.callee.startswith("pthread_mutex")) for f in r.closure(n) for i in f.insts() if i.is_call())]


def nm(r, n):
    return r.mod.fns[n].dem.replace("cxxmetrics::", "")[:110]


@prop("C12", technique="path-sensitive lock typestate over the registry's control flow graph, exception edges included", level="sound-analysis",
      explains="every path of every registry operation, with an exception possible at every call that may throw, is followed with the set of locks it holds; a path must release exactly the locks it took",
      rule="on every path: no release of a lock not held, nothing held at a return or when an exception leaves, and the same locks held at the end of a loop's iteration as at its start",
      assumptions=["std::mutex and the standard lock wrappers behave as specified; unlock does not throw"])
def c12(c):
    r = load()
    n = 0
    for f in lockfns(r):
        for exc in (False, True):
            for p in r.paths(f, exc):
                if any(e.kind == "throw" and "::unlock" in (e.name or "") for e in p.ev):
                    continue
                n += 1
                _, held, err, atloop = r.walk(p)
                what = "%s on a path (%s)" % (nm(r, f), p.facts()[:400])
                for k, e, l in err:
                    c.bad("lock-%s:%s" % (k, f), e.where(), ("a lock is released that is not held: " if k == "released" else "a lock is taken twice: ") + what)
                if p.kind == "back":
                    h = next((v for k, v in atloop.items() if k[1] == p.ret), ())
                    if sorted(map(repr, h)) != sorted(map(repr, held)):
                        c.bad("lock-loop:" + f, p.ev[-1].where(), "an iteration of a loop ends with other locks held than it started with: " + what)
                elif held and not err:
                    last = next((e for e in reversed(p.ev) if e.i is not None), None)
                    c.bad("lock-held:" + f, last.where() if last else f, "%s with %s still locked: %s" % ("an exception leaves" if p.kind != "ret" else "it returns", ", ".join(map(flow.show, held)), what))
        c.ok("balanced:" + nm(r, f))
    c.stats["paths followed"] = n
    c.expect(len(lockfns(r)), 30, "operations that lock")


class Summary:
    """locks an operation may take: cells by kind"""

    def __init__(self, r):
        self.r = r
        self.memo = {}

    def locks(self, n):
        if n in self.memo:
            return self.memo[n]
        self.memo[n] = set()
        r = self.r
        out = set()
        if n in r.mod.fns:
            fs = r.closure(n, virtual=True)
            if any(i.callee and LOCK.match(i.callee) for f in fs for i in f.insts() if i.is_call()):
                if n in r.roots and r.mod.fns[n].follow:
                    for p in r.paths(n):
                        for e in p.ev:
                            for s, l in r.lockev(e):
                                if s == "+":
                                    q = r.cell(p, l)
                                    out.add(q[:2] if q else ("?", n))
                            out |= self.callee(e)
                else:
                    for f in fs:
                        for i in f.insts():
                            if i.is_call() and i.callee and LOCK.match(i.callee):
                                out.add((f.dem.split("(")[0][:120], 0))
        self.memo[n] = out
        return out

    def callee(self, e):
        r = self.r
        if e.kind != "call" or (e.x and e.x.get("pure")):
            return set()
        out = set()
        if e.i.d.get("cls"):
            for _, g in r.cands(e.i):
                out |= self.locks(g)
        elif e.i.callee_raw in r.mod.fns and not r.mod.fns[e.i.callee_raw].follow:
            out |= self.locks(e.i.callee_raw)
        return out


VISITORS = ("snapshot_visitor",)


@prop("C13", technique="interprocedural lock-order analysis with virtual call resolution", level="sound-analysis",
      explains="for every path of every registry and publisher operation, each lock taken, directly or by a callee (virtual calls resolved through the vtables), is ordered after the locks held; handlers that run under the registry's lock are assumed to visit, aggregate and read the options of entries, as the publishers do",
      rule="the order has no cycle and no lock is taken while it is held; the handler of aggregate is called with nothing locked",
      assumptions=["locks are identified by the kind of object they belong to and their place in it", "handlers given to visit do not ask the registry for metrics, which the library documents nowhere and its publishers do not"])
def c13(c):
    r = load()
    S = Summary(r)
    edges = {}

    def edge(a, b, e, why):
        edges.setdefault((a, b), (e.where(), why))
    entry = set()
    for f in r.roots:
        if f in r.drivers and roles(f) in ({0: "E"}, {0: "P", 1: "E"}):
            for p in r.paths(f):
                for e in p.ev:
                    for s, l in r.lockev(e):
                        if s == "+":
                            q = r.cell(p, l)
                            if q:
                                entry.add(q[:2])
                    entry |= S.callee(e)
    acq = 0
    agg = 0
    for f in r.roots:
        if not r.mod.fns[f].follow or not (f in lockfns(r) or f in r.drivers):
            continue
        for p in r.paths(f):
            evs, held, err, _ = r.walk(p)
            for e, h in evs:
                if e.kind != "call":
                    continue
                hs = []
                for l in h:
                    q = r.cell(p, l)
                    if q is None:
                        raise core.AnalysisError("%s takes a lock that belongs to no known object: %s" % (f, flow.show(l)))
                    hs.append(q[:2])
                new = []
                for s, l in r.lockev(e):
                    if s == "+":
                        acq += 1
                        q = r.cell(p, l)
                        if q is None:
                            raise core.AnalysisError("%s takes a lock that belongs to no known object: %s" % (f, flow.show(l)))
                        new.append(q[:2])
                new += list(S.callee(e))
                if e.name == "probe_reg":
                    new += list(entry)
                for a in hs:
                    for b in new:
                        edge(a, b, e, nm(r, f))
                # the handler of aggregate
                if e.i.d.get("cls") and r.dem.get(e.i.d["cls"][4:]) == "cxxmetrics::snapshot_visitor" and r.roots[f] in ({0: "E"},):
                    g = [k for k in e.args if ptr(k) == ptr(("arg", 1))]
                    if g:
                        agg += 1
                        if h:
                            c.bad("handler-under-lock:" + f, e.where(), "the handler of aggregate runs while %s is locked" % ", ".join(map(flow.show, h)))
                        else:
                            c.ok("handler unlocked:" + nm(r, f))
    c.expect(acq, 40, "acquisitions")
    c.expect(agg, 6, "calls of an aggregating handler")
    # cycles
    g = {}
    for a, b in edges:
        g.setdefault(a, set()).add(b)

    def reach(a, b):
        seen, work = set(), list(g.get(a, ()))
        while work:
            x = work.pop()
            if x == b:
                return True
            if x not in seen:
                seen.add(x)
                work += g.get(x, ())
        return False
    for (a, b), (w, why) in sorted(edges.items(), key=repr):
        if a == b:
            c.bad("lock-nested:%s+%s" % a, w, "%s takes the lock %s while one of that kind is held" % (why, name_of(a)))
        elif reach(b, a):
            c.bad("lock-order:%s+%s:%s+%s" % (a + b), w, "%s takes %s while %s is held; elsewhere it is the other way round (%s)" % (
                why, name_of(b), name_of(a), "; ".join("%s: %s" % (v[1], v[0]) for k, v in edges.items() if k[0] == b)))
        else:
            c.ok("order %s before %s" % (name_of(a), name_of(b)), why)
    c.stats["lock order edges"] = len(edges)


KN = {"R": "the registry", "E": "an entry", "O": "options", "M": "a metric", "P": "a publisher"}


def name_of(cell):
    return "the lock at offset %s of %s" % (cell[1], KN.get(cell[0], cell[0]))


# ---------------------------------------------------------------- one metric per path and tags
MUTATE = {"erase", "clear", "swap", "operator=", "insert_or_assign", "extract", "merge", "assign", "pop_back", "pop_front", "resize", "remove", "remove_if"}


def known(p, a, b):
    """the path's knowledge whether two pointers are equal"""
    a, b = ptr(a), ptr(b)
    for k, v in p.w.bool.items():
        if k[0] == "peq" and {ptr(k[1]), ptr(k[2])} == {a, b}:
            return v
    return None


def isnull(p, t):
    for k, v in p.w.bool.items():
        if k[0] == "peq" and flow.NULL in (k[1], k[2]):
            o = k[2] if k[1] == flow.NULL else k[1]
            if ptr(o) == ptr(t):
                return v
    return None


def isend(p, t):
    """whether an iterator is known to be the end of its container"""
    for k, v in p.w.bool.items():
        if k[0] == "peq":
            for x, y in ((k[1], k[2]), (k[2], k[1])):
                y = ptr(y)
                if ptr(x) == ptr(t) and y[1][0] == "pc" and y[1][1] in ("end", "cend"):
                    return v
        if k[0] == "bool" and k[1][0] == "pc" and k[1][1] in ("operator==", "operator!="):
            ops = [ptr(x) for x in k[1][2:4]]
            if ptr(t) in ops and any(o[1][0] == "pc" and o[1][1] in ("end", "cend") for o in ops):
                return v if k[1][1] == "operator==" else not v
    return None


def callseq(p):
    return [(n, e) for n, e in enumerate(p.ev) if e.kind == "call"]


def element_for(r, p, t, key):
    """(ok, why): the smart pointer at t is the element of a shared container for this key"""
    s = r.slot(p, t)
    if s is None:
        return False, "%s is no element of a container of the registry" % flow.show(t)
    _, (cont, e) = s
    m = e.short.split("::")[-1]
    q = ptr(t)
    if m == "find":
        it = ptr(e.res)
        if ptr(e.args[1]) != ptr(key):
            return False, "the element is looked up under another key"
        if isend(p, it) is not False:
            return False, "the element is used although the lookup may have found none"
        return True, "found"
    if m in ("emplace", "try_emplace", "insert", "emplace_hint"):
        a = e.args[2 if m == "emplace_hint" else 1]
        if ptr(a) != ptr(key):
            # a pair made of the key
            if m in ("insert", "emplace") and any(ev.kind == "call" and ptr(ev.args[0]) == ptr(a) and any(ptr(x) == ptr(key) for x in ev.args[1:]) for ev in p.ev if ev.kind == "call" and ev.args):
                return True, "inserted"
            return False, "the element is inserted under another key"
        return True, "inserted"
    if m in ("operator[]", "at"):
        if ptr(e.args[1]) != ptr(key):
            return False, "the element is looked up under another key"
        return True, "found"
    return False, "the element comes from %s" % m


def retptr(e, a):
    return e.args and ptr(e.args[0]) == ptr(a)


def copies(e):
    """a call that makes a smart pointer from another: (destination, source)"""
    s = e.short
    if s in ("std::static_pointer_cast", "std::dynamic_pointer_cast", "std::const_pointer_cast") or re.search(r"(shared_ptr|unique_ptr)::(shared_ptr|__shared_ptr|unique_ptr|operator=)$", s):
        if len(e.args) >= 2:
            return ptr(e.args[0]), ptr(e.args[1])
    return None


def origin_of(p, dst, upto=None):
    """where a local smart pointer got its value: the last address it was copied from, through locals"""
    cur = ptr(dst)
    n = len(p.ev) if upto is None else upto
    seen = 0
    while n > 0 and seen < 50:
        n -= 1
        e = p.ev[n]
        if e.kind != "call":
            continue
        cp = copies(e)
        if cp and cp[0] == cur:
            cur = cp[1]
            seen += 1
            if cur[1][0] != "alloca":
                return cur, e
            continue
        if e.args and ptr(e.args[0]) == cur and not e.short.split("::")[-1].startswith("~") and not (e.x and e.x.get("pure")):
            return cur, e
    return cur, None


def section(r, p, n1, n2):
    """the events n1 and n2 lie in one critical section"""
    evs, _, _, _ = r.walk(p)
    held = set(evs[n1][1])
    for k in range(n1, n2 + 1):
        held &= set(evs[k][1])
    return bool(held)


def freshly(r, p, n, t, key, childev=None):
    """a pointer just inserted under key after a lookup found nothing, in one critical section: (ok, why)"""
    ins = None
    for k, e in callseq(p):
        if MAPS.match(e.name) and e.short.split("::")[-1] in ("emplace", "try_emplace", "insert") and len(e.args) > 2:
            if ptr(e.args[1]) == ptr(key):
                ins = k
    if ins is None:
        return False, "it is not put into the registry"
    e = p.ev[ins]
    for k, f in callseq(p):
        if k < ins and MAPS.match(f.name) and f.short.split("::")[-1] == "find" and ptr(f.args[0]) == ptr(e.args[0]) and ptr(f.args[1]) == ptr(key):
            if isend(p, f.res) is True and section(r, p, k + 0, ins) and section(r, p, k, ins):
                return True, "inserted after a lookup in the same critical section"
    return False, "another thread may have inserted one between the lookup and the insertion"


def vcall(r, e):
    return e.kind == "call" and e.i is not None and e.i.d.get("cls") is not None


def receiver(e):
    """position of the object a virtual call is made on"""
    ind = e.x.get("ind") if e.x else None
    if ind and ind[0] == "ld":
        b = ptr(ind[1])[1]
        if b[0] == "ld":
            o = ptr(b[1])
            for k, a in enumerate(e.args):
                if ptr(a) == o:
                    return k
    return 0


def copied(p, a, src, upto, depth=0):
    """whether an address is that of an object or of a local copy of it"""
    a, src = ptr(a), ptr(src)
    if a == src:
        return True
    if a[1][0] != "alloca" or depth > 4:
        return False
    for n in range(upto - 1, -1, -1):
        e = p.ev[n]
        if e.kind == "call" and e.args and ptr(e.args[0]) == a and not (e.x and e.x.get("pure")) and "~" not in e.name:
            return len(e.args) > 1 and copied(p, e.args[1], src, n, depth + 1)
    return False


def asks(r, p):
    """calls that ask an entry for the metric of some tag set: an object and two more things are given"""
    out = []
    for n, e in callseq(p):
        if vcall(r, e):
            k = receiver(e)
            if len(e.args) - k >= 3 and (r.kindname(e.i.d["cls"][4:]) == "E" or (r.obj(p, e.args[k]) or "?")[0] == "E"):
                out.append((n, e, k))
    return out


def childcalls(r, p, tags):
    """calls that ask an entry for the metric of a tag set"""
    out = []
    for n, e in callseq(p):
        if vcall(r, e) and any(copied(p, a, tags, n) for a in e.args):
            k = receiver(e)
            if r.kindname(e.i.d["cls"][4:]) == "E" or (r.obj(p, e.args[k]) or "?")[0] == "E":
                out.append((n, e, k))
    return out


def registered(r, p):
    """whether the path knows that there is a metric at the requested path: True, False, or None"""
    out = None
    for n, e in callseq(p):
        if not MAPS.match(e.name) or len(e.args) < 2 or r.mapped(e.name) != "E":
            continue
        o = r.obj(p, e.args[0])
        if o is None or o[0] != "R" or not copied(p, e.args[1], ("arg", 1), n):
            continue
        m = e.short.split("::")[-1]
        v = None
        if m == "find":
            v = isend(p, e.res)
            v = None if v is None else not v
        elif m in ("count", "contains"):
            v = iszero(p, e.res)
            v = None if v is None else not v
        if v is not None:
            out = v
    return out


def hollow(r, p):
    """the path takes an entry that is registered, or data that is kept, for missing (owners are never empty: C10)"""
    for k, v in p.w.bool.items():
        a = None
        if k[0] == "peq" and flow.NULL in (k[1], k[2]):
            x = ptr(k[2] if k[1] == flow.NULL else k[1])
            if x[1][0] == "ld" and not x[2]:
                a = x[1][1]
        elif k[0] == "bool" and k[1][0] == "pc" and k[1][1] == "operator bool":
            a, v = k[1][2], not v
        if a is None or not v:
            continue
        s = r.slot(p, a)
        if s and s[0] == "E":
            return True
        if s and s[0] == "O" and s[1][1].short.split("::")[-1] in ("find", "at") and isend(p, s[1][1].res) is False:
            return True
    return False


def othertags(c, r, p, f, tags):
    """an entry must be asked for the metric of the tags given and of no others"""
    ok = {n for n, _, _ in childcalls(r, p, tags)}
    for n, e, k in asks(r, p):
        if n not in ok:
            c.bad("tags:" + f, e.where(), "the entry is asked for the metric of other tags than those given (%s)" % p.facts()[:300])


@prop("C10", technique="provenance and ownership analysis of handed-out objects along all paths", level="sound-analysis",
      explains="for every path that hands out a metric, where it came from: the entry used must be the one the registry's map holds for the requested path, the metric the one the entry's map holds for the requested tags, both from a lookup, from the place an insertion reports, or from an insertion in the critical section of the lookup that failed; and no operation of the registry or its publishers removes or overwrites an element of these maps",
      rule="provenance of every entry and metric handed out; no call of a removing or overwriting method, and no write to an owning pointer, on any path of any operation",
      assumptions=["the maps' own operations behave as specified: emplace and insert keep and report an element that is already there", "accesses to the maps are ordered by their locks (C27)"])
def c10(c):
    r = load()
    handed = 0
    for f in sorted(r.drivers):
        if not f.startswith(("rg_", "rx_")):
            continue
        pa, ta = (("arg", 2), ("arg", 3)) if f.startswith("rg_") else (("arg", 1), ("arg", 2))
        some = False
        for p in r.paths(f):
            if p.kind != "ret":
                continue
            ch = childcalls(r, p, ta)
            othertags(c, r, p, f, ta)
            some |= bool(asks(r, p))
            if not ch:
                if f.startswith("rg_"):
                    c.bad("no-entry:" + f, f, "a path hands out a metric without asking the entry of its path: " + p.facts()[:300])
                continue
            some = True
            for n, e, k in ch:
                handed += 1
                ent = ptr(e.args[k])
                if ent[1][0] == "ld" and ptr(ent[1][1])[1][0] != "alloca":
                    ok, why = element_for(r, p, ent[1][1], pa)
                else:
                    ok, why = freshly(r, p, n, ent, pa)
                c.require(ok, "entry:" + f, e.where(), "the entry asked for the metric is not the one registered at the path: %s (%s)" % (why, p.facts()[:300]), detail=why)
            if f.startswith("rg_"):
                cur, e = origin_of(p, ("arg", 0))
                good = e is not None and any(e is x for _, x, _ in ch)
                c.require(good, "result:" + f, p.ev[-1].where(), "what is handed out is not what the entry answered (%s)" % p.facts()[:300])
        if not some:
            raise core.AnalysisError("%s: no path asks an entry for a metric" % f)
    c.expect(handed, 16, "metrics handed out")
    # the entries
    cands = set()
    for f in r.drivers:
        if f.startswith(("rg_", "rx_")):
            ta = ("arg", 3) if f.startswith("rg_") else ("arg", 2)
            for p in r.paths(f):
                for n, e, k in childcalls(r, p, ta):
                    cands |= {g for _, g in r.cands(e.i)}
    c.expect(len(cands), 6, "types of entries")
    for f in sorted(cands):
        role = r.roots[f]
        this = next(iter(role))
        tags = ("arg", this + 1)
        for p in r.paths(f):
            if p.kind != "ret":
                continue
            src = None
            for n, e in reversed(callseq(p)):
                cp = copies(e)
                if cp and cp[0] == ptr(("arg", 0)):
                    src = (n, e, cp[1])
                    break
            if src is None:
                raise core.AnalysisError("%s: cannot tell what it returns" % f)
            n, e, a = src
            if a[1][0] == "alloca":
                o, oe = origin_of(p, a, n)
                if o[1][0] != "alloca":
                    a = o
            if a[1][0] == "alloca":
                ok, why = freshly(r, p, n, a, tags)
                if ok and not any(x.kind == "call" and MAPS.match(x.name) and x.short.split("::")[-1] in ("emplace", "try_emplace", "insert") and
                                  any(ptr(y) == a for y in x.args[1:]) for x in p.ev):
                    ok, why = False, "another object is put into the entry than is handed out"
            else:
                ok, why = element_for(r, p, a, tags)
            for k, b in callseq(p):
                if b.i is not None and b.name == "<indirect>" and any(ptr(x) == ptr(("arg", this + 2)) for x in b.args):
                    none = False
                    evs = r.walk(p)[0]
                    for m, x in callseq(p):
                        if m < k and MAPS.match(x.name) and section(r, p, m, k):
                            s = x.short.split("::")[-1]
                            none |= s == "find" and isend(p, x.res) is True and ptr(x.args[1]) == ptr(tags)
                            none |= s in ("count", "contains") and iszero(p, x.res) is True and ptr(x.args[1]) == ptr(tags)
                            if s in ("operator[]", "emplace", "try_emplace", "insert"):
                                none |= any(emptyslot(p, y) is True for y in slots_of(p, x))
                    c.require(none, "made once:" + nm(r, f), b.where(), "a metric is made (or an existing one taken) although there may be one for the tags already (%s)" % p.facts()[:300])
            c.require(ok, "metric:" + nm(r, f), e.where(), "the metric handed out is not the one kept for the tags: %s (%s)" % (why, p.facts()[:300]), detail=why)
    # nothing is removed or replaced
    seen = 0
    for f in sorted(r.roots):
        if not r.mod.fns[f].follow or "~" in r.mod.fns[f].dem or not (r.interesting(f) or f in r.drivers):
            continue
        for p in r.paths(f):
            for e in p.ev:
                if e.kind == "call" and MAPS.match(e.name) and e.args:
                    o = r.obj(p, e.args[0])
                    if o and o[0] in "RE" and r.mapped(e.name) in ("E", "M"):
                        seen += 1
                        m = e.short.split("::")[-1]
                        if m in MUTATE:
                            c.bad("removes:%s:%s" % (m, f), e.where(), "%s removes or replaces metrics of the registry with %s" % (nm(r, f), m))
                if e.kind == "call" and e.args and not (e.x and e.x.get("pure")):
                    s = e.short.split("::")[-1]
                    if re.search(r"(shared_ptr|unique_ptr)", e.short) and s in ("operator=", "reset", "swap", "release"):
                        tgt = [e.args[0]] + ([e.args[1]] if s == "swap" or "&&)" in e.name else [])
                    elif re.search(r"(shared_ptr|unique_ptr)::(shared_ptr|__shared_ptr|unique_ptr)$", e.short) and "&&" in e.name:
                        tgt = e.args[1:]
                    elif e.short in ("std::swap", "std::exchange"):
                        tgt = e.args
                    else:
                        tgt = []
                    for a in tgt:
                        q = r.slot(p, a)
                        if q and q[0] in "EM" and emptyslot(p, a) is not True:
                            c.bad("overwrites:" + f, e.where(), "%s replaces or takes a metric the registry holds (%s)" % (nm(r, f), p.facts()[:300]))
                elif e.kind == "store" and e.addr is not None:
                    q = r.slot(p, e.addr)
                    if q and q[0] in "EM" and emptyslot(p, e.addr) is not True:
                        c.bad("overwrites:" + f, e.where(), "%s overwrites a metric the registry holds (%s)" % (nm(r, f), p.facts()[:300]))
        c.ok("keeps:" + nm(r, f))
    c.expect(seen, 30, "uses of the maps")


def slotval(p, a):
    for e in p.ev:
        if e.kind == "load" and ptr(e.addr) == ptr(a):
            return e.res
    return ("ld", ptr(a), 8, "ptr", 0)


def within(t, s):
    return t == s or isinstance(t, tuple) and any(within(x, s) for x in t)


def slots_of(p, e):
    """addresses of the smart pointers tested for emptiness on a path that come from a call's result"""
    out = []
    for k in p.w.bool:
        o = None
        if k[0] == "bool" and k[1][0] == "pc" and k[1][1] == "operator bool":
            o = k[1][2]
        elif k[0] == "peq" and flow.NULL in (k[1], k[2]):
            x = ptr(k[2] if k[1] == flow.NULL else k[1])[1]
            o = x[2] if x[0] == "pc" else x[1] if x[0] == "ld" else None
        if o is not None and within(o, e.res):
            out.append(o)
    return out


def emptyslot(p, a):
    """whether the smart pointer at an address is known to hold nothing"""
    a = ptr(a)
    for k, v in p.w.bool.items():
        if k[0] == "bool" and k[1][0] == "pc" and k[1][1] == "operator bool" and ptr(k[1][2]) == a:
            return not v
    for k, v in p.w.bool.items():
        if k[0] == "peq" and flow.NULL in (k[1], k[2]):
            o = k[2] if k[1] == flow.NULL else k[1]
            o = ptr(o)[1]
            if o[0] == "pc" and o[1] == "get" and ptr(o[2]) == a or o[0] == "ld" and ptr(o[1]) == a:
                return v
    return isnull(p, slotval(p, a))


# ---------------------------------------------------------------- types
def writer(p, t, upto):
    """the last call that wrote a local or global object: (index, event)"""
    t = ptr(t)
    for n in range(upto - 1, -1, -1):
        e = p.ev[n]
        if e.kind == "call" and e.args and ptr(e.args[0]) == t and not (e.x and e.x.get("pure")) and not e.short.split("::")[-1].startswith("~"):
            return n, e
    return None


class Names:
    """what a string holds, as far as types are concerned"""

    def __init__(self, r):
        self.r = r
        self.memo = {}

    def of_fn(self, g):
        """the type whose name a function returns"""
        if g not in self.memo:
            self.memo[g] = None
            if g in self.r.mod.fns:
                s = set()
                for p in self.r.paths(g):
                    if p.kind == "ret":
                        s.add(self.of(g, p, ("arg", 0), len(p.ev)))
                if len(s) == 1:
                    self.memo[g] = s.pop()
        return self.memo[g]

    def of(self, f, p, t, upto, depth=0):
        r = self.r
        t = ptr(t)
        if depth > 8:
            return None
        o = r.obj(p, t)
        if o and o[0] == "E":
            return "E", o[2]
        w = writer(p, t, upto)
        if w is None and t[1][0] == "g":
            out = set()
            for q in r.paths(f):
                w2 = writer(q, t, len(q.ev))
                if w2:
                    out.add(self.of(f, q, t, len(q.ev), depth + 1))
            return out.pop() if len(out) == 1 else None
        if w is None:
            return None
        n, e = w
        if vcall(r, e):
            k = receiver(e)
            if r.kindname(e.i.d["cls"][4:]) == "E":
                return "E", ptr(e.args[k])[1]
            s = {self.of_fn(g) for _, g in r.cands(e.i)}
            return s.pop() if len(s) == 1 else None
        if e.i.callee_raw in r.mod.fns and not e.short.startswith("std::"):
            return self.of_fn(e.i.callee_raw)
        if "basic_string" in e.short and len(e.args) > 1:
            a = e.args[1]
            if a[0] == "res":
                x = p.ev[a[1]]
                if x.short == "std::type_info::name" and x.args[0][0] != "ld":
                    b = ptr(x.args[0])[1]
                    return ("T", b[1]) if b[0] == "g" else None
            return self.of(f, p, a, n, depth + 1)
        return None


def compared(p):
    """comparisons of strings the path knows the outcome of: (a, b, equal, event index)"""
    out = []
    for k, v in p.w.bool.items():
        if k[0] == "bool" and k[1][0] == "pc" and k[1][1] in ("operator!=", "operator=="):
            t = k[1]
            for n, e in enumerate(p.ev):
                if e.kind == "call" and e.res == t and "basic_string" in e.name:
                    out.append((e.args[0], e.args[1], v == (t[1] == "operator=="), n))
                    break
    for n, e in enumerate(p.ev):
        if e.kind == "call" and e.short.endswith("basic_string::compare") and e.res is not None and len(e.args) == 2:
            z = iszero(p, e.res)
            if z is not None:
                out.append((e.args[0], e.args[1], z, n))
    return out


def iszero(p, t):
    iv = p.w.iv.get(t)
    if iv is not None:
        lo, hi = iv[2], iv[3]
        if lo == hi == 0:
            return True
        if lo > 0:
            return False
    if t in p.w.ne and 0 in p.w.ne[t]:
        return False
    return None


@prop("C11", technique="type-test dominance analysis over all paths, with the provenance of type names", level="sound-analysis",
      explains="on every path that asks an entry for a metric, the name of the entry's type must have been found equal to the name of the requested type (or the entry was made for that type in the same critical section); the names must come from the type information of the metric's own type, one per type; where they differ the path must throw and touch nothing",
      rule="a type test dominates every use of an entry as an entry of a given type; unequal names lead to metric_type_mismatch only; each metric type's name is that of its own type",
      assumptions=["distinct types have distinct type_info names, as the C++ ABI here guarantees for types with linkage"])
def c11(c):
    r = load()
    N = Names(r)
    tys = {}
    for f in sorted(r.drivers):
        if not f.startswith("ty_"):
            continue
        for p in r.paths(f):
            w = writer(p, ("arg", 0), len(p.ev))
            if w is None:
                raise core.AnalysisError(f + ": cannot tell where the type name comes from")
            e = w[1]
            n = N.of(f, p, ("arg", 0), len(p.ev))
            if n is None or n[0] != "T":
                c.bad("name:" + f, e.where(), "the name of a metric's type is not the name of one type")
                continue
            own = None
            for g in r.closure(f):
                m = re.search(r"^cxxmetrics::metric<(.*)>::metric_type", g.dem)
                if m:
                    own = m.group(1)
            z = r.mod.globals.get(n[1], {}).get("dem", n[1]).replace("typeinfo for ", "", 1)
            c.require(own is None or own == z, "own name:" + f, e.where(), "the type name of %s is that of %s" % (own, z), detail=z)
            tys.setdefault(n[1], []).append(f)
    for z, fs in tys.items():
        c.require(len(fs) == 1, "distinct:" + fs[0], fs[0], "several metric types have one type name: %s" % fs)
    c.expect(len(tys), 1, "metric types")
    expected = {f[3:]: z for z, fs in tys.items() for f in fs}
    tests = mism = 0
    for f in sorted(r.drivers):
        if not f.startswith(("rg_", "rx_")):
            continue
        pa, ta = (("arg", 2), ("arg", 3)) if f.startswith("rg_") else (("arg", 1), ("arg", 2))
        want = expected.get({"rx_existing": "counter", "rx_existingh": "histogram"}.get(f, f[3:]))
        if want is None:
            continue
        for p in r.paths(f):
            ch = childcalls(r, p, ta)
            cmpd = []
            for a, b, eq, n in compared(p):
                x, y = N.of(f, p, a, n), N.of(f, p, b, n)
                if x and y and {x[0], y[0]} == {"E", "T"}:
                    E, T = (x, y) if x[0] == "E" else (y, x)
                    cmpd.append((E[1], T[1], eq, n))
            unequal = [k for k in cmpd if not k[2] and k[1] == want]
            made = []
            for n, e in callseq(p):
                if e.short in ("std::make_unique", "std::make_shared") and "registered_metric<" in e.name:
                    made.append((n, e))
                    nmz = {N.of(f, p, a, n) for a in e.args[1:]}
                    c.require(("T", want) in nmz, "made as:" + f, e.where(), "the entry is made under the name of another type than the one requested")
            for n, e, k in ch:
                tests += 1
                ent = ptr(e.args[k])[1]
                ok = any(E == ent and T == want and eq for E, T, eq, _ in cmpd)
                why = ""
                if not ok:
                    # a dynamic cast
                    for m, x in callseq(p):
                        if x.name == "__dynamic_cast" and isnull(p, x.res) is False:
                            ok |= True
                    # made for this type just now
                    if made and ent[0] == "ld":
                        nd = r.node(p, ent[1])
                        if nd is not None and nd[1].short.split("::")[-1] in ("emplace", "try_emplace", "insert"):
                            k2 = p.ev.index(nd[1])
                            for m, x in callseq(p):
                                if m < k2 and MAPS.match(x.name) and x.short.endswith("::find") and ptr(x.args[0]) == nd[0] and isend(p, x.res) is True and section(r, p, m, k2):
                                    ok = True
                    elif made and freshly(r, p, n, e.args[k], pa)[0]:
                        ok = True
                c.require(ok, "tested:" + f, e.where(), "an entry is used without having found that it holds metrics of the requested type (%s)" % p.facts()[:300])
            if unequal and not ch:
                mism += 1
                th = [e for e in p.ev if e.kind == "call" and e.name == "__cxa_throw"]
                c.require(p.kind != "ret" and th and "metric_type_mismatch" in str(ptr(th[-1].args[1])), "mismatch:" + f, p.ev[-1].where(), "a request for another type is not refused with metric_type_mismatch (%s)" % p.facts()[:300])
            if unequal and ch:
                c.bad("mismatch:" + f, ch[0][1].where(), "an entry of another type is used")
    c.expect(tests, 16, "uses of entries as entries of a type")
    c.expect(mism, 8, "paths on which the types differ")
