"""Path sensitive dataflow over effect-mode IR.

A function is followed along its control flow paths.  Library calls stay calls; those that only look at a
container give a term that names the container, its version and the arguments.  A loop is followed for one
generic iteration: everything it may change is unknown at its head, so what is found there holds for every
iteration.  A path ends at a return, when an exception leaves the function, or at the back edge of a loop
(`back`); consumers combine the bodies (paths that end at the back edge) with the paths that go on after the
loop (which carry a `loop` event where any number of iterations may have happened).
"""
import re

from . import flow
from .effects import MO, resolve
from .flow import C, Evaluator, Fork, TooBig, Unsupported, World, isC, width

# container methods that change nothing
PURE = re.compile(
    r"^(?:void |bool |[\w:<>,*& ]*)?std::(?:__cxx11::|__detail::|__debug::|_V2::)?"
    r"(?:vector|array|unordered_map|unordered_set|map|set|_Hashtable\w*|basic_string|initializer_list|shared_ptr|__shared_ptr(?:_access)?|unique_ptr|deque|list|function|valarray|"
    r"_Node_iterator(?:_base)?|_Node_const_iterator|_Rb_tree_iterator|_Rb_tree_const_iterator|reverse_iterator|basic_string_view)<.*>::"
    r"(size|empty|begin|end|cbegin|cend|rbegin|rend|data|operator\[\]|at|front|back|find|count|length|c_str|capacity|max_size|get|operator->|operator\*|operator bool|"
    r"_M_get|equal_range|use_count|base)(?:\(.*\))?(?: const)?$")
# methods of that name that do change their container for these classes
MUTINDEX = re.compile(r"std::(?:unordered_map|map)<.*>::operator\[\]\(")
CMPIT = re.compile(r"^(?:bool )?std::(?:__detail::)?operator(==|!=)[ (<]|^bool (?:__gnu_cxx|std)::operator(==|!=)<|^.* std::(next|prev)<")
ALWAYS = re.compile(r"^(__cxa_throw|__cxa_rethrow)$|^std::__throw_|^std::rethrow_exception")
TERMINATES = re.compile(r"^(__clang_call_terminate|std::terminate\(\)|abort|exit|_exit|__assert_fail)$")


def top(name):
    """a demangled name without its template arguments and parameters"""
    out = []
    d = 0
    n = len(name)
    k = 0
    while k < n:
        ch = name[k]
        if name.startswith("operator", k) and (k == 0 or not (name[k - 1].isalnum() or name[k - 1] == "_")):
            m = re.match(r"operator\s*(<=>|<<=|>>=|->\*|->|<<|>>|<=|>=|\(\)|\[\]|==|!=|[<>]=?|[-+*/%^&|~!=]=?|\+\+|--|&&|\|\|)?", name[k:])
            if d == 0:
                out.append(m.group(0))
            k += len(m.group(0))
            continue
        if ch in "<(":
            if ch == "(" and d == 0:
                if name.startswith("(anonymous namespace)", k):
                    out.append("(anonymous namespace)")
                    k += len("(anonymous namespace)")
                    continue
                break
            d += 1
        elif ch in ">)":
            d -= 1
        elif d == 0:
            out.append(ch)
        k += 1
    s = "".join(out).strip()
    # the return type of function templates
    m = re.match(r"^(?:.* )?([\w:~]*(?:operator.*)?)$", s)
    return s.split(" ")[-1] if "operator" not in s else s[s.rfind(" ", 0, s.find("operator")) + 1:]


class Ev:
    __slots__ = ("kind", "i", "name", "args", "res", "addr", "size", "val", "ord", "ford", "x")

    def __init__(self, kind, i=None, **k):
        self.kind, self.i = kind, i
        for a in ("name", "args", "res", "addr", "size", "val", "ord", "ford", "x"):
            setattr(self, a, k.get(a))

    @property
    def short(self):
        return top(self.name or "")

    def where(self):
        return self.i.where() if self.i is not None else "?"

    def __repr__(self):
        a = ""
        if self.kind == "call":
            a = "%s(%s)" % (self.short, ", ".join(flow.show(x) for x in self.args))
        elif self.addr is not None:
            a = "%s %s%s" % (flow.show(self.addr), "= " + flow.show(self.val) if self.val is not None else "", " " + self.ord if self.ord else "")
        elif self.kind == "loop":
            a = str(self.x)
        return "%s %s" % (self.kind, a)


def loops(fn):
    """{header: blocks} of the natural loops"""
    if hasattr(fn, "_loops") and fn._loops is not None:
        return fn._loops
    dom = fn.doms()
    live = fn.live()
    out = {}
    for b in live:
        for s in fn.succ[b]:
            if s in dom[b]:
                body = out.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x in body:
                        continue
                    body.add(x)
                    work += [p for p in fn.pred[x] if p in live]
    fn._loops = out
    return out


class Tracer(Evaluator):
    exc = False
    stable = False      # unknown calls leave containers alone that they are not given
    # [(compiled regex over the full name, argument positions written)]
    WRITES = [
        (re.compile(r"^cxxmetrics::metric_value::(metric_value|~metric_value|operator)"), (0,)),
        (re.compile(r"^cxxmetrics::metric_value cxxmetrics::operator|^cxxmetrics::operator"), (0,)),
    ]

    def __init__(self, fn, world, argmap=None, **kw):
        super().__init__(fn, world, argmap, maxvisit=10 ** 6, **kw)
        parent = kw.get("parent")
        if parent is not None:
            self.ev, self.ver, self.clob, self.ncall = parent.ev, parent.ver, parent.clob, parent.ncall
            self.exc, self.stable = parent.exc, parent.stable
        else:
            self.ev, self.ver, self.clob, self.ncall = [], {}, [0], [0]

    # ------------------------------------------------------------ containers
    def version(self, c):
        return self.ver.get(c, 0) * 1000 + self.clob[0] if c[1][0] != "alloca" else self.ver.get(c, 0) * 1000

    def bump(self, c):
        self.ver[c] = self.ver.get(c, 0) + 1

    def clobber(self, args):
        """an unknown call: every object it can reach may change"""
        if not self.stable:
            self.clob[0] += 1
        esc = self.escaped()
        for a in args:
            self.collect_allocas(a, esc)
        esc = self.reach(esc)
        for c in list(self.ver):
            if c[1] in esc:
                self.bump(c)
        k = len(self.ev)
        self.stores.append(("havoc", lambda r, e=frozenset(esc): r[0] != "alloca" or r in e, "e%d" % k, 1))

    def escaped(self):
        out = set()
        for e in self.ev:
            if e.kind == "call" and not (e.x and (e.x.get("pure") or e.x.get("quiet"))):
                for t in e.args:
                    self.collect_allocas(t, out)
        for s in self.stores:
            if s[0] in ("havoc", "copy"):
                continue
            if s[0][1][0] != "alloca":
                self.collect_allocas(s[2], out)
        return out

    def reach(self, roots):
        """what can be reached from local objects: also the objects whose addresses they hold"""
        seen = set(roots)
        while True:
            new, src = set(), set()
            for s in self.stores:
                if s[0] == "havoc":
                    continue
                if s[0] == "copy":
                    if s[1][1] in seen and s[2] != "zero":
                        src.add(s[2][1])
                elif s[0][1] in seen:
                    self.collect_allocas(s[2], new)
            for s in self.stores:
                if src and s[0] not in ("havoc", "copy") and s[0][1] in src:
                    self.collect_allocas(s[2], new)
            if new <= seen:
                return seen
            seen |= new

    # ------------------------------------------------------------ run
    def run(self):
        fn = self.fn
        lps = loops(fn)
        blk, prev = 0, None
        n = 0
        while True:
            n += 1
            if n > 3000:
                raise Unsupported("path too long in " + fn.name)
            if blk in lps:
                if prev in lps[blk]:
                    nxt = {}
                    for i in fn.blocks[blk]:
                        if i.op != "phi":
                            break
                        for v, p in i.get("phi"):
                            if p == prev:
                                nxt[i.id] = self.val(v)
                    self.backvals = nxt
                    return ("back", blk)
                self.enter(blk, prev, lps[blk])
                b = fn.blocks[blk]
                k = 0
                while b[k].op == "phi":
                    k += 1
            else:
                b = fn.blocks[blk]
                newv = {}
                k = 0
                for i in b:
                    if i.op != "phi":
                        break
                    for v, p in i.get("phi"):
                        if p == prev:
                            newv[i.id] = self.val(v)
                            break
                    k += 1
                self.env.update(newv)
            nxt = None
            for i in b[k:]:
                r = self.step(i)
                if r is not None:
                    nxt = r
                    break
            if nxt is None:
                raise Unsupported("fell off block")
            if nxt[0] == "goto":
                prev, blk = blk, nxt[1]
                continue
            return nxt

    def enter(self, h, prev, body):
        fn = self.fn
        ivs = {}
        for i in fn.blocks[h]:
            if i.op != "phi":
                break
            init = None
            for v, p in i.get("phi"):
                if p == prev:
                    init = self.val(v)
            t = ("iv", fn.name, h, i.id) + self.inst
            # a value that does not change in the loop is no induction variable
            ivs[i.id] = (init, t)
        for k, (init, t) in ivs.items():
            self.env[k] = t
        # what the loop may change
        roots, non, unk = set(), False, False
        for b in body:
            for i in fn.blocks[b]:
                if i.op in ("store", "atomicrmw", "cmpxchg"):
                    p = i.ops[1] if i.op == "store" else i.ops[0]
                    for a in resolve(fn, p):
                        if a.root[0] == "alloca":
                            roots.add(a.root[1])
                        else:
                            non = True
                elif i.is_call():
                    nm = i.callee or ""
                    if nm.startswith(("llvm.lifetime", "llvm.dbg")):
                        continue
                    if PURE.match(nm) and not MUTINDEX.search(nm):
                        continue
                    if CMPIT.match(nm) or self.harmless(i, nm):
                        continue
                    w = self.writes(nm)
                    thisonly = w is not None or self.method(nm)
                    for n, o in enumerate(i.ops):
                        if o["k"] in ("md", "c", "f", "n", "u", "b"):
                            continue
                        if w is not None and n not in w:
                            continue
                        if w is None and thisonly and n != 0:
                            continue
                        for a in resolve(fn, o):
                            if a.root[0] == "alloca":
                                roots.add(a.root[1])
                            elif a.root[0] == "arg" and thisonly:
                                self.bump(("ptr", a.root, a.off, ())) if not a.vars else None
                                non = True
                            elif o["k"] in ("v", "a", "g", "go"):
                                non = True
                    if not thisonly:
                        unk = True
        if unk and not self.stable:
            self.clob[0] += 1
        al = {("alloca", fn.name, r) + self.inst for r in roots}
        if unk:
            held = set()
            for b in body:
                for i in fn.blocks[b]:
                    if i.op == "store" and i.ops[0]["k"] == "v":
                        held |= {("alloca", fn.name, a.root[1]) + self.inst for a in resolve(fn, i.ops[0]) if a.root[0] == "alloca"}
            al = self.reach(al | held | self.escaped())
        for c in list(self.ver):
            if c[1] in al:
                self.bump(c)
        self.w.marks.setdefault(len(self.ev), len(self.w.log))
        self.ev.append(Ev("loop", fn.blocks[h][0], x={"h": h, "iv": ivs, "fn": fn.name, "from": prev}))
        self.stores.append(("havoc", lambda r, e=frozenset(al), n_=non or unk: r in e or (n_ and r[0] != "alloca"), "l%d" % h, 1))

    # ------------------------------------------------------------ instructions
    def atomic_ev(self, kind, i, addr, size, ord_, val=None, ford=None, **x):
        e = Ev(kind, i, addr=self.asptr(addr), size=size, ord=ord_, val=val, ford=ford, x=x)
        self.ev.append(e)
        return ("at", len(self.ev) - 1)

    def step(self, i):
        d = i.d
        op = i.op
        if op == "alloca" and "asize" not in d:
            r = super().step(i)
            self.ev.append(Ev("alloca", i, addr=self.env[i.id], val=self.val(i.ops[0]), size=d["esize"]))
            return r
        if op == "load":
            a = self.asptr(self.val(i.ops[0]))
            o = d.get("ord")
            if o:
                t = self.atomic_ev("load", i, a, d["size"], o)
                if a[1][0] == "alloca" or a[1][0] == "g":
                    t = self.load(a, d["size"], i.ty)
                self.ev[-1].res = t
                self.env[i.id] = t
                return None
            t = self.load(a, d["size"], i.ty)
            if a[1][0] != "alloca":
                self.ev.append(Ev("load", i, addr=a, size=d["size"], res=t))
            self.env[i.id] = t
            return None
        if op == "store":
            a = self.asptr(self.val(i.ops[1]))
            v = self.val(i.ops[0])
            self.stores.append((a, d["size"], v, d["vty"]))
            if a[1][0] != "alloca" or d.get("ord"):
                self.ev.append(Ev("store", i, addr=a, size=d["size"], val=v, ord=d.get("ord")))
            return None
        if op == "atomicrmw":
            a = self.asptr(self.val(i.ops[0]))
            v = self.val(i.ops[1])
            t = self.atomic_ev("rmw", i, a, d["size"], d["ord"], v, op=d["rmw"])
            self.ev[-1].res = t
            self.stores.append((a, d["size"], ("after", t), i.ty))
            self.env[i.id] = t
            return None
        if op == "cmpxchg":
            a = self.asptr(self.val(i.ops[0]))
            e, n = self.val(i.ops[1]), self.val(i.ops[2])
            t = self.atomic_ev("cas", i, a, d["size"], d["ord"], n, d.get("ford"), exp=e, weak=d.get("weak"))
            ok = self.decide(("cas", t))
            self.ev[-1].x["ok"] = ok
            self.ev[-1].res = t
            self.env[i.id] = ("agg", e if ok else t, C(1 if ok else 0, 1))
            if ok:
                self.stores.append((a, d["size"], n, "?"))
            return None
        if op == "fence":
            self.ev.append(Ev("fence", i, ord=d.get("ord")))
            return None
        if op == "landingpad":
            self.env[i.id] = ("agg", ("exc", len(self.ev)), ("excsel", len(self.ev)))
            self.ev.append(Ev("landing", i))
            return None
        if op == "resume":
            return ("resume",)
        return super().step(i)

    def harmless(self, i, name):
        """a call that changes nothing that is looked at"""
        return False

    def writes(self, name):
        for rx, pos in self.WRITES:
            if rx.search(name):
                return pos
        return None

    @staticmethod
    def method(name):
        """a mutating method of a library container: changes that container only"""
        return re.match(r"^(?:[\w:<>,*& ]+ )?std::(?:__cxx11::|__detail::)?(?:vector|array|unordered_map|unordered_set|map|set|basic_string|deque|list|shared_ptr|__shared_ptr|unique_ptr)<.*>::(?!.*::)[\w~=+\[\]]+(?:<.*>)?(?:\(|$)", name) is not None \
            or CONTAINER.match(name) is not None

    def call(self, i):
        raw, name = i.callee_raw, i.callee
        if raw and raw.startswith("llvm."):
            if raw.startswith(("llvm.memcpy", "llvm.memmove", "llvm.memset")):
                args = [self.val(a) for a in i.ops[:3]]
                dst = self.asptr(args[0])
                if raw.startswith("llvm.memset"):
                    if isC(args[2]) and args[1] == C(0, 8):
                        self.stores.append(("copy", dst, "zero", args[2][1]))
                    else:
                        self.stores.append(("havoc", lambda r, e=dst[1]: r == e, "e%d" % len(self.ev), 1))
                    if dst[1][0] != "alloca":
                        self.ev.append(Ev("set", i, addr=dst, size=args[2], val=args[1]))
                else:
                    src = self.asptr(args[1])
                    if isC(args[2]):
                        self.stores.append(("copy", dst, src, args[2][1]))
                    else:
                        self.stores.append(("havoc", lambda r, e=dst[1]: r == e, "e%d" % len(self.ev), 1))
                    if dst[1][0] != "alloca" or src[1][0] != "alloca":
                        self.ev.append(Ev("copy", i, addr=dst, size=args[2], val=src))
                return ("goto", i.d["norm"]) if i.op == "invoke" else None
            return super().call(i)
        d = i.d
        nxt = ("goto", d["norm"]) if i.op == "invoke" else None
        args = [self.val(a) if a["k"] != "md" else flow.UNDEF for a in i.ops]
        ind = None
        if name is None:
            tgt = self.val(d["callee"])
            if tgt[0] == "fn":
                raw = tgt[1]
                f = self.mod.fns.get(raw) if self.mod else None
                name = f.dem if f is not None else raw
            else:
                name, ind = "<indirect>", tgt
        if TERMINATES.match(name):
            return ("unreachable",)
        n = self.ncall[0]
        self.ncall[0] += 1
        if ALWAYS.match(name):
            self.ev.append(Ev("call", i, name=name, args=args, x={}))
            if i.op == "invoke":
                self.ev.append(Ev("throw", i, name=name))
                return ("goto", d["unw"])
            return ("unwind",)
        if self.exc and not d.get("nounwind"):
            if self.decide(("throws", n, name)):
                self.ev.append(Ev("throw", i, name=name, args=args))
                if i.op == "invoke":
                    return ("goto", d["unw"])
                return ("unwind",)
        h = self.special(i, name, args)
        if h is not None:
            if h != ():
                self.env[i.id] = h
            return nxt
        if name.startswith(("std::allocator<", "std::__new_allocator<", "std::__allocator")) and "allocate(" not in name:
            self.env[i.id] = flow.UNDEF
            return nxt
        if raw and raw.startswith("__atomic_"):
            return self.libatomic(i, raw, args) or nxt
        if ind is None and self.mod is not None and raw in self.mod.fns and self.mod.fns[raw].follow and raw not in self.stop:
            f = self.mod.fns[raw]
            sub = type(self)(f, self.w, {k: a for k, a in enumerate(args)}, mod=self.mod, parent=self)
            sub.stop = self.stop
            self.ev.append(Ev("enter", i, name=name, args=args))
            r = sub.run()
            if r[0] in ("resume", "unwind"):
                if i.op == "invoke":
                    return ("goto", d["unw"])
                return ("unwind",)
            if r[0] != "ret":
                raise flow.Stop(r)
            self.ev.append(Ev("exit", i, name=name))
            if r[1] is not None:
                self.env[i.id] = r[1]
            return nxt
        res = ("res", len(self.ev))
        pure = bool(PURE.match(name)) and not MUTINDEX.search(name) or bool(CMPIT.match(name))
        if pure or d.get("ro") and ind is None:
            c = self.asptr(args[0]) if args else None
            res = ("pc", top(name).split("::")[-1]) + tuple(args) + ((self.version(c),) if c else ())
            self.ev.append(Ev("call", i, name=name, args=args, res=res, x={"pure": True}))
            self.env[i.id] = res
            return nxt
        self.ev.append(Ev("call", i, name=name, args=args, res=res, x={"ind": ind, "in": self.peeks(name, args)}))
        self.env[i.id] = res
        w = self.writes(name)
        if w is not None or CONTAINER.match(name):
            for k in (w if w is not None else (0,)):
                if k < len(args):
                    c = self.asptr(args[k])
                    self.bump(c)
                    self.stores.append(("havoc", lambda r, e=c[1]: r == e, "e%d" % (len(self.ev) - 1), 1))
        else:
            self.clobber(args)
        return nxt

    stop = ()
    peek = re.compile(r"(^|[ *])std::align\(")

    def peeks(self, name, args):
        """what the words hold that a call of interest gets pointers to (local variables)"""
        if self.peek is None or not self.peek.search(name):
            return None
        out = []
        for a in args:
            t = a
            while t[0] == "op" and t[1] in ("bitcast", "inttoptr", "ptrtoint", "freeze"):
                t = t[3]
            r = self.asptr(a) if t[0] == "ptr" else None
            out.append([self.word(("ptr", r[1], r[2] + k, r[3])) for k in range(0, 64, 8)] if r is not None and r[1][0] == "alloca" else None)
        return out

    def word(self, a):
        v = self.load(a, 8, "i64")
        if v[0] == "ld":
            # a value of half a word
            h = self.load(a, 4, "i32")
            if h[0] != "ld" or h[1] != a:
                return h
        return v

    def special(self, i, name, args):
        return None

    def wide(self, i, raw, args, size, o):
        """operations on objects of several words: their parts one by one"""
        if size is None or size % 8:
            raise Unsupported(raw)

        def at(t, k):
            a = self.asptr(t)
            return ("ptr", a[1], a[2] + k, a[3])

        def read(t):
            return ("parts",) + tuple(self.load(at(t, k), 8, "i64") for k in range(0, size, 8))

        def write(t, v):
            for k in range(0, size, 8):
                self.stores.append((at(t, k), 8, v(k) if callable(v) else v[1 + k // 8], "i64"))

        n = len(self.ev)
        if raw == "__atomic_load":
            t = self.atomic_ev("load", i, args[0], size, o(args[2]))
            self.ev[-1].res = t
            write(args[1], lambda k: ("atp", n, k))
        elif raw == "__atomic_store":
            self.atomic_ev("store", i, args[0], size, o(args[2]), read(args[1]))
        elif raw == "__atomic_exchange":
            t = self.atomic_ev("rmw", i, args[0], size, o(args[3]), read(args[1]), op="xchg")
            self.ev[-1].res = t
            write(args[2], lambda k: ("atp", n, k))
        else:
            t = self.atomic_ev("cas", i, args[0], size, o(args[3]), read(args[2]), o(args[4]), exp=read(args[1]))
            ok = self.decide(("cas", t))
            self.ev[-1].x["ok"] = ok
            self.ev[-1].res = t
            if not ok:
                write(args[1], lambda k: ("atp", n, k))
            self.env[i.id] = C(1 if ok else 0, int(i.ty[1:]) if i.ty[1:].isdigit() else 1)
        return None

    def libatomic(self, i, raw, args):
        def o(t):
            return MO.get(t[1], "seq_cst") if isC(t) else "seq_cst"
        size = None
        if raw in ("__atomic_load", "__atomic_store", "__atomic_exchange", "__atomic_compare_exchange"):
            size = args[0][1] if isC(args[0]) else None
            args = args[1:]
            if raw in ("__atomic_exchange", "__atomic_compare_exchange") or size == 16:
                return self.wide(i, raw, args, size, o)
            if raw == "__atomic_load":
                self.atomic_ev("load", i, args[0], size, o(args[2]))
                t = ("at", len(self.ev) - 1)
                self.ev[-1].res = t
                self.stores.append((self.asptr(args[1]), size, t, "?"))
                return None
            if raw == "__atomic_store":
                self.atomic_ev("store", i, args[0], size, o(args[2]), self.load(args[1], size, "?"))
                return None
        elif raw.startswith("__atomic_load_"):
            self.atomic_ev("load", i, args[0], int(raw[14:]), o(args[1]))
            t = ("at", len(self.ev) - 1)
            self.ev[-1].res = t
            self.env[i.id] = t
            return None
        elif raw.startswith("__atomic_store_"):
            self.atomic_ev("store", i, args[0], int(raw[15:]), o(args[2]), args[1])
            return None
        elif raw.startswith("__atomic_compare_exchange_"):
            size = int(raw[26:])
            exp = self.load(args[1], size, "i%d" % (8 * size))
            t = self.atomic_ev("cas", i, args[0], size, o(args[3]), args[2], o(args[4]), exp=exp)
            ok = self.decide(("cas", t))
            self.ev[-1].x["ok"] = ok
            self.ev[-1].res = t
            if ok:
                self.stores.append((self.asptr(args[0]), size, args[2], "i%d" % (8 * size)))
            else:
                self.stores.append((self.asptr(args[1]), size, t, "i%d" % (8 * size)))
            self.env[i.id] = C(1 if ok else 0, 1)
            return None
        raise Unsupported(raw)


CONTAINER = re.compile(r"^.*std::(?:__cxx11::)?(?:vector|array|unordered_map|unordered_set|map|set|basic_string|deque|list|shared_ptr|__shared_ptr|unique_ptr)<.*>::~?\w+(?:<.*>)?\(.*\)$|^.*std::(?:__cxx11::)?(?:vector|array|unordered_map|unordered_set|map|set|basic_string|deque|list|shared_ptr|unique_ptr)<.*>::operator(=|\+=|\[\])\(.*\)$")


class Path:
    __slots__ = ("kind", "ret", "ev", "w", "t", "x")

    def __init__(self, kind, ret, ev, w, t, x):
        self.kind, self.ret, self.ev, self.w, self.t, self.x = kind, ret, ev, w, t, x

    def facts(self):
        return "; ".join(self.w.log) or "always"

    def calls(self, pat=None):
        r = re.compile(pat) if pat else None
        return [e for e in self.ev if e.kind == "call" and (r is None or r.search(e.name))]


def paths(fn, mod, exc=False, limit=20000, cls=Tracer, stop=(), argmap=None, world=None, stable=False):
    """the paths of a function (see the module's comment)"""
    n = 0
    stack = [world or World(False)]
    while stack:
        w = stack.pop()
        try:
            t = cls(fn, w, dict(argmap or {}), mod=mod)
            t.exc = exc
            t.stable = stable
            t.stop = stop
            try:
                r = t.run()
            except flow.Stop as st:
                r = st.r
        except Fork as fk:
            for ap, txt in reversed(fk.alts):
                w2 = w.copy()
                if ap(w2):
                    w2.log.append(txt)
                    stack.append(w2)
            continue
        n += 1
        if n > limit:
            raise TooBig("more than %d paths in %s" % (limit, fn.name))
        if r[0] == "unreachable":
            continue
        yield Path(r[0], r[1] if len(r) > 1 else None, t.ev, w, t, getattr(t, "backvals", None))
