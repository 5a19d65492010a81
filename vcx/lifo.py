"""The lock-free list."""
from . import core, flow, policies, trace
from .averages import bare
from .effects import acquires, releases
from .facts import Facts
from .flow import isC
from .registry import prop
from .snapshots import ptr


VALUES = ("ld", "iv", "res", "cas", "rmw", "op")


def pointer(t):
    t = bare(t)
    while True:
        if t[0] == "op" and t[1] in ("inttoptr", "ptrtoint", "bitcast"):
            t = bare(t[3])
        elif t[0] == "ptr" and t[2] == 0 and not t[3] and t[1][0] in VALUES:
            t = t[1]
        else:
            return t


def canon(t):
    """t with the types of loads and the casts left out"""
    t = pointer(t)
    if t[0] == "ptr":
        return canon(t[1]) if t[2] == 0 and not t[3] and t[1][0] in VALUES else ("ptr", canon(t[1])) + tuple(t[2:])
    if t[0] == "ld":
        return ("ld", canon(t[1]), t[2]) + tuple(t[4:])
    return t


def base(t):
    """(root, offset) of an address term"""
    p = ptr(pointer(t))
    return canon(p[1]), p[2]


def plus(a, b):
    """k when a = b + k for a constant k"""
    a, b = bare(a), bare(b)
    if a == b:
        return 0
    if a[0] == "lin" and len(a[3]) == 1 and a[3][0] == (b, 1):
        return flow.sgn(a[2], 64)
    return None


def isnull(t):
    t = pointer(t)
    return t[0] == "null" or isC(t) and t[1] == 0 or t[0] == "ptr" and t[1][0] == "null"


def nodeof(t):
    """the node a value names"""
    r, o = base(t)
    return r if o == 0 else (r, o)


def head_of(ps, arg):
    cells = {}
    for p in ps:
        for e in p.ev:
            if e.kind in ("cas", "rmw") and e.addr is not None:
                a = ptr(e.addr)
                if a[1] == ("arg", arg) and not a[3]:
                    cells[a[2]] = e.size
    return cells


def paths(mod, n):
    try:
        return [p for p in trace.paths(mod.fns[n], mod, stable=True) if not Facts(p.w).infeasible()]
    except (flow.Unsupported, flow.TooBig) as e:
        raise core.AnalysisError("%s: %s" % (n, e))


def onhead(e, arg, off):
    if e.addr is None:
        return False
    a = ptr(e.addr)
    return a[1] == ("arg", arg) and a[2] <= off[0] + off[1] - 1 and a[2] + (e.size or 1) > off[0]


@prop("C18", technique="path-sensitive dataflow over the atomic accesses of push and pop (compiler IR)", level="sound-analysis",
      explains="push of a node, of a value and in place, pop, for contained nodes and for nodes that carry their own link; all paths, one generic iteration of each retry loop",
      rule="the head changes only by compare-exchange; an exchange of push installs the pushed node, whose link was last set to the very head the exchange expects, with release order, and the node is not written afterwards; an exchange of pop expects the node that is returned and installs the link read from it, and the head it dereferences was read with acquire order; the version never goes back and grows in every push or in every pop; every successful push and pop changes the head exactly once",
      assumptions=["std::atomic is implemented correctly", "a node that was popped stays readable (the list relies on its allocator for that)"])
def c18(c):
    mod = core.normalise("lifo.cpp", "A", policies.A, flags=["-mcx16"], prefix="li_")
    npush = npop = ncas = 0
    for kind in ("int", "own"):
        pop = "li_pop_" + kind
        pps = paths(mod, pop)
        heads = head_of(pps, 0)
        if len(heads) != 1:
            raise core.AnalysisError("the head of the list is not one cell: %s" % heads)
        head = next(iter(heads.items()))
        link, kpop, kpush = None, [], []
        key = "pop:" + kind
        bad = False

        def fail(e, f, msg):
            nonlocal bad
            bad = True
            c.bad(key, e.where() if e is not None else core.origin(f), msg)
        f = mod.fns[pop]
        for p in pps:
            ok = [e for e in p.ev if e.kind == "cas" and onhead(e, 0, head) and e.x["ok"]]
            for e in p.ev:
                if onhead(e, 0, head):
                    if e.kind in ("store", "rmw", "copy", "set"):
                        fail(e, f, "the head is changed by something that does not depend on what it is then")
                    elif e.kind == "load" and not (e.ord and acquires(e.ord)):
                        fail(e, f, "the head whose node is read next is loaded without acquiring what its pusher wrote")
                    elif e.kind == "cas" and not acquires(e.ford or "monotonic") and reread(mod.fns[pop], e):
                        fail(e, f, "the head that a failed exchange returns is used without acquiring what its pusher wrote")
            if p.kind == "back":
                if ok:
                    fail(ok[0], f, "the head was exchanged and the loop goes on: one pop takes several nodes")
                continue
            if p.kind != "ret":
                continue
            npop += 1
            if len(ok) > 1:
                fail(ok[1], f, "one pop changes the head twice")
            res = [e for e in p.ev if e.kind == "store" and ptr(e.addr)[1] == ("arg", 1)]
            got = res[-1].val if res else None
            if not ok:
                if got is not None and not isnull(got) and not known_null(p, got):
                    fail(res[-1], f, "a node is returned that was not taken off the list")
                continue
            e = ok[0]
            ncas += 1
            (_, ver, nd), (_, nver, nnd) = parts(e.x["exp"]), parts(e.val)
            if got is None or nodeof(got) != nodeof(nd):
                fail(e, f, "the node that is returned is not the one the exchange took off the list")
            t = pointer(nnd)
            if t[0] != "ld" or base(t[1])[0] != canon(nd):
                fail(e, f, "the new head is not the link of the node that is taken off")
            else:
                link = base(t[1])[1]
            kpop.append((plus(nver, ver), e))
        if not bad:
            c.ok(key, "%d paths" % len(pps))
        for n in sorted(x for x in mod.fns if x.startswith(("li_push_", "li_emplace_", "li_value_")) and x.endswith(kind)):
            f = mod.fns[n]
            key, bad = n[3:], False
            ps = paths(mod, n)
            for p in ps:
                ok = [k for k, e in enumerate(p.ev) if e.kind == "cas" and onhead(e, 0, head) and e.x["ok"]]
                for e in p.ev:
                    if onhead(e, 0, head) and e.kind in ("store", "rmw", "copy", "set"):
                        fail(e, f, "the head is changed by something that does not depend on what it is then")
                if p.kind == "back":
                    if ok:
                        fail(p.ev[ok[0]], f, "the head was exchanged and the loop goes on: one push inserts a node several times")
                    continue
                if p.kind != "ret":
                    continue
                npush += 1
                if len(ok) > 1:
                    fail(p.ev[ok[1]], f, "one push changes the head twice")
                if not ok:
                    if not any(v and "null" in str(a) for a, v in p.w.bool.items()):
                        fail(None, f, "there is a way through push on which the node is not inserted (%s)" % p.facts()[:160])
                    continue
                k = ok[0]
                e = p.ev[k]
                ncas += 1
                (_, ver, nd), (_, nver, nnd) = parts(e.x["exp"]), parts(e.val)
                node = nodeof(nnd)
                if not releases(e.ord):
                    fail(e, f, "the node is published without releasing what was written to it")
                last = None
                for w in p.ev[:k]:
                    if w.kind == "store" and base(w.addr) == (node, link):
                        last = w
                if link is not None:
                    if last is None:
                        fail(e, f, "the node is published without a link to the previous head")
                    elif canon(last.val) != canon(nd):
                        fail(last, f, "the link of the published node is not the head that the exchange replaces")
                for w in p.ev[k + 1:]:
                    if w.kind in ("store", "copy", "set") and base(w.addr)[0] == node:
                        fail(w, f, "the node is written after it was published")
                kpush.append((plus(nver, ver), e))
            if not bad:
                c.ok(key, "%d paths" % len(ps))
        back = [e for k, e in kpop + kpush if k is None or k < 0]
        c.require(not back, "version:" + kind, back[0].where() if back else "", "the version of the head is not derived from the one it replaces: it can come back to an earlier value", detail="the version never goes back")
        grows = all(k for k, _ in kpush) or all(k for k, _ in kpop)
        if not back:
            c.require(grows, "grows:" + kind, kpop[0][1].where() if kpop else core.origin(mod.fns[pop]), "neither every push nor every pop advances the version: a reinserted node is taken for one that never left", detail="push %s pop %s" % ([k for k, _ in kpush], [k for k, _ in kpop]))
    c.expect(npush, 6, "ways through push")
    c.expect(npop, 4, "ways through pop")
    c.expect(ncas, 6, "exchanges of the head")


def reread(f, e):
    """whether a failed exchange leads back to another attempt with what it returned"""
    return f.in_cycle(e.i.blk)


def parts(t):
    if t[0] == "parts" and len(t) == 3:
        return t
    raise core.AnalysisError("the head is exchanged as something other than version and node: %s" % flow.show(t)[:80])


def known_null(p, t):
    n = canon(t)
    return any(v and a[0] == "peq" and (isnull(a[1]) and canon(a[2]) == n or isnull(a[2]) and canon(a[1]) == n) for a, v in p.w.bool.items())
