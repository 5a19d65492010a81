"""What a publisher sees of the registry (C35): questions about paths and metrics, and the data kept with them."""
from . import core, flow, reg
from .made import fed, truth
from .reg import MAPS, Names, callseq, element_for, hollow, isend, iszero, ptr, registered
from .registry import prop
from .settings import lookups, slotof, stored

ADDS = ("operator[]", "emplace", "try_emplace", "insert", "emplace_hint", "insert_or_assign", "erase", "clear")


def owned(r, p, t):
    """a term that is (a test of) the pointer of an owner that is never empty"""
    t = ptr(t)
    if t[1][0] == "ld" and not t[2]:
        return r.slot(p, t[1][1]) is not None
    if t[1][0] == "pc" and t[1][1] in ("get", "operator->"):
        return r.slot(p, t[1][2]) is not None
    return False


def answer(r, p, t):
    """a yes or no answer, where owners are never empty"""
    v = truth(t)
    if v is not None:
        return v
    if t[0] == "cmp" and t[2] in ("ne", "eq"):
        for x, y in ((t[3], t[4]), (t[4], t[3])):
            if y == flow.NULL and owned(r, p, x):
                return int(t[2] == "ne")
        for x, y in ((t[3], t[4]), (t[4], t[3])):
            e = isend(p, x)
            if e is not None and ptr(y)[1][:2] in (("pc", "end"), ("pc", "cend")):
                return int(e == (t[2] == "eq"))
        a = [t[3], t[4]]
        for x, y in (a, a[::-1]):
            if flow.isC(y) and y[1] == 0:
                z = iszero(p, x)
                if z is not None:
                    return int(z == (t[2] == "eq"))
    if t[0] == "pc" and t[1] in ("operator==", "operator!="):
        e = isend(p, t[2])
        if e is None:
            e = isend(p, t[3])
        if e is not None:
            return int(e == (t[1] == "operator=="))
    if t[0] == "pc" and t[1] == "operator bool" and r.slot(p, t[2]):
        return 1
    if t[0] == "op" and t[1] in ("zext", "trunc", "freeze"):
        return answer(r, p, t[3])
    if t[0] == "op" and t[1] == "xor" and len(t) == 5:
        a, b = answer(r, p, t[3]), answer(r, p, t[4])
        return a ^ b if a is not None and b is not None else None
    v = p.w.bool.get(("bool", t))
    return None if v is None else int(v)


def asked(r, p, t):
    """(container kind, known answer) when an answer is the outcome of a lookup nothing else on the path depends on"""
    neg = False
    while True:
        if t[0] == "op" and t[1] == "xor" and t[4] == ("c", 1, 1):
            neg, t = not neg, t[3]
        elif t[0] == "op" and t[1] in ("zext", "trunc", "freeze"):
            t = t[3]
        else:
            break
    find = None
    if t[0] == "cmp" and t[2] in ("ne", "eq"):
        for x, y in ((ptr(t[3]), ptr(t[4])), (ptr(t[4]), ptr(t[3]))):
            if y[1][:2] in (("pc", "end"), ("pc", "cend")) and x[1][:2] == ("pc", "find"):
                find, yes = x[1], t[2] == "ne"
            elif flow.isC(t[4]) and t[4][1] == 0 and t[3][:2] in (("pc", "count"), ("pc", "contains")):
                find, yes = t[3], t[2] == "ne"
        if t[2:3] and find is None and flow.isC(t[3]):
            return None
    elif t[0] == "cmp" and t[2] == "ugt" and t[4][:2] == ("c", 0) and t[3][:2] == ("pc", "count"):
        find, yes = t[3], True
    elif t[0] == "pc" and t[1] in ("operator==", "operator!="):
        ops = [ptr(x)[1] for x in t[2:4]]
        if any(o[:2] in (("pc", "end"), ("pc", "cend")) for o in ops):
            find = next((o for o in ops if o[:2] == ("pc", "find")), None)
            yes = t[1] == "operator!="
    elif t[0] == "pc" and t[1] == "contains":
        find, yes = t, True
    if find is None:
        return None
    return find, yes != neg


def data(c, r, N, f, kind, key):
    """rules for getting the data of a kind"""
    own = {"pv_": "E", "pve": "E", "pvr": "R"}[f[:3]]
    bypath = f.startswith("pv_")
    src = None if f.endswith("options") else ("arg", 1 if own == "R" else 2)
    n = 0
    for p in r.paths(f):
        if p.kind != "ret" or hollow(r, p):
            continue
        n += 1
        w = next((e.where() for e in reversed(p.ev) if e.i is not None), f)
        what = p.facts()[-300:]
        t = ptr(p.ret)
        if bypath:
            there = registered(r, p)
            c.require(there is not None, "looked up:" + f, w, "data is answered without having looked for a metric at the path (%s)" % what)
            if there is False:
                c.require(t == ptr(flow.NULL), "none:" + f, w, "data is handed out for a path without a metric (%s)" % what, detail="null without a metric")
                continue
            if there is None:
                continue
        if t == ptr(flow.NULL):
            c.bad("null:" + f, w, "no data is handed out although there is a metric (%s)" % what)
            continue
        s = stored(r, N, f, p, t, key)
        if s is None or s[0] is None:
            c.bad("kept:" + f, w, "what is handed out is not kept with the %s: %s" % ("registry" if own == "R" else "metric", flow.show(p.ret)[:200]))
            continue
        owner, good, e = s
        if bypath and owner[0] == "E":
            b = owner[2]
            a = b[1] if b[0] == "ld" else r.evof(p, b).args[0]
            good &= element_for(r, p, a, ("arg", 1))[0]
        elif owner[0] == "E":
            good &= owner[2] == ("arg", 1)
        c.require(good and owner[0] == own, "kept:" + f, e.where(), "the data handed out is not that of its kind kept with the %s" % ("registry" if own == "R" else "metric"), detail="kept under its type")
        puts = [(m, x) for m, x in callseq(p) if x.args and x.short.split("::")[-1] in ("operator=", "reset", "swap") and r.slot(p, x.args[0]) and r.slot(p, x.args[0])[0] == "O"]
        puts += [(p.ev.index(x), x) for x in p.ev if x.kind == "store" and r.slot(p, x.addr) and r.slot(p, x.addr)[0] == "O"]
        m = e.short.split("::")[-1]
        empty = before(r, p, e)
        if m in ("emplace", "try_emplace", "insert"):
            puts.append((p.ev.index(e), e))
        if m in ("find", "at") or empty is False:
            c.require(not [x for _, x in puts if x.kind == "store" or x.short.split("::")[-1] in ("operator=", "reset", "swap")], "stays:" + f, w, "data that is there already is replaced (%s)" % what, detail="data is not replaced")
            continue
        made = [x for _, x in callseq(p) if x.short in ("std::make_unique", "std::make_shared") or x.short.startswith("operator new")]
        if empty is None and m == "operator[]":
            c.require(not puts, "stays:" + f, w, "data is replaced without having looked whether there is any (%s)" % what)
            c.require(lookups(r, N, f, p, key).get(owner[0]) is True, "made:" + f, w, "what is handed out may be empty: it is not looked whether there is data yet (%s)" % what, detail="made when there is none")
            continue
        c.require(bool(puts) and bool(made), "made:" + f, w, "data that is not there yet is not made (%s)" % what, detail="made when there is none")
        if made and src is not None:
            ok = any(fed(p, p.t.stores, x, src) or within(x, src) for e2 in made for x in e2.args[1:]) or \
                any(x.kind == "store" and x.addr[1] in [y.res for y in made] and within(x.val, src) for x in p.ev)
            c.require(ok, "made of:" + f, made[-1].where(), "new data is not made of what was given for it", detail="made of what was given")
    return n


def within(t, s):
    return reg.within(t, s)


def before(r, p, e):
    """whether the slot an operator[] gave was found filled (False) or empty (True)"""
    out = None
    for k, v in p.w.bool.items():
        a = None
        if k[0] == "peq" and flow.NULL in (k[1], k[2]):
            x = ptr(k[2] if k[1] == flow.NULL else k[1])[1]
            a = x[1] if x[0] == "ld" else x[2] if x[0] == "pc" and x[1] == "get" else None
        elif k[0] == "bool" and k[1][0] == "pc" and k[1][1] == "operator bool":
            a, v = k[1][2], not v
        if a is not None and within(a, e.res):
            out = v
            break
    return out


@prop("C35", technique="path-sensitive dataflow: outcome of lookups against answers, provenance of what is handed out", level="sound-analysis",
      explains="every path of the questions a publisher can ask: the answer is decided from what the path learned from the lookups it made (found or not, in the right container of the right object under the right key); "
               "nothing is added by a question; data handed out is what the metric (or registry) keeps under its type, made of the arguments given when there was none and never replaced; one metric is visited by exactly one call of the handler",
      rule="answer = outcome of the lookup; provenance of pointers handed out and of handler arguments; no adding or removing operation on the path of a question",
      assumptions=["owners kept in the registry's containers are never empty (C10 for metrics; data is put in place when it is made)", "the maps' own operations behave as specified"])
def c35(c):
    r = reg.load("view.cpp", "pv_,pve_,pvr_,tk_")
    N = Names(r)
    keys = {}
    for f in sorted(r.drivers):
        if f.startswith("tk_"):
            for p in r.paths(f):
                keys[f[3:]] = ptr(p.ret)[1][1]
    if len(keys) != 2:
        raise core.AnalysisError("the types of data are not understood")
    n = k = v = 0
    for f in sorted(r.drivers):
        kind = f.split("_")[-1]
        if f == "pv_has" or "_hasd_" in f:
            for p in r.paths(f):
                if p.kind != "ret" or hollow(r, p):
                    continue
                n += 1
                w = next((e.where() for e in reversed(p.ev) if e.i is not None), f)
                what = p.facts()[-300:]
                for _, e in callseq(p):
                    if MAPS.match(e.name) and e.args and (r.obj(p, e.args[0]) or "?")[0] in ("R", "E") and e.short.split("::")[-1] in ADDS:
                        c.bad("adds:" + f, e.where(), "asking whether there is something changes the registry (%s)" % what)
                there = registered(r, p) if f.startswith("pv_") else True
                a = answer(r, p, p.ret)
                if f == "pv_has":
                    want = there
                else:
                    has = lookups(r, N, f, p, keys[kind]).get("E")
                    want = False if there is False else has if there else None
                    if has is not None and there and f.startswith("pv_"):
                        # the metric asked is the one at the path
                        for m, e in callseq(p):
                            if MAPS.match(e.name) and r.mapped(e.name) == "O" and e.args:
                                o = r.obj(p, e.args[0])
                                if o and o[0] == "E":
                                    b = o[2]
                                    at = b[1] if b[0] == "ld" else r.evof(p, b).args[0] if r.evof(p, b) else None
                                    c.require(at is not None and element_for(r, p, at, ("arg", 1))[0], "whose:" + f, e.where(), "the data looked for is not that of the metric at the path (%s)" % what, detail="the metric's own data")
                if want is None:
                    q = asked(r, p, p.ret)
                    if q is not None:
                        find, yes = q
                        e = r.evof(p, find)
                        o = r.obj(p, find[2])
                        m = p.ev.index(e)
                        if f == "pv_has":
                            good = o and o[0] == "R" and r.mapped(e.name) == "E" and reg.copied(p, find[3], ("arg", 1), m)
                        else:
                            good = there is True and o and o[0] == "E" and r.mapped(e.name) == "O" and N.of(f, p, find[3], m) == ("T", keys[kind])
                        c.require(bool(good) and yes, "answer:" + f, w, "the answer is not whether there is one (%s)" % what, detail="the outcome of the lookup")
                        continue
                    c.bad("answer:" + f, w, "the answer does not depend on whether there is one (%s)" % what)
                    continue
                if a is None and want is False and there is False:
                    c.bad("answer:" + f, w, "the answer is not no although there is no metric (%s)" % what)
                    continue
                if a is None:
                    raise core.AnalysisError("%s: the answer is not understood: %s" % (f, flow.show(p.ret)[:200]))
                c.require(bool(a) == want, "answer:" + f, w, "the answer is %s although there is %s (%s)" % ("yes" if a else "no", "one" if want else "none", what), detail="the outcome of the lookup")
        elif "_data_" in f:
            k += data(c, r, N, f, kind, keys[kind])
        elif f == "pv_one":
            for p in r.paths(f):
                if p.kind != "ret" or hollow(r, p):
                    continue
                v += 1
                w = next((e.where() for e in reversed(p.ev) if e.i is not None), f)
                there = registered(r, p)
                calls = [e for _, e in callseq(p) if e.name == "probe_reg"]
                if there is None:
                    c.bad("visit:" + f, w, "it is not looked whether there is a metric at the path (%s)" % p.facts()[-300:])
                elif not there:
                    c.require(not calls, "visit:" + f, w, "the handler is called although there is no metric at the path", detail="no call without a metric")
                else:
                    ok = len(calls) == 1
                    why = "the handler is called %d times" % len(calls)
                    if ok:
                        e = calls[0]
                        t = ptr(e.args[1])
                        at = t[1][1] if t[1][0] == "ld" else t[1][2] if t[1][0] == "pc" else None
                        ok, why = at is not None and not t[2] and element_for(r, p, at, ("arg", 1))[0], "the handler is given another metric than the one at the path"
                        if ok:
                            ok, why = reg.copied(p, e.args[0], ("arg", 1), p.ev.index(e)) or keyof(r, p, e.args[0]), "the handler is given another path"
                    c.require(ok, "visit:" + f, w, why, detail="one call with the path and its metric")
    c.stats["ways to ask"] = n
    c.stats["ways to get data"] = k
    c.stats["ways to visit one metric"] = v
    c.expect(n, 8, "ways to ask")
    c.expect(k, 8, "ways to get data")
    c.expect(v, 2, "ways to visit one metric")


def keyof(r, p, a):
    """the path kept as the key of the element found for it"""
    nd = r.node(p, a)
    return nd is not None and nd[1].short.split("::")[-1] == "find" and len(nd[1].args) > 1 and ptr(nd[1].args[1]) == ptr(("arg", 1))
