"""The text exposition format as an automaton over bytes, and relations over its states.

A relation says, for every state the output may be in before a piece of code runs, in which states it may be
afterwards.  State DEAD is reached by output that is not well formed.
"""
NAME0 = frozenset(map(ord, "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ_:"))
NAME = NAME0 | frozenset(map(ord, "0123456789"))
LABEL0 = NAME0 - {ord(":")}
LABEL = NAME - {ord(":")}
NUMBER = frozenset(map(ord, "0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ+-."))
DIGITS = frozenset(map(ord, "0123456789-"))
ALL = frozenset(range(256))
TYPES = ("counter", "gauge", "histogram", "summary", "untyped")

_names, _step = [], []


def _state(name):
    _names.append(name)
    _step.append({})
    return len(_names) - 1


def _on(s, chars, t):
    for ch in chars:
        _step[s][ch if isinstance(ch, int) else ord(ch)] = t


BOL = _state("the start of a line")
_hash = _state("after #")
_comment = _state("in a comment")
_name = _state("in the name of a sample")
_lb = _state("after {")
_ln = _state("in the name of a label")
_eq = _state("after the name of a label and =")
_lv = _state("in the value of a label")
_esc = _state("after a backslash in the value of a label")
_le = _state("after the value of a label")
_lc = _state("after the comma between labels")
_af = _state("after }")
_v0 = _state("before a value")
_v = _state("in a value")
_t0 = _state("before a time stamp")
_t = _state("in a time stamp")
_tn0 = _state("before the name in a TYPE line")
_tn = _state("in the name in a TYPE line")
_hn0 = _state("before the name in a HELP line")
_hn = _state("in the name in a HELP line")
_ht = _state("in the text of a HELP line")
_he = _state("after a backslash in the text of a HELP line")

_on(BOL, "\n", BOL)
_on(BOL, "#", _hash)
_on(BOL, NAME0, _name)
_on(_comment, ALL, _comment)
_on(_comment, "\n", BOL)
_on(_name, NAME, _name)
_on(_name, "{", _lb)
_on(_name, " ", _v0)
_on(_lb, LABEL0, _ln)
_on(_lb, "}", _af)
_on(_ln, LABEL, _ln)
_on(_ln, "=", _eq)
_on(_eq, '"', _lv)
_on(_lv, ALL - {10}, _lv)
_on(_lv, "\\", _esc)
_on(_lv, '"', _le)
_on(_esc, '\\"n', _lv)
_on(_le, ",", _lc)
_on(_le, "}", _af)
_on(_lc, LABEL0, _ln)
_on(_lc, "}", _af)
_on(_af, " ", _v0)
_on(_v0, NUMBER, _v)
_on(_v, NUMBER, _v)
_on(_v, " ", _t0)
_on(_v, "\n", BOL)
_on(_t0, DIGITS, _t)
_on(_t, DIGITS, _t)
_on(_t, "\n", BOL)
# TYPE and HELP lines
_on(_hash, ALL - {10}, _comment)
_on(_hash, "\n", BOL)


def _word(start, word, end, other):
    """a path for a word; what differs leads to `other`"""
    s = start
    for n, ch in enumerate(word):
        if n == len(word) - 1:
            _step[s][ord(ch)] = end
            break
        t = _step[s].get(ord(ch))
        if t is None or t == other:
            t = _state("in '%s'" % word.strip())
            if other is not None:
                _on(t, ALL, other)
                _on(t, "\n", BOL)
            _step[s][ord(ch)] = t
        s = t


_word(_hash, " TYPE ", _tn0, _comment)
_word(_hash, " HELP ", _hn0, _comment)
_on(_tn0, NAME0, _tn)
_on(_tn, NAME, _tn)
_tt = _state("before the kind in a TYPE line")
_on(_tn, " ", _tt)
for _w in TYPES:
    _word(_tt, _w + "\n", BOL, None)
_on(_hn0, NAME0, _hn)
_on(_hn, NAME, _hn)
_on(_hn, " ", _ht)
_on(_ht, ALL - {10}, _ht)
_on(_ht, "\\", _he)
_on(_ht, "\n", BOL)
_on(_he, "\\n", _ht)
DEAD = _state("malformed output")


class Automaton:
    """relations over the states of a deterministic automaton over bytes"""

    def __init__(self, names, step, dead):
        self.names, self.dead = names, dead
        self.n = len(names)
        self.next = [[s.get(ch, dead) for ch in range(256)] for s in step]
        self.next[dead] = [dead] * 256
        self.ID = tuple(frozenset((q,)) for q in range(self.n))
        self.NONE = tuple(frozenset() for q in range(self.n))
        self._c = {}
        self.ANY = self.star(self.charset(ALL))
        self.DIGITS = self.plus(DIGITS)
        self.NUM = self.plus(NUMBER)

    def charset(self, chars):
        k = frozenset(chars)
        if k not in self._c:
            self._c[k] = tuple(frozenset(self.next[q][ch] for ch in k) for q in range(self.n))
        return self._c[k]

    def then(self, a, b):
        return tuple(frozenset(y for x in a[q] for y in b[x]) for q in range(self.n))

    def join(self, a, b):
        return tuple(x | y for x, y in zip(a, b))

    def star(self, a):
        r = self.ID
        while True:
            n = self.join(r, self.then(r, a))
            if n == r:
                return r
            r = n

    def plus(self, chars):
        a = self.charset(chars)
        return self.then(a, self.star(a))

    def literal(self, data):
        k = bytes(data)
        if k not in self._c:
            r = self.ID
            for ch in k:
                r = self.then(r, self.charset((ch,)))
            self._c[k] = r
        return self._c[k]


FORMAT = Automaton(_names, _step, DEAD)


def _headers():
    """which lines were written: (TYPE lines: none, one, more than one) x (a sample was written)"""
    names, step, at = [], [], {}
    word = b"# TYPE "

    def st(types, sample, col):
        k = (types, sample, col)
        if k not in at:
            at[k] = len(names)
            names.append("%s%s" % (("no TYPE line", "a TYPE line", "several TYPE lines", "a TYPE line after a sample")[types], ", a sample" if sample else ""))
            step.append({})
            todo.append(k)
        return at[k]
    todo = []
    st(0, 0, 0)
    while todo:
        ty, sa, c = k = todo.pop()
        d = step[at[k]]
        if c == "line":
            for ch in range(256):
                d[ch] = st(ty, sa, 0 if ch == 10 else "line")
            continue
        for ch in range(256):
            if ch == word[c]:
                d[ch] = st(ty, sa, c + 1) if c + 1 < len(word) else st(3 if sa or ty == 3 else min(ty + 1, 2), sa, "line")
            elif ch == 10:
                d[ch] = st(ty, sa, 0)
            else:
                d[ch] = st(ty, 1 if c == 0 else sa, "line")
    names.append("-")
    step.append({})
    return Automaton(names, step, len(names) - 1), {v: k for k, v in at.items()}


HEADER, HEADS = _headers()
