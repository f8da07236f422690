"""Backtracking regular-expression matcher over symbolic strings.

The pattern is parsed by CPython's own re._parser; only subjects with symbolic characters
come here (concrete subjects use the real `re`).  Each character test that is not decided
by the path condition forks.  Greedy/lazy quantifiers, groups, classes, anchors,
alternation, lookahead and back-references of concrete groups are supported.
"""

import re
import re._constants as C
import re._parser as P
import types

from symx import core
from symx.core import Unsupported, b_and, b_not, b_or
from symx.seq import SStr, Seq, SBytes, all_concrete, as_b, el_in, els_of, mkbytes, mkstr, eq_els

CATS = {
    C.CATEGORY_DIGIT: frozenset(range(48, 58)),
    C.CATEGORY_SPACE: frozenset((9, 10, 11, 12, 13, 32, 28, 29, 30, 31, 0x85, 0xA0)),
    C.CATEGORY_WORD: frozenset(list(range(48, 58)) + list(range(65, 91)) + list(range(97, 123)) + [95]),
}
BSPACE = frozenset((9, 10, 11, 12, 13, 32))
NEG = {C.CATEGORY_NOT_DIGIT: C.CATEGORY_DIGIT, C.CATEGORY_NOT_SPACE: C.CATEGORY_SPACE, C.CATEGORY_NOT_WORD: C.CATEGORY_WORD}


def swap(cls):
    out = set(cls)
    for c in cls:
        ch = chr(c)
        for d in (ch.lower(), ch.upper()):
            if len(d) == 1:
                out.add(ord(d))
    return frozenset(out)


class Matcher:
    def __init__(self, els, flags, isbytes):
        self.s = els
        self.n = len(els)
        self.flags = flags
        self.isb = isbytes
        self.groups = {}

    def cat(self, c):
        if c in NEG:
            return self.cat(NEG[c])[0], True
        cls = CATS[c]
        if c is C.CATEGORY_SPACE and self.isb:
            cls = BSPACE
        return cls, False

    def charset(self, items):
        """-> (set, negated)"""
        neg = False
        cls = set()
        negcats = []
        for op, av in items:
            if op is C.NEGATE:
                neg = True
            elif op is C.LITERAL:
                cls.add(av)
            elif op is C.RANGE:
                cls.update(range(av[0], min(av[1], 0x3FF) + 1))
            elif op is C.CATEGORY:
                c, n = self.cat(av)
                if n:
                    negcats.append(c)
                else:
                    cls.update(c)
            else:
                raise Unsupported(f"regex set {op}")
        cls = frozenset(cls)
        if self.flags & re.IGNORECASE:
            cls = swap(cls)
        return cls, neg, negcats

    def test(self, i, cls, neg=False, negcats=()):
        if i >= self.n:
            return False
        r = el_in(self.s[i], cls)
        for c in negcats:
            r = b_or(r, b_not(el_in(self.s[i], c)))
        if neg:
            r = b_not(r)
        return bool(r)

    # continuation-passing matcher -------------------------------------------------
    def m(self, pat, k, i, cont):
        """match pat[k:] at i, then cont(i)"""
        if k >= len(pat):
            return cont(i)
        op, av = pat[k]
        nxt = lambda j: self.m(pat, k + 1, j, cont)  # noqa: E731
        if op is C.LITERAL:
            cls = frozenset((av,))
            if self.flags & re.IGNORECASE:
                cls = swap(cls)
            return self.test(i, cls) and nxt(i + 1)
        if op is C.NOT_LITERAL:
            cls = frozenset((av,))
            if self.flags & re.IGNORECASE:
                cls = swap(cls)
            return self.test(i, cls, True) and nxt(i + 1)
        if op is C.ANY:
            if self.flags & re.DOTALL:
                return i < self.n and nxt(i + 1)
            return self.test(i, frozenset((10,)), True) and nxt(i + 1)
        if op is C.IN:
            cls, neg, nc = self.charset(av)
            return self.test(i, cls, neg, nc) and nxt(i + 1)
        if op is C.CATEGORY:
            cls, neg = self.cat(av)
            return self.test(i, cls, neg) and nxt(i + 1)
        if op is C.AT:
            return self.at(av, i) and nxt(i)
        if op is C.SUBPATTERN:
            g, add, sub, p = av
            old = self.flags
            self.flags = (self.flags | add) & ~sub
            inner = self.flags

            def after(j):
                saved = self.groups.get(g)
                if g is not None:
                    self.groups[g] = (i, j)
                f, self.flags = self.flags, old
                r = nxt(j)
                self.flags = f
                if not r and g is not None:
                    if saved is None:
                        self.groups.pop(g, None)
                    else:
                        self.groups[g] = saved
                return r

            self.flags = inner
            r = self.m(p, 0, i, after)
            self.flags = old
            return r
        if op in (C.MAX_REPEAT, C.MIN_REPEAT):
            lo, hi, p = av
            single = self.single(p)
            if single is not None:
                return self.rep_single(single, lo, hi, i, nxt, op is C.MAX_REPEAT)
            return self.rep(p, lo, hi, 0, i, -1, nxt, op is C.MAX_REPEAT)
        if op is C.BRANCH:
            for alt in av[1]:
                if self.m(alt, 0, i, nxt):
                    return True
            return False
        if op is C.ASSERT or op is C.ASSERT_NOT:
            d, p = av
            if d < 0:
                raise Unsupported("lookbehind")
            r = self.m(p, 0, i, lambda j: True)
            return (r if op is C.ASSERT else not r) and nxt(i)
        if op is C.GROUPREF:
            if av not in self.groups:
                return False
            a, b = self.groups[av]
            if i + b - a > self.n:
                return False
            return bool(eq_els(self.s[a:b], self.s[i : i + b - a])) and nxt(i + b - a)
        if op is C.ATOMIC_GROUP:
            end = []
            if not self.m(av, 0, i, lambda j: (end.append(j), True)[1]):
                return False
            return nxt(end[0])
        raise Unsupported(f"regex op {op}")

    def single(self, p):
        """(cls, neg, negcats) when p is one character test, else None"""
        if len(p) != 1:
            return None
        op, av = p[0]
        if op is C.LITERAL or op is C.NOT_LITERAL:
            cls = frozenset((av,))
            if self.flags & re.IGNORECASE:
                cls = swap(cls)
            return cls, op is C.NOT_LITERAL, ()
        if op is C.ANY:
            return (frozenset() if self.flags & re.DOTALL else frozenset((10,))), True, ()
        if op is C.IN:
            return self.charset(av)
        if op is C.CATEGORY:
            return (*self.cat(av), ())
        return None

    def rep_single(self, t, lo, hi, i, nxt, greedy):
        hi = self.n if hi is C.MAXREPEAT else hi
        if greedy:
            j = i
            while j - i < hi and self.test(j, *t):
                j += 1
            while j - i >= lo:
                if nxt(j):
                    return True
                j -= 1
            return False
        j = i
        while j - i < lo:
            if not self.test(j, *t):
                return False
            j += 1
        while True:
            if nxt(j):
                return True
            if j - i >= hi or not self.test(j, *t):
                return False
            j += 1

    def rep(self, p, lo, hi, cnt, i, last, nxt, greedy):
        def more():
            if hi is not C.MAXREPEAT and cnt >= hi:
                return False
            if cnt >= lo and i == last:
                return False  # empty iteration
            return self.m(p, 0, i, lambda j: self.rep(p, lo, hi, cnt + 1, j, i, nxt, greedy))

        if cnt < lo:
            return more()
        if greedy:
            return more() or nxt(i)
        return nxt(i) or more()

    def at(self, av, i):
        if av is C.AT_BEGINNING:
            if i == 0:
                return True
            return bool(self.flags & re.MULTILINE) and self.test(i - 1, frozenset((10,)))
        if av is C.AT_BEGINNING_STRING:
            return i == 0
        if av is C.AT_END:
            if i == self.n:
                return True
            if self.flags & re.MULTILINE:
                return self.test(i, frozenset((10,)))
            return i == self.n - 1 and self.test(i, frozenset((10,)))
        if av is C.AT_END_STRING:
            return i == self.n
        if av in (C.AT_BOUNDARY, C.AT_NON_BOUNDARY):
            w = CATS[C.CATEGORY_WORD]
            a = self.test(i - 1, w) if i > 0 else False
            b = self.test(i, w) if i < self.n else False
            return (a != b) == (av is C.AT_BOUNDARY)
        raise Unsupported(f"regex anchor {av}")


class SMatch:
    def __init__(self, pat, subj, start, end, groups, isb):
        self.re = pat
        self.string = subj
        self._start = start
        self._end = end
        self._groups = groups
        self._mk = mkbytes if isb else mkstr
        self._els = els_of(subj)
        self.pos = 0
        self.endpos = len(self._els)
        self.lastindex = max(groups) if groups else None

    def _num(self, g):
        if isinstance(g, str):
            if g not in self.re.groupindex:
                raise IndexError("no such group")
            return self.re.groupindex[g]
        if not 0 <= g <= self.re.groups:
            raise IndexError("no such group")
        return g

    def span(self, g=0):
        g = self._num(g)
        if g == 0:
            return self._start, self._end
        return self._groups.get(g, (-1, -1))

    def start(self, g=0):
        return self.span(g)[0]

    def end(self, g=0):
        return self.span(g)[1]

    def _get(self, g, default=None):
        a, b = self.span(g)
        return default if a < 0 else self._mk(self._els[a:b])

    def group(self, *gs):
        if not gs:
            return self._get(0)
        if len(gs) == 1:
            return self._get(gs[0])
        return tuple(self._get(g) for g in gs)

    __getitem__ = group

    def groups(self, default=None):
        return tuple(self._get(g, default) for g in range(1, self.re.groups + 1))

    def groupdict(self, default=None):
        return {k: self._get(v, default) for k, v in self.re.groupindex.items()}

    def __bool__(self):
        return True


class SPattern:
    """Wraps a compiled pattern; symbolic subjects use Matcher."""

    def __init__(self, native):
        self._n = native
        self.pattern = native.pattern
        self.flags = native.flags
        self.groups = native.groups
        self.groupindex = native.groupindex
        self._isb = isinstance(native.pattern, bytes)
        self._tree = None

    def __repr__(self):
        return repr(self._n)

    def __eq__(self, o):
        return isinstance(o, SPattern) and o._n == self._n

    def __hash__(self):
        return hash(self._n)

    def _sub(self, s):
        """native subject or None"""
        if isinstance(s, Seq):
            if s._els is None:
                s.els
            if all_concrete(s.els):
                return s.concrete()
            if isinstance(s, SStr) == self._isb:
                raise TypeError("cannot use a string pattern on a bytes-like object")
            return None
        return s

    def tree(self):
        if self._tree is None:
            self._tree = P.parse(self.pattern, self.flags & ~(re.DEBUG))
        return self._tree

    def _at(self, s, i, full=False, els=None):
        m = Matcher(els, self.flags, self._isb)
        end = []

        def done(j):
            if full and j != m.n:
                return False
            end.append(j)
            return True

        if m.m(self.tree(), 0, i, done):
            return SMatch(self, s, i, end[0], dict(m.groups), self._isb)
        return None

    def match(self, s, pos=0, endpos=None):
        n = self._sub(s)
        if n is not None:
            return self._n.match(n, pos) if endpos is None else self._n.match(n, pos, endpos)
        els = s.els if endpos is None else s.els[:endpos]
        return self._at(s, pos, False, els)

    def fullmatch(self, s, pos=0):
        n = self._sub(s)
        if n is not None:
            return self._n.fullmatch(n, pos)
        return self._at(s, pos, True, s.els)

    def search(self, s, pos=0):
        n = self._sub(s)
        if n is not None:
            return self._n.search(n, pos)
        for i in range(pos, len(s.els) + 1):
            r = self._at(s, i, False, s.els)
            if r is not None:
                return r
        return None

    def finditer(self, s, pos=0):
        n = self._sub(s)
        if n is not None:
            yield from self._n.finditer(n, pos)
            return
        i = pos
        while i <= len(s.els):
            r = self._at(s, i, False, s.els)
            if r is None:
                i += 1
                continue
            yield r
            i = r.end() if r.end() > r.start() else r.end() + 1

    def findall(self, s, pos=0):
        out = []
        for m in self.finditer(s, pos):
            if self.groups == 0:
                out.append(m.group(0))
            elif self.groups == 1:
                out.append(m.group(1) if m.group(1) is not None else "")
            else:
                out.append(tuple("" if g is None else g for g in m.groups()))
        return out

    def split(self, s, maxsplit=0):
        n = self._sub(s)
        if n is not None:
            return self._n.split(n, maxsplit)
        out = []
        last = 0
        mk = mkbytes if self._isb else mkstr
        for k, m in enumerate(self.finditer(s)):
            if maxsplit and k >= maxsplit:
                break
            out.append(mk(s.els[last : m.start()]))
            out.extend(m.groups())
            last = m.end()
        out.append(mk(s.els[last:]))
        return out

    def subn(self, repl, s, count=0):
        n = self._sub(s)
        if n is not None and not callable(repl) and not isinstance(repl, Seq):
            return self._n.subn(repl, n, count)
        if n is not None:
            s2 = els_of(n)
        else:
            s2 = s.els
        out = []
        last = 0
        k = 0
        for m in self.finditer(s):
            if count and k >= count:
                break
            k += 1
            out.extend(s2[last : m.start()])
            if callable(repl):
                out.extend(els_of(repl(m)))
            else:
                if "\\" in repl if isinstance(repl, str) else b"\\" in repl:
                    raise Unsupported("template replacement")
                out.extend(els_of(repl))
            last = m.end()
        out.extend(s2[last:])
        return (mkbytes if self._isb else mkstr)(out), k

    def sub(self, repl, s, count=0):
        return self.subn(repl, s, count)[0]


def make_re_module():
    m = types.ModuleType("re")
    for k in dir(re):
        if not k.startswith("__"):
            setattr(m, k, getattr(re, k))

    def compile(p, flags=0):  # noqa: A001
        if isinstance(p, SPattern):
            return p
        if isinstance(p, Seq):
            p = p.concrete()
            if isinstance(p, bytearray):
                p = bytes(p)
        return SPattern(re.compile(p, flags))

    m.compile = compile
    for name in ("match", "fullmatch", "search", "split", "findall", "finditer"):
        setattr(m, name, (lambda nm: lambda p, s, flags=0, **k: getattr(compile(p, flags), nm)(s, **k))(name))
    m.sub = lambda p, r, s, count=0, flags=0: compile(p, flags).sub(r, s, count)
    m.subn = lambda p, r, s, count=0, flags=0: compile(p, flags).subn(r, s, count)
    m.Pattern = SPattern
    m.Match = SMatch
    return m
