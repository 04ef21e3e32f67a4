"""Integers as polynomials over symbols of known range.

An abstract integer is a polynomial whose atoms are symbols (an extent, a
stride, an offset: a whole range of integers), quotients rounded down and
positive parts; equal integers have equal normal forms.  A comparison is
decided by the ranges of the symbols, by the assumptions of the class and by
the comparisons the path has already taken, and is followed both ways
otherwise."""

import itertools
import random

from .values import *  # noqa
from .values import K, Q, T, Lst, TRUE, FALSE, NONE, freeze, show


# ------------------------------------------------------------- polynomials
def padd(a, b, f=1):
    r = dict(a)
    for m, c in b.items():
        r[m] = r.get(m, 0) + f * c
    return {m: c for m, c in r.items() if c}


def pmul(a, b):
    r = {}
    for (m, c), (n, d) in itertools.product(a.items(), b.items()):
        k = tuple(sorted(m + n, key=repr))
        r[k] = r.get(k, 0) + c * d
    return {m: c for m, c in r.items() if c}


def const(a):
    """The value of a constant polynomial, else None."""
    return 0 if not a else a[()] if set(a) == {()} else None


def lead(a):
    """The sign of the first monomial that is not constant."""
    ms = sorted((m for m in a if m), key=repr)
    return 1 if not ms or a[ms[0]] > 0 else -1


def term(a):
    c = const(a)
    if c is not None:
        return K(c)
    if len(a) == 1:
        (m, c), = a.items()
        if c == 1 and len(m) == 1:
            return m[0]
    return T("poly", *[T("mono", K(c), *m) for m, c in sorted(a.items(), key=repr)])


ATOMS = {"sym", "fdiv", "pos", "trunc", "ceil"}


def poly(v):
    if isinstance(v, N):
        return v.p
    if isinstance(v, int):
        return {(): int(v)} if v else {}
    if isinstance(v, K) and isinstance(v.v, int):
        return {(): int(v.v)} if v.v else {}
    if isinstance(v, T):
        if v.op == "poly":
            return {m.args[1:]: m.args[0].v for m in v.args}
        if v.op in ATOMS:
            return {(v,): 1}
        if v.op == "neg":
            a = poly(v.args[0])
            return None if a is None else padd({}, a, -1)
        if v.op == "int" and len(v.args) == 1 and isinstance(v.args[0], T) and v.args[0].op in ("ge0", "eq0", "not"):
            return None
    return None


def pshow(a):
    if not a:
        return "0"

    def at(x):
        if x.op == "sym":
            return x.args[0].v
        if x.op == "fdiv":
            return f"({pshow(poly(x.args[0]))})//({pshow(poly(x.args[1]))})"
        if x.op == "pos":
            return f"max(0, {pshow(poly(x.args[0]))})"
        return show(x)

    return " + ".join("*".join(([str(c)] if c != 1 or not m else []) + [at(x) for x in m]) for m, c in sorted(a.items(), key=repr))


class N:
    """A polynomial with operators, for stating expected extents."""

    def __init__(self, p):
        self.p = p if isinstance(p, dict) else poly(p)

    def __add__(self, o):
        return N(padd(self.p, poly(o)))

    __radd__ = __add__

    def __sub__(self, o):
        return N(padd(self.p, poly(o), -1))

    def __rsub__(self, o):
        return N(padd(poly(o), self.p, -1))

    def __mul__(self, o):
        return N(pmul(self.p, poly(o)))

    __rmul__ = __mul__

    def __neg__(self):
        return N(padd({}, self.p, -1))

    def t(self):
        return term(self.p)

    def __repr__(self):
        return pshow(self.p)


class Domain:
    """Symbols with their ranges, and what is assumed of them."""

    def __init__(self):
        self.range, self.nonneg, self.nonzero, self.step = {}, [], [], {}

    def sym(self, n, lo=0, hi=None):
        v = T("sym", K(n))
        self.range[v] = (lo, hi)
        return N({(v,): 1})

    def assume(self, p):
        """p >= 0"""
        self.nonneg.append(poly(p))

    def differ(self, a, b):
        self.nonzero.append(padd(poly(a), poly(b), -1))

    # -------------------------------------------------------------- ranges
    def bounds(self, a):
        lo = hi = 0
        for m, c in a.items():
            l, h = c, c
            for x in m:
                xl, xh = self.atom(x)
                ps = [None if p is None or q is None else p * q for p in (l, h) for q in (xl, xh)]
                if l is not None and l >= 0 and xl is not None and xl >= 0:
                    l, h = l * xl, None if h is None or xh is None else h * xh
                elif h is not None and h <= 0 and xl is not None and xl >= 0:
                    l, h = None if l is None or xh is None else l * xh, h * xl
                elif None in ps:
                    l = h = None
                else:
                    l, h = min(ps), max(ps)
            lo = None if lo is None or l is None else lo + l
            hi = None if hi is None or h is None else hi + h
        return lo, hi

    def atom(self, x):
        if x.op == "sym":
            return self.range.get(x, (None, None))
        if x.op == "pos":
            l, h = self.bounds(poly(x.args[0]))
            return (max(0, l) if l is not None else 0), (max(0, h) if h is not None else None)
        if x.op == "fdiv":
            n, d = poly(x.args[0]), poly(x.args[1])
            (nl, nh), (dl, dh) = self.bounds(n), self.bounds(d)
            if dl is not None and dl > 0:
                lo = None if nl is None else (nl // dh if dh is not None else 0) if nl >= 0 else nl // dl
                hi = None if nh is None else nh // dl if nh >= 0 else (nh // dh if dh is not None else -1)
                return lo, hi
        return None, None

    # ------------------------------------------------------------- algebra
    def pos(self, a, known=()):
        """max(0, a)"""
        if self.ge0(a, known):
            return a
        if self.ge0(padd({}, a, -1), known):
            return {}
        if lead(a) < 0:  # max(0, a) = a + max(0, -a)
            n = padd({}, a, -1)
            return padd(a, {(T("pos", term(n)),): 1})
        return {(T("pos", term(a)),): 1}

    def max(self, a, b, known=()):
        return padd(b, self.pos(padd(a, b, -1), known))

    def min(self, a, b, known=()):
        return padd(a, self.pos(padd(a, b, -1), known), -1)

    def fdiv(self, a, b):
        c = const(b)
        if c == 0:
            return None
        if c is not None:
            if c < 0:
                a, c = padd({}, a, -1), -c
            b = {(): c}
            q = {m: k // c for m, k in a.items() if m and k % c == 0}
            rest = {m: k for m, k in a.items() if m and k % c}
            k = a.get((), 0)
            if not rest:
                return padd(q, {(): k // c} if k // c else {})
            q = padd(q, {(): k // c} if k // c else {})
            rest = padd(rest, {(): k % c} if k % c else {})
            l, h = self.bounds(rest)
            if l is not None and h is not None and l // c == h // c:
                return padd(q, {(): l // c} if l // c else {})
            return padd(q, {(T("fdiv", term(rest), K(c)),): 1})
        if len(b) == 1:  # a monomial: what it divides comes out
            (m, k), = b.items()
            q, rest = {}, {}
            for n, c in a.items():
                left = list(n)
                ok = c % k == 0
                for x in m:
                    if x in left:
                        left.remove(x)
                    else:
                        ok = False
                (q if ok else rest)[tuple(left) if ok else n] = c // k if ok else c
            l, _ = self.bounds(b)
            if l is not None and l > 0:
                if not rest:
                    return q
                rl, rh = self.bounds(padd(rest, b, -1))
                if self.ge0(rest) and rh is not None and rh < 0:
                    return q
                return padd(q, {(T("fdiv", term(rest), term(b)),): 1})
        if lead(a) < 0 and not self.ge0(a) and False:
            pass
        return {(T("fdiv", term(a), term(b)),): 1}

    def mod(self, a, b):
        q = self.fdiv(a, b)
        return None if q is None else padd(a, pmul(q, b), -1)

    # ----------------------------------------------------------- decisions
    def known(self, fd):
        out = [(g, True) for g in self.nonneg]
        for atom, v in fd.items():
            if isinstance(atom, T) and atom.op == "ge0":
                p = poly(atom.args[0])
                out.append((p if v else padd({(): -1}, p, -1), True))
            elif isinstance(atom, T) and atom.op == "eq0":
                p = poly(atom.args[0])
                if v:
                    out += [(p, True), (padd({}, p, -1), True)]
        return [g for g, _ in out]

    def ge0(self, a, known=()):
        """a >= 0 in every case"""
        lo, _ = self.bounds(a)
        if lo is not None and lo >= 0:
            return True
        kn = list(known)
        for g in kn:
            l, _ = self.bounds(padd(a, g, -1))
            if l is not None and l >= 0:
                return True
        if len(kn) <= 12:
            for g, h in itertools.combinations(kn, 2):
                l, _ = self.bounds(padd(padd(a, g, -1), h, -1))
                if l is not None and l >= 0:
                    return True
        return False

    def sign(self, a, fd):
        """True: a >= 0, False: a < 0, None: either"""
        kn = self.known(fd)
        if self.ge0(a, kn):
            return True
        if self.ge0(padd({(): -1}, a, -1), kn):
            return False
        return None

    def zero(self, a, fd):
        c = const(a)
        if c is not None:
            return c == 0
        kn = self.known(fd)
        n = padd({}, a, -1)
        one = {(): 1}
        if self.ge0(padd(a, one, -1), kn) or self.ge0(padd(n, one, -1), kn):
            return False
        for z in self.nonzero:
            if z == a or z == n:
                return False
        for atom, v in fd.items():
            if isinstance(atom, T) and atom.op == "eq0" and not v and poly(atom.args[0]) in (a, n):
                return False
        if self.ge0(a, kn) and self.ge0(n, kn):
            return True
        return None

    # ------------------------------------------------------------ the hooks
    def install(self, models):
        models["__binop__"] = self.h_binop
        models["__compare__"] = self.h_compare
        models["__builtin__"] = self.h_builtin
        models["__equal__"] = True
        models["math.ceil"] = lambda it, r, a, k, n: self.rounded("ceil", it.resolve(a[0]))
        models["math.floor"] = lambda it, r, a, k, n: self.rounded("floor", it.resolve(a[0]))
        models["math.prod"] = lambda it, r, a, k, n: self.total(it, a[0], {(): 1}, pmul)
        return models

    def kind(self, v):
        """what sort of Python value this is: "int", "list", "None", "str"; None when not known"""
        if isinstance(v, Lst):
            return v.kind if v.kind in ("list", "tuple") else None
        if isinstance(v, K):
            return "None" if v.v is None else "str" if isinstance(v.v, str) else "int" if isinstance(v.v, (int, float)) else None
        if not isinstance(v, T):
            return None
        if v.op in ("fmul", "frac", "trunc"):
            return "int"
        return "int" if poly(v) is not None else None

    def mistyped(self, it, name, a, b):
        """Python refuses the operation"""
        x, y = self.kind(a), self.kind(b)
        if x is None or y is None or x == y == "int" or name not in ("add", "sub", "mul", "floordiv", "mod", "truediv", "pow", "lt", "le", "gt", "ge"):
            return
        if name == "mod" and x == "str":
            return
        if name == "add" and x == y and x != "None":
            return
        if name == "mul" and {x, y} in ({"list", "int"}, {"tuple", "int"}, {"str", "int"}):
            return
        if name in ("lt", "le", "gt", "ge") and x == y and x != "None":
            return
        it.raise_("TypeError")

    def h_binop(self, it, name, a, b):
        self.mistyped(it, name, a, b)
        if isinstance(a, K) and isinstance(b, K):
            return None
        x, y = poly(a), poly(b)
        if x is None or y is None:
            f, z = (a, y) if x is None else (b, x)
            if name == "mul" and isinstance(f, K) and isinstance(f.v, float) and z is not None:
                # a float that is a small fraction, exactly
                try:
                    num, den = f.v.as_integer_ratio()
                except (OverflowError, ValueError):
                    num, den = 0, 0
                if 0 < den <= 64 and abs(num) <= 4096:
                    return T("frac", term(pmul(z, poly(num))), K(den))
            if name == "mul" and (x is None) != (y is None) and not isinstance(a, Lst) and not isinstance(b, Lst):
                return T("fmul", *sorted([freeze(a), freeze(b)], key=repr))
            return None
        if name == "add":
            return term(padd(x, y))
        if name == "sub":
            return term(padd(x, y, -1))
        if name == "mul":
            return term(pmul(x, y))
        if name in ("floordiv", "mod"):
            z = self.zero(y, it.fd)
            if z is None and const(y) is None:
                z = it.truth(T("eq0", term(y if lead(y) > 0 else padd({}, y, -1))), None)
            if z:
                it.raise_("ZeroDivisionError")
            r = self.fdiv(x, y) if name == "floordiv" else self.mod(x, y)
            return None if r is None else term(r)
        if name == "truediv":
            c = const(y)
            if c == 1:
                return term(x)
            return T("frac", term(x), term(y))
        if name == "pow" and const(y) is not None and 0 <= const(y) <= 4:
            r = {(): 1}
            for _ in range(const(y)):
                r = pmul(r, x)
            return term(r)
        return None

    def rounded(self, how, v):
        if isinstance(v, K):
            import math
            return K(getattr(math, how)(v.v))
        p = poly(v)
        if p is not None:
            return term(p)
        if isinstance(v, T) and v.op == "frac":
            a, b = poly(v.args[0]), poly(v.args[1])
            if how == "ceil":
                r = self.fdiv(padd({}, a, -1), b)
                return None if r is None else term(padd({}, r, -1))
            r = self.fdiv(a, b)
            return None if r is None else term(r)
        return None

    def total(self, it, seq, start, op):
        seq = it.resolve(seq)
        if not isinstance(seq, Lst):
            return None
        r = start
        for x in seq.items:
            p = poly(freeze(it.resolve(x)))
            if p is None:
                return None
            r = op(r, p)
        return term(r)

    def h_builtin(self, it, n, a, kw, node):
        if n in ("min", "max") and a and not kw:
            xs = a[0].items if len(a) == 1 and isinstance(a[0], Lst) else a if len(a) > 1 else []
            ps = [poly(freeze(it.resolve(x))) for x in xs]
            if not ps or None in ps:
                return None
            kn = self.known(it.fd)
            r = ps[0]
            for p in ps[1:]:
                r = (self.max if n == "max" else self.min)(r, p, kn)
            return term(r)
        if n == "sum" and len(a) == 1:
            return self.total(it, a[0], {}, padd)
        if n == "abs" and len(a) == 1 and not isinstance(a[0], K):
            p = poly(freeze(a[0]))
            if p is not None:
                kn = self.known(it.fd)
                return term(padd(self.pos(p, kn), self.pos(padd({}, p, -1), kn)))
        if n == "int" and len(a) == 1 and not isinstance(a[0], K):
            v = freeze(a[0])
            p = poly(v)
            if p is not None:
                return term(p)
            if isinstance(v, T) and v.op in ("ge0", "eq0", "not"):
                return K(1 if it.truth(v, node) else 0)
            if isinstance(v, T) and v.op == "frac":
                x, y = poly(v.args[0]), poly(v.args[1])
                if x is not None and y is not None and self.ge0(x, self.known(it.fd)) is True and self.ge0(y, self.known(it.fd)) is True:
                    return self.rounded("floor", v)
            if isinstance(v, T) and v.op in ("fmul", "frac"):
                return T("trunc", v)
        if n == "bool" and len(a) == 1 and not isinstance(a[0], K):
            p = poly(freeze(a[0]))
            if p is not None:
                r = self.h_compare(it, "ne", a[0], K(0))
                return r
        if n == "divmod" and len(a) == 2 and not all(isinstance(x, K) for x in a):
            q, r = self.h_binop(it, "floordiv", a[0], a[1]), self.h_binop(it, "mod", a[0], a[1])
            return None if q is None or r is None else Lst([q, r], "tuple")
        return None

    def h_compare(self, it, op, a, b):
        a, b = it.resolve(a), it.resolve(b)
        if isinstance(a, Lst) and isinstance(b, Lst) and op in ("eq", "ne") and (a.kind == "tuple") == (b.kind == "tuple"):
            if len(a.items) != len(b.items):
                return K(op == "ne")
            for x, y in zip(a.items, b.items):
                if not it.truth(it.compare("eq", x, y, None), None):
                    return K(op == "ne")
            return K(op == "eq")
        self.mistyped(it, op, a, b)
        if isinstance(a, K) and isinstance(b, K):
            return None
        fa, fb = freeze(a), freeze(b)
        if op in ("is", "isnot"):
            for x, y in ((fa, fb), (fb, fa)):
                if y == NONE and poly(x) is not None:
                    return K(op == "isnot")
            return None
        x, y = poly(fa), poly(fb)
        if x is None or y is None:
            if op in ("eq", "ne") and ((x is not None and fb == NONE) or (y is not None and fa == NONE)):
                return K(op == "ne")
            return None
        d = padd(x, y, -1)
        if op in ("eq", "ne"):
            z = self.zero(d, it.fd)
            if z is not None:
                return K(z == (op == "eq"))
            at = T("eq0", term(d if lead(d) > 0 else padd({}, d, -1)))
            return at if op == "eq" else T("not", at)
        if op in ("gt", "le"):  # d > 0 is d - 1 >= 0
            d = padd(d, {(): 1}, -1)
        s = self.sign(d, it.fd)
        want = op in ("ge", "gt")
        if s is not None:
            return K(s == want)
        if lead(d) < 0:  # d >= 0 is not (-d - 1 >= 0)
            d, want = padd({(): -1}, d, -1), not want
        at = T("ge0", term(d))
        return at if want else T("not", at)

    # ------------------------------------------------------------ witnesses
    def value(self, v, env):
        """The integer a term has under an assignment; None if it has none."""
        r = 0
        for m, c in (v if isinstance(v, dict) else poly(v)).items():
            for x in m:
                if x.op == "sym":
                    k = env.get(x)
                elif x.op == "pos":
                    k = self.value(x.args[0], env)
                    k = None if k is None else max(0, k)
                elif x.op == "fdiv":
                    n, d = self.value(x.args[0], env), self.value(x.args[1], env)
                    k = None if n is None or not d else n // d
                else:
                    k = None
                if k is None:
                    return None
                c *= k
            r += c
        return r

    def holds(self, facts, env):
        for atom, v in facts:
            if isinstance(atom, T) and atom.op in ("ge0", "eq0"):
                k = self.value(atom.args[0], env)
                if k is None or ((k >= 0) if atom.op == "ge0" else (k == 0)) != v:
                    return False
        for p in self.nonneg:
            k = self.value(p, env)
            if k is None or k < 0:
                return False
        for p in self.nonzero:
            k = self.value(p, env)
            if k is None or k == 0:
                return False
        return True

    def assignments(self, n=6000, wide=5):
        syms = sorted(self.range, key=repr)
        rs = []
        for s in syms:
            lo, hi = self.range[s]
            lo = -4 if lo is None else lo
            hi = lo + wide if hi is None else min(hi, lo + 2 * wide)
            rs.append(range(lo, hi + 1))
        total = 1
        for r in rs:
            total *= len(r)
        if total <= n:
            for xs in itertools.product(*rs):
                yield dict(zip(syms, xs))
            return
        rnd = random.Random(1)
        for _ in range(n):
            yield {s: rnd.choice(r) for s, r in zip(syms, rs)}

    def witness(self, facts, differ=None):
        """An assignment under which the path is taken (and `differ` holds)."""
        for env in self.assignments():
            if self.holds(facts, env) and (differ is None or differ(env)):
                return {s.args[0].v: x for s, x in env.items()}
        return None
