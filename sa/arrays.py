"""Tensors and numpy arrays of known extents whose elements are opaque, distinct values.

Every operation that is modelled states which element of its operand each element
of its result is; anything else is an opaque call, about which nothing is decided."""

import itertools

from .values import *  # noqa
from .values import K, Q, T, Lst, NONE, freeze
from .irworld import obj


def size(shape):
    n = 1
    for s in shape:
        n *= s
    return n


def nest(shape, elems):
    if not shape:
        return elems[0]
    n = size(shape[1:])
    return Lst([nest(shape[1:], elems[i * n:(i + 1) * n]) for i in range(shape[0])])


class Arrays:
    def __init__(self, w):
        self.w, self.tensors, self.store = w, {}, {}
        m = w.models
        m["__compare__"], m["__index__"], m["__getattr__"] = self.compare, self.index, self.getattr
        for f in ("array", "asarray", "ascontiguousarray", "asanyarray", "copy"):
            m["numpy." + f] = self.array
        for f in ("reshape", "ravel", "transpose", "squeeze", "all", "any", "broadcast_to", "atleast_1d", "size", "shape", "ndim", "full", "array_equal", "unique", "expand_dims"):
            m["numpy." + f] = lambda it, recv, args, kw, node, f=f: self.call(it, f, args[0], args[1:], kw) if args else None
        for f in ("astype", "view", "reshape", "ravel", "flatten", "copy", "tolist", "all", "any", "transpose", "squeeze", "item", "numel", "size", "dim", "unsqueeze", "expand",
                  "detach", "cpu", "contiguous", "clone", "numpy", "permute", "t"):
            prev = m.get("." + f)
            m["." + f] = lambda it, recv, args, kw, node, f=f, prev=prev: self.meth(it, f, recv, args, kw, node, prev)

    def tensor(self, t, shape, elems=None, dtype="torch.float32"):
        """The contents of the torch tensor `t`."""
        n = t.args[0].v
        self.tensors[t] = (tuple(shape), list(elems) if elems else [T("obj", K("element"), K(n), K(i)) for i in range(size(shape))], "torch")

    # ------------------------------------------------------------ contents
    def new(self, it, shape, elems, kind="numpy"):
        c = self.store.setdefault(id(it.path), (it.path, {}))[1]
        t = T("obj", K("array"), K(len(c)))
        c[t] = (tuple(shape), list(elems), kind)
        it.types[t] = "numpy.ndarray" if kind == "numpy" else "torch.Tensor"
        if shape:
            it.counts[t] = shape[0]
        return t

    def get(self, it, v):
        v = freeze(it.resolve(v))
        while isinstance(v, T) and v.op == "copy":
            v = v.args[0]
        return self.of_path(it.path, v)

    def of_path(self, path, v):
        """(extents, elements, kind) of an array of a path, or None."""
        if v in self.tensors:
            return self.tensors[v]
        return self.store.get(id(path), (None, {}))[1].get(v)

    def ints(self, it, args):
        xs = [it.resolve(a) for a in args]
        if len(xs) == 1 and isinstance(xs[0], Lst):
            xs = [it.resolve(a) for a in xs[0].items]
        elif len(xs) == 1 and isinstance(xs[0], T) and xs[0].op in ("tuple", "list", "ilist"):
            xs = [it.resolve(a) for a in xs[0].args]
        return [x.v for x in xs] if all(isinstance(x, K) and isinstance(x.v, int) for x in xs) else None

    # ------------------------------------------------------------ hooks
    def getattr(self, it, o, name, node):
        c = self.get(it, o)
        if c is None:
            return None
        if c[2] == "torch":
            return None
        sh, el, _ = c
        tup = lambda xs: Lst([K(x) for x in xs], "tuple")
        if name == "shape":
            return tup(sh)
        if name == "size":
            return K(len(el))
        if name == "ndim":
            return K(len(sh))
        if name == "flat":
            return Lst(list(el))
        if name == "T":
            return self.call(it, "transpose", o, [], {})
        return None

    def compare(self, it, name, a, b):
        if name not in ("eq", "ne"):
            return None
        x, y = self.get(it, a), self.get(it, b)
        if x is None and y is None:
            a, b = freeze(it.resolve(a)), freeze(it.resolve(b))
            if all(isinstance(z, T) and z.op == "obj" and z.args[0] == K("element") for z in (a, b)):
                return K((a == b) == (name == "eq"))
            return None
        if x is None or y is None:
            o, s = (x, b) if x is not None else (y, a)
            s = freeze(it.resolve(s))
            out = [self.same(e, s) for e in o[1]]
            sh = o[0]
        else:
            if x[0] != y[0]:
                return None
            out = [self.same(e, f) for e, f in zip(x[1], y[1])]
            sh = x[0]
        if None in out:
            return None
        return self.new(it, sh, [K(o == (name == "eq")) for o in out])

    @staticmethod
    def same(a, b):
        if a == b:
            return True
        known = lambda z: isinstance(z, K) or isinstance(z, T) and z.op == "obj" and z.args[0] == K("element")
        if not known(a) or not known(b) or isinstance(a, K) != isinstance(b, K):
            return None
        return False

    def index(self, it, b, k, node):
        c = self.get(it, b)
        if c is None:
            return None
        ks = list(k.items) if isinstance(k, Lst) else list(k.args) if isinstance(k, T) and k.op == "tuple" else [k]
        ks = [it.resolve(x) for x in ks]
        sh, el, kind = c
        if len(ks) > len(sh):
            return None
        pick, out = [], []
        for i, s in enumerate(sh):
            x = ks[i] if i < len(ks) else T("slice", NONE, NONE, NONE)
            if isinstance(x, K) and isinstance(x.v, int) and not isinstance(x.v, bool):
                if not -s <= x.v < s:
                    it.raise_("IndexError", [x], node)
                pick.append([x.v % s])
            elif isinstance(x, T) and x.op == "slice" and all(isinstance(y, K) for y in x.args):
                r = list(range(s))[slice(*[y.v for y in x.args])]
                pick.append(r)
                out.append(len(r))
            else:
                return None
        r = [el[self.offset(sh, p)] for p in itertools.product(*pick)]
        if not out and kind == "numpy":
            return r[0]
        return self.new(it, out, r, kind)

    @staticmethod
    def offset(sh, p):
        o = 0
        for s, i in zip(sh, p):
            o = o * s + i
        return o

    # ------------------------------------------------------------ operations
    def array(self, it, recv, args, kw, node):
        if not args:
            return None
        c = self.get(it, args[0])
        if c is not None:
            return self.new(it, c[0], c[1])
        v = it.resolve(args[0])
        if isinstance(v, T) and v.op == "obj" and v.args[0] == K("element") or isinstance(v, K) and isinstance(v.v, (bool, int, float)):
            return self.new(it, (), [v])
        shape = []
        cur = [v]
        while cur and isinstance(cur[0], Lst):
            if any(not isinstance(x, Lst) or len(x.items) != len(cur[0].items) for x in cur):
                return None
            shape.append(len(cur[0].items))
            cur = [it.resolve(y) for x in cur for y in x.items]
        if not shape or not all(isinstance(x, (K, T)) for x in cur):
            return None
        return self.new(it, shape, [freeze(x) for x in cur])

    def meth(self, it, f, recv, args, kw, node, prev):
        r = self.call(it, f, recv, args, kw)
        return r if r is not None or prev is None else prev(it, recv, args, kw, node)

    def call(self, it, f, o, args, kw):
        c = self.get(it, o)
        if c is None:
            return None
        sh, el, kind = c
        new = lambda s, e, k=kind: self.new(it, s, e, k)
        if f in ("astype", "copy", "detach", "cpu", "contiguous", "clone") or f == "view" and kind == "numpy":
            return new(sh, el)
        if f == "numpy":
            return new(sh, el, "numpy")
        if f == "tolist":
            return nest(sh, el)
        if f in ("numel", "item", "dim", "ndim") or f == "size" and (kind == "numpy" or not args):
            if f == "item":
                return el[0] if len(el) == 1 else None
            if f == "size" and kind == "torch":
                return Lst([K(x) for x in sh], "tuple")
            return K(len(sh)) if f in ("dim", "ndim") else K(len(el))
        if f == "shape":
            return Lst([K(x) for x in sh], "tuple")
        if f in ("ravel", "flatten") and not args:
            return new([len(el)], el)
        if f in ("reshape", "view"):
            s = self.ints(it, args or [kw[k] for k in ("shape", "newshape") if k in kw])
            if s is None or s.count(-1) > 1 or set(kw) - {"shape", "newshape"}:
                return None
            if -1 in s:
                n = size([x for x in s if x != -1])
                if not n or len(el) % n:
                    return None
                s[s.index(-1)] = len(el) // n
            return new(s, el) if size(s) == len(el) else None
        if f in ("transpose", "permute", "t"):
            perm = self.ints(it, args) if args else list(range(len(sh)))[::-1]
            if f == "transpose" and kind == "torch" and perm and len(perm) == 2:
                a, b = perm[0] % len(sh), perm[1] % len(sh)
                perm = list(range(len(sh)))
                perm[a], perm[b] = b, a
            if perm is None or sorted(perm) != list(range(len(sh))):
                return None
            out = [sh[p] for p in perm]
            r = []
            for q in itertools.product(*map(range, out)):
                src = [0] * len(sh)
                for i, p in enumerate(perm):
                    src[p] = q[i]
                r.append(el[self.offset(sh, src)])
            return new(out, r)
        if f == "squeeze" and not args and not kw:
            return new([s for s in sh if s != 1], el)
        if f == "atleast_1d":
            return new(sh or [1], el)
        if f in ("broadcast_to", "expand"):
            s = self.ints(it, args)
            if s is None or len(s) < len(sh):
                return None
            src = [1] * (len(s) - len(sh)) + list(sh)
            s = [b if a == -1 else a for a, b in zip(s, src)]
            if any(b not in (1, a) for a, b in zip(s, src)):
                return None
            return new(s, [el[self.offset(src, [0 if b == 1 else i for i, b in zip(q, src)])] for q in itertools.product(*map(range, s))])
        if f in ("all", "any") and not args and not kw:
            if all(isinstance(x, K) for x in el):
                return K((all if f == "all" else any)(x.v for x in el))
            return None
        if f == "unique" and not args and not kw:
            return new([len(set(el))], sorted(set(el), key=repr))
        if f == "array_equal":
            d = self.get(it, args[0]) if args else None
            if d is None or d[0] != sh:
                return None
            out = [self.same(a, b) for a, b in zip(el, d[1])]
            return None if None in out else K(all(out))
        return None
