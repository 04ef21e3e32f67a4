"""Executes functions of the embedded shape and dtype library on given numbers (for demonstrations).

Values are used with the types they are defined with, as the verifier of the dialect demands."""
import math, re

SRC = "lib/Dialect/Torch/Transforms/AbstractInterpLibrary.cpp"


class Invalid(Exception):
    pass


class Raised(Exception):
    pass


def text(path=SRC):
    out = []
    for line in open(path, encoding="utf-8"):
        m = re.match(r'^"(.*)\\n"', line.rstrip())
        if m:
            out.append(m[1].replace('\\"', '"').replace("\\\\", "\\"))
    return out


def split(s):
    out, d, c = [], 0, ""
    for ch in s:
        if ch in "<(":
            d += 1
        if ch in ">)":
            d -= 1
        if ch == "," and d == 0:
            out.append(c.strip())
            c = ""
        else:
            c += ch
    return out + [c.strip()] if c.strip() else out


def types(s):
    s = s.strip()
    return split(s[1:-1]) if s.startswith("(") else split(s)


class Lib:
    def __init__(self):
        self.fns, L, i = {}, text(), 0
        while i < len(L):
            m = re.match(r'  func\.func @"?([^"(]+)"?\((.*)\) -> (.+) \{$', L[i])
            if m:
                j = next(k for k in range(i, len(L)) if L[k] == "  }")
                assert m[1] not in self.fns, m[1]
                args = [a.split(": ", 1) for a in split(m[2])]
                self.fns[m[1]] = (args, types(m[3]), self.block(L[i + 1:j]))
                i = j
            i += 1

    def block(self, L):
        """lines -> [(line, [sub-blocks])]"""
        out, i = [], 0
        while i < len(L):
            if L[i].endswith("{"):
                d = re.match(" *", L[i])[0]
                subs, cur, head = [], [], L[i]
                i += 1
                while not L[i].startswith(d + "}"):
                    cur.append(L[i])
                    i += 1
                subs.append(self.block(cur))
                if L[i].startswith(d + "} else {"):
                    cur = []
                    i += 1
                    while not L[i].startswith(d + "}"):
                        cur.append(L[i])
                        i += 1
                    subs.append(self.block(cur))
                out.append((head.strip() + " " + L[i].strip(), subs))
            else:
                out.append((L[i].strip(), []))
            i += 1
        return out

    def verify(self):
        """Every value is defined before its uses and used with its type; every callee exists."""
        for n, (args, res, body) in self.fns.items():
            try:
                self.check(body, {a: t for a, t in args}, res)
            except Invalid as e:
                raise Invalid(f"{n}: {e}")

    def use(self, env, ops, ts, line):
        if len(ops) != len(ts):
            raise Invalid(f"{len(ops)} operands, {len(ts)} types: {line}")
        for o, t in zip(ops, ts):
            if env.get(o) != t:
                raise Invalid(f"{o} is {env.get(o)}, used as {t}: {line}")

    def define(self, env, names, ts, line):
        m = re.match(r"(%[\w-]+):(\d+)$", names)
        if m:
            names = [f"{m[1]}#{k}" for k in range(int(m[2]))]
        else:
            names = [names]
        if len(names) != len(ts):
            raise Invalid(f"{len(names)} results, {len(ts)} types: {line}")
        for n, t in zip(names, ts):
            if n in env:
                raise Invalid(f"{n} is defined twice: {line}")
            env[n] = t

    def check(self, body, env, res, yields=None):
        for line, subs in body:
            lhs, op = line.split(" = ", 1) if re.match(r"%[\w:-]+ = ", line) else (None, line)
            op = op.removeprefix("func.")
            k = re.split(r"[ (]", op)[0]
            if op.startswith("^bb0("):
                for a in split(op[5:op.rindex(")")]):
                    n, t = a.split(": ", 1)
                    env[n] = t
            elif k == "return":
                a, t = op[7:].split(" : ", 1) if " : " in op else ("", "")
                self.use(env, split(a), types(t), line)
                if types(t) != res:
                    raise Invalid(f"returns {t}: {line}")
            elif k in ("torch.prim.If.yield", "torch.prim.Loop.condition"):
                a = op[len(k):].strip()
                if k.endswith("condition"):
                    c, a = a.split(", iter(", 1)
                    self.use(env, [c], ["!torch.bool"], line)
                    a = a[:-1]
                a, t = a.split(" : ", 1) if " : " in a else ("", "")
                self.use(env, split(a), types(t), line)
                if types(t) != yields:
                    raise Invalid(f"yields {t}, not {yields}: {line}")
            elif k == "torch.prim.If":
                m = re.match(r"torch\.prim\.If (%[\w#-]+) -> \((.*?)\) \{", op)
                self.use(env, [m[1]], ["!torch.bool"], line)
                for s in subs:
                    self.check(s, dict(env), res, split(m[2]))
                if lhs:
                    self.define(env, lhs, split(m[2]), line)
            elif k == "torch.prim.Loop":
                m = re.match(r"torch\.prim\.Loop (%[\w#-]+), (%[\w#-]+), init\((.*?)\) \{ \} : (\(.*?\)) -> (.*)$", op)
                ts = types(m[4])
                self.use(env, [m[1], m[2]] + split(m[3]), ts, line)
                if types(m[5]) != ts[2:]:
                    raise Invalid(line)
                if [a.split(": ", 1)[1] for a in split(subs[0][0][0][5:-2])] != ["!torch.int"] + ts[2:]:
                    raise Invalid(subs[0][0][0])
                self.check(subs[0], dict(env), res, ts[2:])
                if lhs:
                    self.define(env, lhs, ts[2:], line)
            elif k.startswith("torch.constant."):
                t = {"none": "none", "int": "int", "float": "float", "bool": "bool", "str": "str"}[k[15:]]
                self.define(env, lhs, ["!torch." + t], line)
            elif k == "call":
                m = re.match(r'call @"?([^"(]+)"?\((.*?)\) : (\(.*\)) -> (.*)$', op)
                if m[1] not in self.fns:
                    raise Invalid(f"no function {m[1]}: {line}")
                a, r, _ = self.fns[m[1]]
                if types(m[3]) != [t for _, t in a] or types(m[4]) != r:
                    raise Invalid(f"not the type of {m[1]}: {line}")
                self.use(env, split(m[2]), types(m[3]), line)
                self.define(env, lhs, r, line)
            elif k == "torch.prim.CreateObject":
                self.define(env, lhs, [op[len(k):].strip()], line)
            elif k == "torch.prim.CallMethod":
                self.define(env, lhs, types(op.rsplit(" -> ", 1)[1]), line)
            elif k == "torch.prim.Uninitialized":
                self.define(env, lhs, types(op.split(" : ", 1)[1]), line)
            else:
                if k == "torch.operator":
                    op = k + op[op.index("(", len(k)):]
                a, t = op[len(k):].split(" : ", 1)
                i, o = t.rsplit(" -> ", 1) if " -> " in t else t.split(" to ") if " to " in t else (t, "")
                self.use(env, types(a), types(i), line)
                if lhs:
                    self.define(env, lhs, types(o), line)

    def run(self, name, *args):
        a, _, body = self.fns[name]
        assert len(a) == len(args), (name, len(a))
        r = self.exec(body, {n: v for (n, _), v in zip(a, args)})
        return r[0] if len(r) == 1 else r

    def exec(self, body, env):
        for line, subs in body:
            lhs, op = line.split(" = ", 1) if re.match(r"%[\w:-]+ = ", line) else (None, line)
            op = op.removeprefix("func.")
            k = re.split(r"[ (]", op)[0]

            def vals(s):
                return [env[x] for x in split(s)]
            if op.startswith("^bb0("):
                continue
            if k in ("return", "torch.prim.If.yield", "torch.prim.Loop.condition"):
                a = op[len(k):].strip()
                if k.endswith("condition"):
                    c, a = a.split(", iter(", 1)
                    return [env[c]] + vals(a[:-1].split(" : ")[0])
                return vals(a.split(" : ")[0]) if " : " in a else []
            if k == "torch.prim.If":
                c = re.match(r"torch\.prim\.If (%[\w#-]+)", op)[1]
                r = self.exec(subs[0 if env[c] else 1], dict(env))
            elif k == "torch.prim.Loop":
                m = re.match(r"torch\.prim\.Loop (%[\w#-]+), (%[\w#-]+), init\((.*?)\) \{", op)
                n, c, r = env[m[1]], env[m[2]], vals(m[3])
                names = [x.split(": ")[0] for x in split(subs[0][0][0][5:-2])]
                i = 0
                while i < n and c:
                    e = dict(env)
                    e.update(zip(names, [i] + r))
                    c, *r = self.exec(subs[0], e)
                    i += 1
            elif k.startswith("torch.constant."):
                v = op[len(k):].strip()
                r = [{"none": lambda: None, "int": lambda: int(v), "float": lambda: float(v), "bool": lambda: v == "true", "str": lambda: v.strip('"')}[k[15:]]()]
            elif k == "call":
                m = re.match(r'call @"?([^"(]+)"?\((.*?)\) : ', op)
                r = self.run(m[1], *vals(m[2]))
                r = r if isinstance(r, list) and len(self.fns[m[1]][1]) > 1 else [r]
            elif k == "torch.prim.Uninitialized":
                r = [None]
            else:
                a = [env[x] for x in types(op[len(k):].split(" : ", 1)[0])]
                r = OPS[k](*a)
                r = list(r) if k == "torch.prim.TupleUnpack" else [r]
            if lhs:
                m = re.match(r"(%[\w-]+):(\d+)$", lhs)
                if m:
                    for j, x in enumerate(r):
                        env[f"{m[1]}#{j}"] = x
                else:
                    env[lhs] = r[0]
        return []


def fail(*a):
    raise Raised(a)


def item(l, i, v):
    l[i] = v


OPS = {
    "torch.aten.__getitem__.t": lambda l, i: l[i], "torch.aten.len.t": len, "torch.prim.RaiseException": fail, "torch.prim.TupleUnpack": lambda t: t,
    "torch.aten.eq.int": lambda a, b: a == b, "torch.aten.ne.int": lambda a, b: a != b, "torch.aten.lt.int": lambda a, b: a < b, "torch.aten.gt.int": lambda a, b: a > b,
    "torch.aten.ge.int": lambda a, b: a >= b, "torch.aten.le.int": lambda a, b: a <= b, "torch.prim.ListConstruct": lambda *a: list(a), "torch.prim.TupleConstruct": lambda *a: tuple(a),
    "torch.aten.sub.int": lambda a, b: a - b, "torch.aten.add.int": lambda a, b: a + b, "torch.aten.mul.int": lambda a, b: a * b, "torch.aten.neg.int": lambda a: -a,
    "torch.aten.floordiv.int": lambda a, b: a // b, "torch.aten.remainder.int": lambda a, b: a % b, "torch.prim.max.int": max, "torch.prim.min.int": min, "torch.prim.min.self_int": min,
    "torch.aten.append.t": lambda l, x: l.append(x) or l, "torch.aten.format": lambda *a: str(a), "torch.aten.add.str": lambda a, b: a + b, "torch.prim.unchecked_cast": lambda a: a,
    "torch.derefine": lambda a: a, "torch.aten.__not__": lambda a: not a, "torch.aten.__is__": lambda a, b: a is b, "torch.aten.__isnot__": lambda a, b: a is not b,
    "torch.aten.__range_length": lambda a, b, s: len(range(a, b, s)), "torch.aten.__derive_index": lambda i, a, s: a + i * s, "torch.aten._set_item.t": lambda l, i, v: item(l, i, v) or l,
    "torch.aten.slice.t": lambda l, a, b, s: l[a:b:s], "torch.aten.add.t": lambda a, b: a + b, "torch.aten.__contains__.int_list": lambda l, x: x in l, "torch.prim.TupleIndex": lambda t, i: t[i],
    "torch.aten.Int.float": int, "torch.aten.Int.bool": int, "torch.aten.mul.int_float": lambda a, b: a * b, "torch.aten.mul.float_int": lambda a, b: a * b, "torch.aten.ceil.Scalar": math.ceil,
    "torch.aten.eq.str": lambda a, b: a == b, "torch.aten.ne.bool": lambda a, b: a != b, "torch.aten.eq.bool": lambda a, b: a == b, "torch.aten.insert.t": lambda l, i, x: l.insert(i, x),
    "torch.aten.sub": lambda a, b: a - b, "torch.aten.mul.left_t": lambda l, n: l * n,
}
