"""C++ as statements and expressions: a parser for the part of the language that
the pure helper functions and the rewrite patterns of the compiler are written in,
and an evaluator of pure functions."""

import re

from .interp import AnalysisError

TOKEN = re.compile(r'''
   (?P<ws>\s+|//[^\n]*|/\*.*?\*/)
 | (?P<raw>R"(?P<d>[^(\s]*)\(.*?\)(?P=d)")
 | (?P<str>"(?:\\.|[^"\\])*")
 | (?P<chr>'(?:\\.|[^'\\])+')
 | (?P<num>(?:0[xX][0-9a-fA-F']+|(?:\d[\d']*\.?\d*|\.\d+)(?:[eE][+-]?\d+)?)[uUlLfF]*)
 | (?P<id>[A-Za-z_]\w*)
 | (?P<op>\.\.\.|<<=|>>=|->\*|::|->|\+\+|--|<<|<=|>=|==|!=|&&|\|\||[-+*/%&|^]=|[-+*/%&|^~!<>=?:;,.(){}\[\]\#\\@])
''', re.X | re.S)


class Tok(str):
    """A token: its text, with kind and line."""
    __slots__ = ("kind", "line")


def tokens(text, keep_pp=False):
    out, i, line = [], 0, 1
    n = len(text)
    while i < n:
        m = TOKEN.match(text, i)
        if not m:
            raise AnalysisError(f"cannot read C++ at line {line}: {text[i:i + 20]!r}")
        k = m.lastgroup if m.lastgroup != "d" else "raw"
        s = m.group()
        if k == "op" and s == "#" and text[:i].rpartition("\n")[2].strip() == "" and not keep_pp:
            j = i
            while True:  # a directive, with its continued lines
                e = text.find("\n", j)
                if e < 0:
                    e = n
                if text[j:e].rstrip().endswith("\\"):
                    j = e + 1
                    continue
                break
            line += text.count("\n", i, e)
            i = e
            continue
        if k != "ws":
            t = Tok(s)
            t.kind = "str" if k == "raw" else k
            t.line = line
            out.append(t)
        line += s.count("\n")
        i = m.end()
    return out


OPEN = {"(": ")", "[": "]", "{": "}"}


def match(ts, i):
    """Index of the bracket that closes the one at i."""
    o = ts[i]
    c, d = OPEN[o], 0
    for j in range(i, len(ts)):
        if ts[j].kind == "op":
            if ts[j] == o:
                d += 1
            elif ts[j] == c:
                d -= 1
                if d == 0:
                    return j
    raise AnalysisError(f"unbalanced {o} at line {ts[i].line}")


def split(ts, sep=","):
    """Split at the separators outside brackets (and template brackets)."""
    out, cur, i, angle = [], [], 0, 0
    while i < len(ts):
        t = ts[i]
        if t.kind == "op" and t in OPEN:
            j = match(ts, i)
            cur += ts[i:j + 1]
            i = j + 1
            continue
        if t == "<" and cur and cur[-1].kind == "id" and angle_end(ts, i) is not None:
            j = angle_end(ts, i)
            cur += ts[i:j + 1]
            i = j + 1
            continue
        if t.kind == "op" and t == sep:
            out.append(cur)
            cur = []
        else:
            cur.append(t)
        i += 1
    if cur or out:
        out.append(cur)
    return out


def angle_end(ts, i):
    """The > that closes the template argument list at i, or None."""
    d = 0
    for j in range(i, min(len(ts), i + 400)):
        t = ts[j]
        if t.kind == "op":
            if t == "<":
                d += 1
            elif t == ">":
                d -= 1
                if d == 0:
                    return j
            elif t == ">>":
                d -= 2
                if d <= 0:
                    return j
            elif t in (";", "&&", "||", "{", "}", "==", "!=", "<=", ">=", "+", "-", "?", "!"):
                return None
        elif t.kind not in ("id", "num"):
            return None
    return None


class S:
    """A statement: kind, line, tokens (condition or expression), bodies."""
    __slots__ = ("kind", "line", "toks", "a", "b")

    def __init__(self, kind, line, toks=(), a=None, b=None):
        self.kind, self.line, self.toks, self.a, self.b = kind, line, list(toks), a, b


def statements(ts):
    out, i = [], 0
    while i < len(ts):
        s, i = statement(ts, i)
        if s is not None:
            out.append(s)
    return out


def statement(ts, i):
    t = ts[i]
    ln = t.line
    if t == ";":
        return None, i + 1
    if t == "{":
        j = match(ts, i)
        return S("block", ln, a=statements(ts[i + 1:j])), j + 1
    if t == "if":
        i += 1
        if ts[i] == "constexpr":
            i += 1
        j = match(ts, i)
        a, k = statement(ts, j + 1)
        b = None
        if k < len(ts) and ts[k] == "else":
            b, k = statement(ts, k + 1)
        return S("if", ln, ts[i + 1:j], a, b), k
    if t in ("for", "while", "switch"):
        j = match(ts, i + 1)
        a, k = statement(ts, j + 1)
        return S(str(t), ln, ts[i + 2:j], a), k
    if t == "do":
        a, k = statement(ts, i + 1)
        j = match(ts, k + 1)
        return S("do", ln, ts[k + 2:j], a), j + 2
    if t in ("case", "default") and t.kind == "id":
        j = i + 1
        while ts[j] != ":":
            j += 1
        return S("case", ln, ts[i + 1:j]), j + 1
    j = i
    while j < len(ts) and not (ts[j].kind == "op" and ts[j] == ";"):
        j = match(ts, j) + 1 if ts[j].kind == "op" and ts[j] in OPEN else j + 1
    e = ts[i:j]
    if t in ("return", "break", "continue", "goto"):
        return S(str(t), ln, e[1:]), j + 1
    return S("expr", ln, e), j + 1


class Fn:
    __slots__ = ("name", "params", "body", "line", "head", "cls")

    def __init__(self, name, params, body, line, head, cls):
        self.name, self.params, self.body, self.line, self.head, self.cls = name, params, body, line, head, cls


def functions(ts, cls=""):
    """Function definitions of a file, also those of classes and namespaces."""
    out, i, start = [], 0, 0
    while i < len(ts):
        t = ts[i]
        if t.kind == "op" and t == ";":
            start = i + 1
        elif t.kind == "op" and t in ("}",):
            start = i + 1
        elif t.kind == "op" and t == "[":
            i = match(ts, i)
        elif t.kind == "op" and t == "(":
            i = match(ts, i)
        elif t.kind == "op" and t == "{":
            j = match(ts, i)
            head = ts[start:i]
            if "namespace" in head:
                out += functions(ts[i + 1:j], cls)
            elif ("class" in head or "struct" in head or "union" in head) and "(" not in top(head):
                k = next(x for x, h in enumerate(head) if h in ("class", "struct", "union") and angle_depth(head, x) == 0)
                name = next((str(h) for h in head[k + 1:] if h.kind == "id" and h not in ("final", "alignas")), "")
                out += functions(ts[i + 1:j], name)
            elif "enum" in head:
                pass
            else:
                f = function(head, ts[i + 1:j], cls)
                if f:
                    out.append(f)
                else:
                    # an initializer: skip to the end of the declaration
                    i = j
                    i += 1
                    continue
            i = j
            start = j + 1
        elif t.kind == "id" and t in ("public", "private", "protected") and i + 1 < len(ts) and ts[i + 1] == ":":
            start = i + 2
            i += 1
        i += 1
    return out


def top(ts):
    """The tokens outside template argument lists."""
    out, i = [], 0
    while i < len(ts):
        if ts[i] == "<":
            j = angle_end(ts, i)
            if j is not None:
                i = j + 1
                continue
        out.append(ts[i])
        i += 1
    return out


def angle_depth(ts, k):
    d = 0
    for t in ts[:k]:
        if t == "<":
            d += 1
        elif t == ">":
            d -= 1
        elif t == ">>":
            d -= 2
    return d


def function(head, body, cls):
    i = 0
    if head and head[0] == "template" and len(head) > 1 and head[1] == "<":
        e = angle_end(head, 1)
        i = (e or 0) + 1
    j = i
    while j < len(head):
        if head[j] == "<" and j and head[j - 1].kind == "id":
            e = angle_end(head, j)
            if e is not None:
                j = e + 1
                continue
        if head[j] == "(":
            break
        if head[j] == "=" and "operator" not in head[:j]:
            return None
        j += 1
    if j >= len(head) or j == 0:
        return None
    k = j - 1
    while k >= 0 and head[k].kind != "id":
        k -= 1
    if k < 0:
        return None
    name = str(head[k])
    if k >= 2 and head[k - 1] == "::" and head[k - 2].kind == "id":
        cls = str(head[k - 2])
    e = match(head, j)
    params = []
    for p in split(head[j + 1:e]):
        eq = next((x for x, t in enumerate(p) if t == "="), len(p))
        ids = [t for t in p[:eq] if t.kind == "id"]
        params.append(str(ids[-1]) if ids else "")
    return Fn(name, params, body, head[k].line, head, cls)


# ---- expressions -----------------------------------------------------------

BINARY = [("||",), ("&&",), ("|",), ("^",), ("&",), ("==", "!="), ("<", ">", "<=", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%")]


class Expr:
    def __init__(self, ts):
        self.ts, self.i = ts, 0

    def peek(self, k=0):
        return self.ts[self.i + k] if self.i + k < len(self.ts) else Tok("")

    def take(self, s=None):
        t = self.peek()
        if not t or s is not None and t != s:
            raise AnalysisError(f"cannot read the expression {' '.join(self.ts)[:80]}")
        self.i += 1
        return t

    def parse(self):
        e = self.ternary()
        if self.i != len(self.ts):
            raise AnalysisError(f"cannot read the expression {' '.join(self.ts)[:80]}")
        return e

    def ternary(self):
        c = self.binary(0)
        if self.peek() == "?":
            self.take()
            a = self.ternary()
            self.take(":")
            return ("?", c, a, self.ternary())
        return c

    def binary(self, lv):
        if lv == len(BINARY):
            return self.unary()
        e = self.binary(lv + 1)
        while self.peek() in BINARY[lv] and self.peek().kind == "op":
            o = str(self.take())
            e = ("bin", o, e, self.binary(lv + 1))
        return e

    def unary(self):
        t = self.peek()
        if t in ("!", "-", "~", "*", "&", "+") and t.kind == "op":
            self.take()
            return ("un", str(t), self.unary())
        if t == "(" and self.peek(2) == ")" and self.peek(1) in ("int", "int64_t", "float", "double", "bool"):
            self.take(), self.take(), self.take()
            return self.unary()
        return self.postfix(self.primary())

    def primary(self):
        t = self.take()
        if t.kind == "num":
            s = t.replace("'", "").rstrip("uUlL")
            if re.fullmatch(r"0[xX][0-9a-fA-F]+|\d+", s):
                return ("lit", int(s, 0) if not re.fullmatch(r"0\d+", s) else int(s, 8))
            return ("lit", float(s.rstrip("fF")))
        if t.kind == "str":
            s = t
            while self.peek() and self.peek().kind == "str":
                s = Tok(s[:-1] + self.take()[1:])
            return ("lit", bytes(s[1:-1], "utf-8").decode("unicode_escape"))
        if t.kind == "chr":
            return ("lit", bytes(t[1:-1], "utf-8").decode("unicode_escape"))
        if t == "(":
            j = match(self.ts, self.i - 1)
            if j + 1 < len(self.ts) and self.ts[j + 1].kind in ("id", "num") and j > self.i and all(x.kind == "id" or x == "::" for x in self.ts[self.i:j]):
                self.i = j + 1  # a C-style cast
                return self.unary()
            if j + 1 < len(self.ts) and self.ts[j + 1] == "(" and j == self.i + 1 and self.ts[self.i] in ("int64_t", "int", "float", "double", "unsigned", "size_t"):
                self.i = j + 1
                return self.unary()
            e = self.ternary()
            self.take(")")
            return e
        if t == "{":
            return ("list", self.args("}"))
        if t == "[":
            self.i = match(self.ts, self.i - 1) + 1
            params, refs = [], []
            if self.peek() == "(":
                j = match(self.ts, self.i)
                for p in split(self.ts[self.i + 1:j]):
                    ids = [x for x in p if x.kind == "id"]
                    params.append(str(ids[-1]))
                    if "&" in p and "const" not in p:
                        refs.append(str(ids[-1]))
                self.i = j + 1
            while self.peek() and self.peek() != "{":
                self.i += 1
            j = match(self.ts, self.i)
            body = self.ts[self.i + 1:j]
            self.i = j + 1
            return ("lambda", params, body, refs)
        if t in ("true", "false"):
            return ("lit", t == "true")
        if t == "nullptr":
            return ("lit", None)
        if t == "::":
            t = self.take()
        if t.kind != "id":
            raise AnalysisError(f"cannot read the expression {' '.join(self.ts)[:80]}")
        name = str(t)
        if name in ("static_cast", "reinterpret_cast", "const_cast"):
            j = angle_end(self.ts, self.i)
            self.i = j + 1
            self.take("(")
            e = self.ternary()
            self.take(")")
            return e
        while True:
            if self.peek() == "::":
                self.take()
                name += "::" + self.take()
            elif self.peek() == "<" and angle_end(self.ts, self.i) is not None and self.after_angle() in ("(", "::", "{"):
                j = angle_end(self.ts, self.i)
                name += "<" + "".join(self.ts[self.i + 1:j]) + ">"
                self.i = j + 1
            elif name.endswith("is_same_v") and self.peek() == "<":
                j = angle_end(self.ts, self.i)
                name += "<" + "".join(self.ts[self.i + 1:j]) + ">"
                self.i = j + 1
                return ("call", ("name", name), [])
            else:
                return ("name", name)

    def after_angle(self):
        j = angle_end(self.ts, self.i)
        return self.ts[j + 1] if j + 1 < len(self.ts) else ""

    def args(self, close):
        out = []
        if self.peek() == close:
            self.take()
            return out
        while True:
            out.append(self.ternary())
            if self.take() == close:
                return out
            if self.peek() == close:  # a trailing comma
                self.take()
                return out

    def postfix(self, e):
        while True:
            t = self.peek()
            if t == "(":
                self.take()
                e = ("call", e, self.args(")"))
            elif t == "[":
                self.take()
                i = self.ternary()
                self.take("]")
                e = ("index", e, i)
            elif t in (".", "->") and t.kind == "op":
                self.take()
                n = str(self.take())
                if self.peek() == "<" and angle_end(self.ts, self.i) is not None and self.after_angle() == "(":
                    j = angle_end(self.ts, self.i)
                    n += "<" + "".join(self.ts[self.i + 1:j]) + ">"
                    self.i = j + 1
                e = ("attr", e, n)
            elif t == "{" and e[0] == "name":
                self.take()
                e = ("call", e, self.args("}"), "{")
            elif t in ("++", "--") and t.kind == "op" and e[0] == "name":
                e = ("post", str(self.take()), e)
            else:
                return e


_exprs = {}


def expr(ts):
    k = (ts[0].line, tuple(ts)) if ts else None
    r = _exprs.get(k)
    if r is None:
        r = _exprs[k] = Expr(ts).parse()
    return r


def callee(e):
    """The last component of a called name, without namespaces."""
    if e[0] == "name":
        return re.sub(r"^(?:\w+::)*(?=\w)", "", e[1]) if "<" not in e[1].split("::")[-1] else e[1]
    return None


# ---- evaluation of pure functions -------------------------------------------

class Return(Exception):
    def __init__(self, v):
        self.v = v


class Stop(Exception):
    """llvm_unreachable, report_fatal_error, a failed assertion"""


class _Break(Exception):
    pass


class _Continue(Exception):
    pass


class Eval:
    """Evaluates functions on concrete values.

    names: enumerators and constants by (qualified) name; fns: functions by name;
    call: hook (evaluator, name, args) -> (value,) or None for other calls;
    method: hook (evaluator, value, name, args) -> (value,) or None."""

    def __init__(self, names, fns, call=None, method=None):
        self.names, self.fns, self.call_hook, self.method_hook, self.steps = names, fns, call, method, 0
        self.bodies, self.defaults = {}, {}

    def call(self, name, *args):
        f = self.fns[name]
        env = dict(zip(f.params, args))
        try:
            self.block(self.body(f.body), env)
        except Return as r:
            return r.v
        return None

    def body(self, ts):
        r = self.bodies.get(id(ts))
        if r is None:
            r = self.bodies[id(ts)] = (statements(ts), ts)
        return r[0]

    def apply(self, c, args):
        env = {**c.env, **dict(zip(c.params, args))}
        try:
            self.block(self.body(c.body), env)
        except Return as r:
            return r.v
        return None

    def block(self, ss, env):
        for s in ss:
            self.stmt(s, env)

    def stmt(self, s, env):
        self.steps += 1
        if self.steps > 2000000:
            raise AnalysisError("the evaluation does not end")
        k = s.kind
        if k == "block":
            self.block(s.a, env)
        elif k == "if":
            ps = split(s.toks, ";")
            for p in ps[:-1]:
                self.expr_stmt(p, env)
            c = ps[-1]
            d = self.declaration(c, env)
            if (env[d] if d else self.ev(expr(c), env)):
                self.stmt(s.a, env) if s.a else None
            elif s.b is not None:
                self.stmt(s.b, env)
        elif k == "return":
            raise Return(self.ev(expr(s.toks), env) if s.toks else None)
        elif k == "switch":
            v = self.ev(expr(s.toks), env)
            body, on = s.a.a, None
            for i, x in enumerate(body):
                if x.kind == "case" and x.toks and self.ev(expr(x.toks), env) == v:
                    on = i
                    break
            if on is None:
                on = next((i for i, x in enumerate(body) if x.kind == "case" and not x.toks), None)
            if on is not None:
                try:
                    for x in body[on:]:
                        if x.kind != "case":
                            self.stmt(x, env)
                except _Break:
                    pass
        elif k == "for":
            ps = split(s.toks, ";")
            if len(ps) == 1:
                i = next(i for i, t in enumerate(s.toks) if t == ":")
                n = [t for t in s.toks[:i] if t.kind == "id"][-1]
                for v in self.ev(expr(s.toks[i + 1:]), env):
                    env[str(n)] = v
                    try:
                        self.stmt(s.a, env) if s.a else None
                    except _Break:
                        break
                    except _Continue:
                        pass
                return
            if ps[0]:
                self.expr_stmt(ps[0], env)
            while not ps[1] or self.ev(expr(ps[1]), env):
                self.steps += 1
                if self.steps > 2000000:
                    raise AnalysisError("the evaluation does not end")
                try:
                    self.stmt(s.a, env) if s.a else None
                except _Break:
                    break
                except _Continue:
                    pass
                if len(ps) > 2 and ps[2]:
                    self.expr_stmt(ps[2], env)
        elif k == "while":
            while self.ev(expr(s.toks), env):
                self.steps += 1
                if self.steps > 2000000:
                    raise AnalysisError("the evaluation does not end")
                try:
                    self.stmt(s.a, env) if s.a else None
                except _Break:
                    break
                except _Continue:
                    pass
        elif k == "break":
            raise _Break()
        elif k == "continue":
            raise _Continue()
        elif k == "case":
            pass
        elif k == "expr":
            self.expr_stmt(s.toks, env)
        else:
            raise AnalysisError(f"a {k} statement")

    def declaration(self, ts, env):
        """`T x = e`, `T x{e}`, `T x(e)`: binds x and answers its name."""
        if len(ts) < 2 or ts[0].kind != "id":
            return None
        i = 0
        while i < len(ts):
            if ts[i] == "<" and angle_end(ts, i) is not None:
                i = angle_end(ts, i) + 1
                continue
            if ts[i].kind == "op" and ts[i] not in ("::", "*", "&", "&&"):
                break
            i += 1
        head = ts[:i]
        if len(head) < 2 or head[-1].kind != "id" or head[-2] == "::":
            return None
        n = str(head[-1])
        def fresh():
            ty = " ".join(head[:-1])
            for k, f in self.defaults.items():
                if k in ty:
                    return f()
            return 0
        if i == len(ts):
            env[n] = fresh()
            return n
        if ts[i] == "[":
            while i < len(ts) and ts[i] == "[":
                i = match(ts, i) + 1
        if i < len(ts) and ts[i] == "=":
            env[n] = self.ev(expr(ts[i + 1:]), env)
            return n
        if i < len(ts) and ts[i] in ("{", "("):
            a = Expr(ts[i + 1:]).args("}" if ts[i] == "{" else ")")
            if not a:
                env[n] = fresh()
                return n
            env[n] = [self.ev(x, env) for x in a] if len(a) != 1 else self.ev(a[0], env)
            return n
        return None

    def expr_stmt(self, ts, env):
        if ts[0] == "using":
            return
        if self.declaration(ts, env):
            return
        for i, t in enumerate(ts):
            if t.kind == "op" and t in ("=", "+=", "-=", "*=", "/=") and ts[0] not in OPEN:
                n = ts[:i]
                if len(n) == 1 and str(n[0]) in env:
                    v = self.ev(expr(ts[i + 1:]), env)
                    if t != "=":
                        v = self.binop(str(t)[0], env[str(n[0])], v)
                    env[str(n[0])] = v
                    return
                if t == "=" and len(n) > 3 and n[-1] == ")" and "tie" in n[:4]:
                    v = self.ev(expr(ts[i + 1:]), env)
                    for x, y in zip(split(n[[str(z) for z in n].index("(") + 1:-1]), v):
                        env[str(x[0])] = y
                    return
                if len(n) == 3 and n[1] == "." and isinstance(env.get(str(n[0])), dict):
                    env[str(n[0])][str(n[2])] = self.ev(expr(ts[i + 1:]), env)
                    return
        if len(ts) == 2 and ts[0] in ("++", "--") or len(ts) == 2 and ts[1] in ("++", "--"):
            n = str(ts[1] if ts[0] in ("++", "--") else ts[0])
            env[n] += 1 if "++" in ts else -1
            return
        self.ev(expr(ts), env)

    def binop(self, o, a, b):
        if o == "+":
            return a + b
        if o == "-":
            return a - b
        if o == "*":
            return a * b
        if o in ("/", "%"):
            if b == 0:
                raise Stop("division by zero")
            if isinstance(a, float) or isinstance(b, float):
                return a / b
            q = abs(a) // abs(b) * (1 if (a < 0) == (b < 0) else -1)
            return q if o == "/" else a - q * b
        if o == "==":
            return a == b
        if o == "!=":
            return a != b
        if o == "<":
            return a < b
        if o == ">":
            return a > b
        if o == "<=":
            return a <= b
        if o == ">=":
            return a >= b
        if o == "&":
            return a & b
        if o == "|":
            return a | b
        if o == "^":
            return a ^ b
        if o == "<<":
            return a << b
        if o == ">>":
            return a >> b
        raise AnalysisError(o)

    def ev(self, e, env):
        k = e[0]
        if k == "lit":
            return e[1]
        if k == "name":
            n = e[1]
            if n in env:
                return env[n]
            m = n
            while True:
                if m in self.names:
                    return self.names[m]
                if "::" not in m:
                    break
                m = m.split("::", 1)[1]
            raise AnalysisError(f"unknown name {n}")
        if k == "bin":
            if e[1] == "&&":
                return self.ev(e[2], env) and self.ev(e[3], env)
            if e[1] == "||":
                return self.ev(e[2], env) or self.ev(e[3], env)
            return self.binop(e[1], self.ev(e[2], env), self.ev(e[3], env))
        if k == "un":
            v = self.ev(e[2], env)
            return {"!": lambda: not v, "-": lambda: -v, "~": lambda: ~v, "*": lambda: v, "&": lambda: v, "+": lambda: v}[e[1]]()
        if k == "?":
            return self.ev(e[2] if self.ev(e[1], env) else e[3], env)
        if k == "list":
            return [self.ev(x, env) for x in e[1]]
        if k == "index":
            b, i = self.ev(e[1], env), self.ev(e[2], env)
            if b is Missing:
                return Missing
            if isinstance(b, list) and (not isinstance(i, int) or i < 0):
                raise Stop(f"index {i}")
            return b[i] if i < len(b) else Missing
        if k == "lambda":
            return Closure(e[1], e[2], env, e[3])
        if k == "attr":
            b = self.ev(e[1], env)
            if isinstance(b, dict) and e[2] in b:
                return b[e[2]]
            raise AnalysisError(f"member {e[2]}")
        if k == "call":
            f = e[1]
            if f[0] == "name" and f[1].split("::")[-1] in ("assert", "llvm_unreachable", "report_fatal_error"):
                if f[1].endswith("assert"):
                    if self.ev(e[2][0], env):
                        return None
                raise Stop(f[1])
            if f[0] == "attr":
                base = self.ev(f[1], env)
                args = [self.ev(x, env) for x in e[2]]
                r = self.method_hook(self, base, f[2], args) if self.method_hook else None
                if r is None:
                    raise AnalysisError(f"method {f[2]}")
                return r[0]
            n = f[1] if f[0] == "name" else None
            if n is None or isinstance(env.get(n), Closure):
                c = self.ev(f, env)
                if isinstance(c, Closure):
                    return self.apply(c, [self.ev(x, env) for x in e[2]])
                raise AnalysisError("a call of a computed function")
            last = n.split("::")[-1]
            args = [self.ev(x, env) for x in e[2]]
            r = self.call_hook(self, n, args) if self.call_hook else None
            if r is not None:
                return r[0]
            if last in self.fns:
                return self.call(last, *args)
            raise AnalysisError(f"call of {n}")
        raise AnalysisError(k)


class Closure:
    def __init__(self, params, body, env, refs=()):
        self.params, self.body, self.env, self.refs = params, body, env, refs


class _Missing:
    """What an initializer leaves out."""

    def __repr__(self):
        return "unset"


Missing = _Missing()
