"""Terms of torch operators: their text (as sa/onnxrun.py writes it), and one form for
terms that differ only in arithmetic on known integers or in the order of the operands of
an operator that does not mind."""

import re


class P:
    """A term: Name(args)#k, [..], numbers, strings, xN, tensor(v, ?)."""

    def __init__(self, s):
        self.s, self.i = s, 0

    def peek(self):
        while self.i < len(self.s) and self.s[self.i] == " ":
            self.i += 1
        return self.s[self.i] if self.i < len(self.s) else ""

    def items(self, end):
        out = []
        while self.peek() != end:
            out.append(self.term())
            if self.peek() == ",":
                self.i += 1
        self.i += 1
        return out

    def term(self):
        c = self.peek()
        if c == "[":
            self.i += 1
            return ("list", self.items("]"))
        if c == "'":
            j = self.s.index("'", self.i + 1)
            v = self.s[self.i + 1:j]
            self.i = j + 1
            return ("const", v)
        m = re.compile(r"-?\d[\d.e+-]*|-inf|inf|[A-Za-z_]\w*|\?").match(self.s, self.i)
        if not m:
            raise ValueError(f"term at {self.s[self.i:self.i + 40]}")
        t = m[0]
        self.i = m.end()
        if t in ("None", "True", "False"):
            return ("const", {"None": None, "True": True, "False": False}[t])
        if re.match(r"-?\d|-?inf", t):
            return ("const", float(t) if "." in t or "e" in t or "inf" in t else int(t))
        if self.peek() != "(":
            return ("var", t)
        self.i += 1
        a = self.items(")")
        k = None
        if self.peek() == "#":
            m = re.compile(r"#(\d+)").match(self.s, self.i)
            k = int(m[1])
            self.i = m.end()
        return ("op", t, a, k)


FOLD = {"AtenAddInt": lambda a, b: a + b, "AtenSubInt": lambda a, b: a - b, "AtenMulInt": lambda a, b: a * b,
        "AtenFloordivInt": lambda a, b: a // b if b else None, "PrimMaxInt": max, "PrimMinInt": min}
EITHER = {"AtenAddInt", "AtenMulInt", "AtenMulTensor", "AtenEqInt", "AtenNeInt", "AtenEqTensor", "AtenLogicalAnd", "AtenLogicalOr", "AtenLogicalXor", "AtenBitwiseAndTensor", "AtenBitwiseOrTensor", "AtenBitwiseXorTensor", "AtenMaximum", "AtenMinimum", "PrimMaxInt", "PrimMinInt"}


def whole(t):
    return t[0] == "const" and isinstance(t[1], int) and not isinstance(t[1], bool)


def norm(t):
    if t[0] == "list":
        return ("list", [norm(x) for x in t[1]])
    if t[0] != "op":
        return t
    n, a = t[1], [norm(x) for x in t[2]]
    if n in FOLD and len(a) == 2:
        if whole(a[0]) and whole(a[1]):
            v = FOLD[n](a[0][1], a[1][1])
            if v is not None:
                return ("const", v)
        if n in ("AtenAddInt", "AtenSubInt") and a[1] == ("const", 0) and whole(a[1]) or n in ("AtenMulInt", "AtenFloordivInt") and a[1] == ("const", 1) and whole(a[1]):
            return a[0]
        if n == "AtenAddInt" and a[0] == ("const", 0) and whole(a[0]) or n == "AtenMulInt" and a[0] == ("const", 1) and whole(a[0]):
            return a[1]
    if n in EITHER:
        a[:2] = sorted(a[:2], key=repr)
    elif n == "AtenAddTensor" and len(a) == 3 and a[2] in (("const", 1), ("const", 1.0)):
        a[:2] = sorted(a[:2], key=repr)
    return ("op", n, a, t[3])


def text(t):
    if t[0] == "const":
        return repr(t[1])
    if t[0] == "var":
        return t[1]
    if t[0] == "list":
        return "[" + ", ".join(map(text, t[1])) + "]"
    return f"{t[1]}({', '.join(map(text, t[2]))})" + (f"#{t[3]}" if t[3] is not None else "")


def parse(s):
    """The terms of a text, one per result."""
    p, out = P(s), []
    while True:
        out.append(p.term())
        if p.peek() != ";":
            break
        p.i += 1
    if p.peek():
        raise ValueError(f"term at {s[p.i:p.i + 40]}")
    return out


def form(s):
    """The text of a term in its one form."""
    return s if s == "declined" else "; ".join(text(norm(t)) for t in parse(s))


def first_difference(a, b):
    """Where two terms (parsed, in their one form) first differ: (text of a's part, text of b's part)."""
    if a == b:
        return None
    if a[0] == b[0] == "op" and a[1] == b[1] and len(a[2]) == len(b[2]) and a[3] == b[3]:
        for x, y in zip(a[2], b[2]):
            d = first_difference(x, y)
            if d:
                return d
    if a[0] == b[0] == "list" and len(a[1]) == len(b[1]):
        for x, y in zip(a[1], b[1]):
            d = first_difference(x, y)
            if d:
                return d
    return text(a), text(b)
