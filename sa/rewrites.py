"""Every rewrite of the compiler, path by path.

A rewrite is a function (or lambda) that takes a PatternRewriter and says by its LogicalResult
whether it changed the program. Its body is walked statement by statement; the state of a
path is the set of operations replaced or erased on it so far. Conditions are not decided
(both arms are taken), except that the same plain condition is answered once per path; what
a helper does that is given the rewriter is not looked into."""

import os
import re

from . import cpp
from .interp import AnalysisError

REPLACE = re.compile(r"replaceOp|replaceOpWithNewOp|replaceOpWithMultiple|eraseOp")
FAIL = re.compile(r"(\w+ (\.|->) )*(failure \( \)|mlir :: failure \( \)|notifyMatchFailure \(.*|emitError \(.*|emitOpError \(.*)|rewriter \. notifyMatchFailure \(.*")
OKAY = re.compile(r"((llvm|mlir) :: )?success \( \)")
CHANGE = re.compile(r"(replace|erase|modify|startOp|finalize|cancel|inline|merge|move|set|update|insert|remove|splice|drop|apply|convert|take|clone|swap|push|append|resize|emplace|make)\w*$", re.I)
CREATE = ("create", "createOrFold")


class Path:
    """(operations gone, whether anything changed, {condition: answer})"""
    __slots__ = ("gone", "changed", "known")

    def __init__(self, gone=frozenset(), changed=False, known=frozenset()):
        self.gone, self.changed, self.known = gone, changed, known

    def key(self):
        return self.gone, self.changed, self.known

    def __hash__(self):
        return hash(self.key())

    def __eq__(self, o):
        return self.key() == o.key()


class Rewrite:
    def __init__(self, fn, rewriter, once):
        """rewriter: its name, and whether an operation it replaces is freed there and then
        (a plain PatternRewriter); once: loops are taken to run at least once"""
        self.fn, (self.rw, self.frees), self.once = fn, rewriter, once
        self.found = []
        self.seen = {"failure": 0, "success": 0, "other": 0, "replace": 0}
        self.breaks = []

    def run(self):
        end = self.block(cpp.statements(self.fn.body), {Path()})
        return end

    # -- events -----------------------------------------------------------
    def events(self, ts):
        """[(what, subject, line)] of an expression, without the bodies of its lambdas"""
        out, i = [], 0
        while i < len(ts):
            t = ts[i]
            if t == "[" and (i == 0 or ts[i - 1].kind == "op" and ts[i - 1] not in (")", "]") or ts[i - 1] == "return"):
                j = cpp.match(ts, i)
                k = j + 1
                if k < len(ts) and ts[k] == "(":
                    k = cpp.match(ts, k) + 1
                while k < len(ts) and ts[k] not in ("{", ",", ")", ";"):
                    k += 1
                if k < len(ts) and ts[k] == "{":
                    e = cpp.match(ts, k)
                    if any(x == self.rw for x in ts[k:e]) or any(CHANGE.match(x) for x in ts[k:e] if x.kind == "id"):
                        out.append(("may", None, t.line))
                    i = e + 1
                    continue
            if t.kind == "id" and i + 1 < len(ts):
                k = i + 1
                if ts[k] == "<":
                    e = cpp.angle_end(ts, k)
                    k = e + 1 if e is not None else k
                if k < len(ts) and ts[k] == "(":
                    e = cpp.match(ts, k)
                    args = cpp.split(ts[k + 1:e])
                    b = i - 1 if i > 1 and ts[i - 1] == "template" else i
                    on = ts[b - 1] in (".", "->") if b else False
                    owner = str(ts[b - 2]) if on and b > 1 else None
                    if owner == self.rw and REPLACE.fullmatch(t):
                        out += self.events(ts[k + 1:e])
                        out.append(("replace", subject(args[0]) if args else None, t.line))
                        i = e + 1
                        continue
                    if owner == self.rw and t in ("notifyMatchFailure",):
                        i = e + 1
                        continue
                    if on and CHANGE.match(t):
                        out.append(("may", None, t.line))
                    elif t not in CREATE and any(x == self.rw for a in args for x in a):
                        out.append(("helper", None, t.line))
            i += 1
        return out

    def effect(self, ts, ps):
        for p in ps:
            for g in p.gone if self.frees else ():
                for i, t in enumerate(ts):
                    if t == g and t.kind == "id" and not (i and ts[i - 1] in (".", "->", "::")):
                        self.found.append(("after", t.line, g))
        for what, who, line in self.events(ts):
            out = set()
            for p in ps:
                if what == "replace":
                    self.seen["replace"] += 1
                    if who and who in p.gone:
                        self.found.append(("twice", line, who))
                    out.add(Path(p.gone | {who or "?"}, True, p.known))
                else:
                    out.add(Path(p.gone, True, p.known))
            ps = out
        return ps

    # -- statements -------------------------------------------------------
    def block(self, ss, ps):
        for s in ss:
            if not ps:
                break
            ps = self.stmt(s, ps)
        return ps

    def stmt(self, s, ps):
        k = s.kind
        if k == "block":
            return self.block(s.a, ps)
        if k == "expr":
            ps = self.effect(s.toks, ps)
            ps = self.rename(assigned(s.toks), ps)
            if len(s.toks) > 2 and any(t.kind == "op" and t.endswith("=") and t not in ("==", "!=", "<=", ">=") for t in s.toks) or any(t in ("++", "--") for t in s.toks):
                ids = {str(t) for t in s.toks if t.kind == "id"}
                ps = {Path(p.gone, p.changed, frozenset((c, a) for c, a in p.known if not ids & set(c.split()))) for p in ps}
                m = re.fullmatch(r"(?:\w+ )*(\w+) = (true|false)", " ".join(s.toks))
                if m:
                    ps = {Path(p.gone, p.changed, p.known | {(m[1], m[2] == "true")}) for p in ps}
            return ps
        if k == "if":
            ps = self.effect(s.toks, ps)
            c = " ".join(s.toks)
            pos = c[2:] if c.startswith("! ") and re.fullmatch(r"! \w+", c) else c
            plain = re.fullmatch(r"\w+", pos) is not None
            yes, no = set(), set()
            for p in ps:
                known = dict(p.known).get(pos) if plain else None
                for a in (True, False):
                    if known is not None and known != a:
                        continue
                    q = Path(p.gone, p.changed, p.known | {(pos, a)}) if plain and known is None else p
                    (yes if a == (pos == c) else no).add(q)
            if c in ("true", "false"):
                yes, no = (ps, set()) if c == "true" else (set(), ps)
            yes = self.stmt(s.a, yes) if s.a is not None and yes else yes
            no = self.stmt(s.b, no) if s.b is not None and no else no
            return yes | no
        if k in ("for", "while", "do"):
            own = declared(s.toks) if k == "for" else set()
            ps = self.effect(s.toks, ps)
            ps = self.rename(own, ps)
            self.breaks.append(set())
            once = self.stmt(s.a, ps) if s.a is not None else ps
            out = self.rename(own, once | self.breaks.pop())
            return out | (set() if self.once or k == "do" else ps)
        if k == "switch":
            self.breaks.append(set())
            cur, default = set(), False
            for x in (s.a.a if s.a is not None and s.a.kind == "block" else []):
                if x.kind == "case":
                    cur = cur | ps
                    default = default or not x.toks
                    continue
                cur = self.stmt(x, cur) if cur else cur
            return cur | self.breaks.pop() | (set() if default else ps)
        if k in ("break", "continue"):
            if self.breaks:
                self.breaks[-1] |= ps
            return set()
        if k == "return":
            self.leave(s, ps)
            return set()
        return ps

    @staticmethod
    def rename(own, ps):
        """operations a name of the loop stood for: gone, but under no name that is left"""
        return {Path(frozenset("~" + g if g in own else g for g in p.gone), p.changed, p.known) for p in ps} if own else ps

    def leave(self, s, ps):
        t = " ".join(s.toks)
        ps = self.effect(s.toks, ps)
        if FAIL.fullmatch(t) or re.match(rf"{self.rw} \. notifyMatchFailure \(", t):
            self.seen["failure"] += 1
            for p in ps:
                if p.gone:
                    self.found.append(("failure", s.line, ", ".join(sorted(p.gone))))
        elif OKAY.fullmatch(t):
            self.seen["success"] += 1
            for p in ps:
                if not p.changed:
                    self.found.append(("success", s.line, ""))
        else:
            self.seen["other"] += 1


def subject(ts):
    s = "".join(ts)
    return re.sub(r"(\.getOperation\(\)|^\*)$", "", s) or None


def assigned(ts):
    """the name a statement declares or assigns"""
    i = 0
    while i < len(ts):
        if ts[i].kind == "op" and ts[i] == "=":
            return {str(ts[i - 1])} if i and ts[i - 1].kind == "id" and not (i > 1 and ts[i - 2] in (".", "->")) else set()
        i = cpp.match(ts, i) + 1 if ts[i].kind == "op" and ts[i] in cpp.OPEN else i + 1
    return set()


def declared(ts):
    """the names the head of a for loop declares"""
    i = next((k for k, t in enumerate(ts) if t in (":", "=") and t.kind == "op"), None)
    if not i:
        return set()
    if ts[i - 1] == "]":
        j = i - 1
        while ts[j] != "[":
            j -= 1
        return {str(t) for t in ts[j:i] if t.kind == "id"}
    return {str(ts[i - 1])}


def lambdas(ts):
    """Lambdas that take a rewriter: (params, body tokens, line)"""
    for i, t in enumerate(ts):
        if t != "[" or t.kind != "op":
            continue
        j = cpp.match(ts, i)
        if j + 1 < len(ts) and ts[j + 1] == "(":
            e = cpp.match(ts, j + 1)
            head = ts[j + 2:e]
            if any(str(x).endswith("Rewriter") for x in head if x.kind == "id"):
                k = e + 1
                while k < len(ts) and ts[k] not in ("{", ",", ")", ";"):
                    k += 1
                if k < len(ts) and ts[k] == "{":
                    yield head, ts[k + 1:cpp.match(ts, k)], t.line


def params(head):
    """the name of the rewriter among the parameters"""
    for p in cpp.split(head):
        ids = [str(x) for x in p if x.kind == "id"]
        if len(ids) > 1 and any(x.endswith("Rewriter") for x in ids[:-1]):
            return ids[-1], ids[-2] == "PatternRewriter"
    return None


def rewrites(repo):
    """[(file, what it is called, whether it is a pattern's own, function, rewriter)]"""
    out = []
    for d, _, fs in sorted(os.walk(os.path.join(repo, "lib"))):
        for f in sorted(fs):
            if not f.endswith((".cpp", ".h")):
                continue
            p = os.path.join(d, f)
            text = open(p, encoding="utf-8").read()
            if "Rewriter" not in text:
                continue
            rel = os.path.relpath(p, repo)
            for g in cpp.functions(cpp.tokens(text)):
                i = next((k for k, t in enumerate(g.head) if t == "(" and k and g.head[k - 1] == g.name), None)
                if i is not None:
                    rw = params(g.head[i + 1:cpp.match(g.head, i)])
                    if rw:
                        out.append((rel, (g.cls + "::" if g.cls else "") + g.name, g.name == "matchAndRewrite", g, rw))
                if g.name == "getCanonicalizationPatterns":
                    for n, (head, body, line) in enumerate(lambdas(g.body)):
                        out.append((rel, f"{g.cls}::{g.name} {n}", True, cpp.Fn(g.name, [], body, line, head, g.cls), params(head)))
                for k, t in enumerate(g.body):
                    if t == "onOp" and k + 2 < len(g.body) and g.body[k + 2].kind == "str":
                        op = str(g.body[k + 2]).strip('"')
                        e = cpp.match(g.body, k + 1)
                        for head, body, line in lambdas(g.body[k + 2:e]):
                            rw = params(head)
                            fn = cpp.Fn(op, [], body, line, head, "")
                            out.append((rel, "onnx." + op, True, fn, rw))
                            break
    return out
