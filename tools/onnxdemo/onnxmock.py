"""Compiles one small handler of TorchOnnxToTorch, cut out of its file, against
mock.h, and answers the term by which it replaces the ONNX operator."""
import os, re, subprocess, tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
DIR = "lib/Conversion/TorchOnnxToTorch/"


def balanced(s, i, o, c):
    d = 0
    while True:
        if s[i] == o:
            d += 1
        elif s[i] == c:
            d -= 1
            if d == 0:
                return i + 1
        i += 1


def function(s, name):
    """The definition of a file-local function, or None."""
    m = re.search(r"^(?:static |inline )*[\w:<>,&* ]+?\b" + name + r"\s*\([^;{]*?\)\s*\{", s, re.M)
    return s[m.start():balanced(s, m.end() - 1, "{", "}")] if m else None


def handler(name, since):
    for f in ("DefaultDomainAtoF", "DefaultDomainGtoP", "DefaultDomainQtoZ"):
        s = re.sub(r"//[^\n]*", "", open(DIR + f + ".cpp").read())
        m = re.search(r'\.onOp\(\s*"%s",\s*%d,\s*' % (name, since), s)
        if m:
            e = balanced(s, s.index("(", m.start()), "(", ")") - 1
            h, helpers, todo = s[m.end():e], [], None
            seen = set()
            todo = [h]
            while todo:
                for w in re.findall(r"\b(\w+)\s*\(", todo.pop()):
                    if w in seen or w in ("if", "for", "while", "switch", "return"):
                        continue
                    seen.add(w)
                    d = function(s, w)
                    if d and w not in ("populateDefaultDomainAtoF",):
                        helpers.insert(0, d)
                        todo.append(d)
            return h, helpers
    raise SystemExit(f"no handler of {name} from opset {since}")


def terms(name, since, cases):
    """cases: [(number of operands, {attribute: value})] -> one term (or None) each."""
    h, helpers = handler(name, since)
    src = "\n".join(helpers) + h
    ops = sorted(set(re.findall(r"\b(?:Torch::)?((?:Aten|Prim|Prims|Constant|Torchvision)\w*Op)\b", src)))
    out = ['#include "mock.h"', "namespace Torch {"]
    for o in ops:
        out.append(f'struct {o}N {{ static constexpr const char *name = "{o}"; }}; using {o} = Op<{o}N>;')
    out += ["}", "using namespace Torch;"] + helpers + [f"static auto handler = {h};", "int main() {"]
    for n, attrs in cases:
        out.append("{ Operation o; for (int i = 0; i < %d; ++i) o.operands.push_back({\"x\" + std::to_string(i), Type{\"t\", true, {2, 3, 4}}}); o.results.push_back({\"r\", Type{\"t\", true, {2, 3, 4}}});" % n)
        out.append("OpBinder b{&o}; ConversionPatternRewriter w;")
        for k, v in attrs.items():
            d = {int: "ints", float: "floats", str: "strings"}[type(v)]
            out.append(f'b.{d}["{k}"] = ' + (f'"{v}"' if isinstance(v, str) else repr(v)) + ";")
        out.append('puts(handler(b, w).ok ? w.result.c_str() : "-"); }')
    out.append("}")
    with tempfile.TemporaryDirectory() as t:
        open(t + "/main.cpp", "w").write("\n".join(out))
        subprocess.run(["g++", "-std=c++17", "-w", "-I" + HERE, t + "/main.cpp", "-o", t + "/main"], check=True)
        r = subprocess.run([t + "/main"], capture_output=True, text=True, check=True).stdout.splitlines()
    return [None if x == "-" else x for x in r]
