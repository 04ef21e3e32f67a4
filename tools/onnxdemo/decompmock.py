"""Compiles one small pattern of DecomposeComplexOps, cut out of its file, against
mock.h, and answers the term by which it replaces its operator."""
import os, re, subprocess, tempfile
from onnxmock import HERE, balanced, function

FILE = "lib/Dialect/Torch/Transforms/DecomposeComplexOps.cpp"
TD = "include/torch-mlir/Dialect/Torch/IR/GeneratedTorchOps.td"
STUBS = ("createRank0Tensor", "computeReductionType", "getTensorRank")
PRELUDE = '''#include "mock.h"
using PatternRewriterBase = ConversionPatternRewriter;
struct PatternRewriter : ConversionPatternRewriter {
  std::string result;
  int replaced = 0;
  template <class R> LogicalResult notifyMatchFailure(const R &, const std::string &) { return failure(); }
  template <class O, class R, class... A> Value replaceOpWithNewOp(const R &, const A &...a) {
    Value v = O::create(*this, Location{}, a...);
    result = v.s;
    replaced++;
    return v;
  }
  template <class R> void replaceOp(const R &, const Value &v) { result = v.s; replaced++; }
};
template <class T> struct OpRewritePattern {
  virtual LogicalResult matchAndRewrite(T op, PatternRewriter &rewriter) const = 0;
};
namespace Torch {
inline Value createRank0Tensor(PatternRewriter &, Location, const Type &, Value v) { v.s = "rank0(" + v.s + ")"; return v; }
template <class R> Type computeReductionType(PatternRewriter &, const R &, const Type &t, Value, bool) { return t; }
inline std::optional<unsigned> getTensorRank(const Value &v) { return v.t.sizes.size(); }
'''


def term(cls, values, op, sizes=(2, 3, 4)):
    """values: what stands for each operand of the operator, by its name. The term, or None
    for a refusal, or what is wrong with the report of the pattern on what it did"""
    s = re.sub(r"//[^\n]*", "", open(FILE).read())
    m = re.search(r"\b(?:class|struct)\s+%s\b[^{;]*\{" % cls, s)
    body = s[m.start():balanced(s, m.end() - 1, "{", "}")] + ";"
    helpers, todo, seen = [], [body], set()
    while todo:
        for w in re.findall(r"\b(\w+)\s*\(", todo.pop()):
            if w not in seen and w not in ("if", "for", "while", "switch", "return", "matchAndRewrite"):
                seen.add(w)
                d = w not in STUBS and function(s, w)
                if d:
                    helpers.insert(0, d)
                    todo.append(d)
    src = "\n".join(helpers) + body
    ops = sorted(set(re.findall(r"\b(?:Torch::)?((?:Aten|Prim|Prims|Constant)\w*Op)\b", src)))
    td = re.search(r"^def Torch_%s\b.*?ins(.*?)\n  \);" % op, open(TD).read(), re.M | re.S)[1]
    out = [PRELUDE]
    for o in ops:
        if o != op:
            out.append(f'struct {o}N {{ static constexpr const char *name = "{o}"; }}; using {o} = Op<{o}N>;')
    tensor = 'Type{"t", true, {%s}}' % ", ".join(map(str, sizes))
    out.append(f"struct {op} {{ Location getLoc() {{ return {{}}; }} Type getType() {{ return {tensor}; }} Context *getContext() {{ return nullptr; }} Value getResult() {{ return {{\"r\", {tensor}}}; }}")
    for n in re.findall(r"\$(\w+)", td):
        g = "get" + "".join(p[:1].upper() + p[1:] for p in n.split("_"))
        out.append(f'Value {g}() {{ return {{"{values[n]}", {tensor}}}; }}')
    out += ["};", *helpers, body.replace("using OpRewritePattern::OpRewritePattern;", "").replace(f"using OpRewritePattern<{op}>::OpRewritePattern;", ""), "}", "using namespace Torch;",
            "int main() { PatternRewriter w; Torch::%s p; auto r = p.matchAndRewrite({}, w); puts(r.ok && w.replaced == 1 ? w.result.c_str() : !r.ok && !w.replaced ? \"-\" : (std::string(r.ok ? \"success\" : \"failure\") + \", replaced \" + std::to_string(w.replaced) + \" times\").c_str()); }" % cls]
    with tempfile.TemporaryDirectory() as t:
        open(t + "/main.cpp", "w").write("\n".join(out))
        subprocess.run(["g++", "-std=c++17", "-w", "-fpermissive", "-I" + HERE, t + "/main.cpp", "-o", t + "/main"], check=True)
        r = subprocess.run([t + "/main"], capture_output=True, text=True, check=True).stdout.strip()
    return None if r == "-" else r
