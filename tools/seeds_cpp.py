UP = "lib/Dialect/Torch/Utils/TorchUpstream.cpp"
COMPILE = '''
# Compiles TorchUpstream.cpp alone (with stand-ins for the two LLVM headers it
# includes) and compares what it answers with PyTorch.
import os, subprocess, sys, tempfile
import torch

STUBS = {
    "mlir/Support/LLVM.h": "#pragma once\\n#include <cassert>\\n#include <cstdint>\\n#include <cstdlib>\\n#include <string>\\n",
    "llvm/ADT/StringRef.h": "#pragma once\\n#include <string>\\nnamespace llvm { using StringRef = std::string; }\\n",
    "llvm/Support/ErrorHandling.h": "#pragma once\\n#include <cstdlib>\\n#define llvm_unreachable(m) abort()\\n",
}
DT = {0: torch.uint8, 1: torch.int8, 2: torch.int16, 3: torch.int32, 4: torch.int64, 5: torch.float16, 6: torch.float32, 7: torch.float64, 8: torch.complex32, 9: torch.complex64, 10: torch.complex128, 11: torch.bool, 15: torch.bfloat16}
CODE = {v: k for k, v in DT.items()}
MAIN = """
#include "torch-mlir/Dialect/Torch/Utils/TorchUpstream.h"
#include <cstdio>
using namespace mlir::torch::torch_upstream;
int main() {
  int n, r, d;
  while (scanf("%d", &n) == 1) {  // operands as rank (-1: a number) and dtype
    ResultTypeState s{};
    for (int i = 0; i < n; ++i) {
      if (scanf("%d %d", &r, &d) != 2) return 2;
      ScalarType t = static_cast<ScalarType>(d);
      ScalarType &x = r < 0 ? s.wrappedResult : r == 0 ? s.zeroResult : s.dimResult;
      x = promote_skip_undefined(x, t);
    }
    printf("%d\\\\n", static_cast<int>(result_type(s)));
  }
}
"""


def answers(cases):
    with tempfile.TemporaryDirectory() as t:
        for p, s in STUBS.items():
            os.makedirs(os.path.dirname(os.path.join(t, p)), exist_ok=True)
            open(os.path.join(t, p), "w").write(s)
        open(t + "/main.cpp", "w").write(MAIN)
        subprocess.run(["g++", "-std=c++17", "-DNDEBUG", "-w", "-I" + t, "-Iinclude", t + "/main.cpp", "lib/Dialect/Torch/Utils/TorchUpstream.cpp", "-o", t + "/main"], check=True)
        text = "".join(f"{len(c)} " + " ".join(f"{r} {d}" for r, d in c) + "\\n" for c in cases)
        return [int(x) for x in subprocess.run([t + "/main"], input=text, capture_output=True, text=True, check=True).stdout.split()]


def operand(r, d):
    return {4: 2, 7: 1.5, 11: True}[d] if r < 0 else torch.zeros([2] * r, dtype=DT[d])


def expect(cases):
    for c, got in zip(cases, answers(cases)):
        v = operand(*c[0])
        if len(c) == 1:
            continue
        want = torch.result_type(v, operand(*c[1]))
        if want not in CODE:
            continue  # torch-mlir has no code for it
        assert DT.get(got) == want, f"operands (rank, dtype) {c}: {DT.get(got, got)}, PyTorch answers {want}"


ALL = [(r, d) for r in (0, 2) for d in DT]
'''

seed("C38-bfloat16-not-floating", "C38", UP,
     [("          t == ScalarType::Half || t == ScalarType::BFloat16);", "          t == ScalarType::Half);")],
     "a bfloat16 tensor of rank 1 or more with a rank-0 tensor of a wider floating dtype, or a bfloat16 rank-0 tensor or number with integer tensors",
     "result_type promotes (bfloat16 tensor, rank-0 float64) to float64; a rank-0 bfloat16 does not lift an integer tensor",
     COMPILE + """
expect([(a, b) for a in ALL for b in ALL])
""")
seed("C38-bool-keeps-category", "C38", UP,
     [("  if (higher == ScalarType::Bool || isFloatingType(lower) ||", "  if (isFloatingType(lower) ||")],
     "a bool tensor of rank 1 or more with an integer of a lower category: a rank-0 tensor or a number",
     "the result is bool; PyTorch promotes bool with the integer",
     COMPILE + """
expect([(a, b) for a in ALL for b in ALL] + [((2, d), (-1, n)) for d in DT for n in (4,)])
""")
seed("C38-numbers-before-tensors", "C38", UP,
     [("      combine_categories(in_state.zeroResult, in_state.wrappedResult));", "      combine_categories(in_state.wrappedResult, in_state.zeroResult));")],
     "a rank-0 tensor with a number of another dtype of its category (float32 with 1.5, int32 with 2), no tensor of higher rank",
     "the number decides the precision: rank-0 float32 with a number is float64 in the wrapped category, int32 with 2 is int64",
     COMPILE + """
expect([((0, d), (-1, n)) for d in DT if d not in (8, 9, 10) for n in (4, 7) if not (n == 7 and d in (0, 1, 2, 3, 4, 11))])
""")
