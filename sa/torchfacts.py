"""PyTorch facts read from the installed headers and the compiler's own enums."""

import os
import re

from .interp import AnalysisError

TORCH = "/opt/venv/lib/python3.12/site-packages/torch/include"

# torch.dtype name -> c10::ScalarType enumerator (PyTorch's dtype registration)
DTYPE_ENUM = {
    "uint8": "Byte", "int8": "Char", "int16": "Short", "int32": "Int", "int64": "Long",
    "float16": "Half", "float32": "Float", "float64": "Double",
    "complex32": "ComplexHalf", "complex64": "ComplexFloat", "complex128": "ComplexDouble",
    "bool": "Bool", "qint8": "QInt8", "quint8": "QUInt8", "qint32": "QInt32",
    "bfloat16": "BFloat16", "quint4x2": "QUInt4x2", "quint2x4": "QUInt2x4",
    "bits1x8": "Bits1x8", "bits2x4": "Bits2x4", "bits4x2": "Bits4x2", "bits8": "Bits8", "bits16": "Bits16",
    "float8_e5m2": "Float8_e5m2", "float8_e4m3fn": "Float8_e4m3fn",
    "float8_e5m2fnuz": "Float8_e5m2fnuz", "float8_e4m3fnuz": "Float8_e4m3fnuz",
    "float8_e8m0fnu": "Float8_e8m0fnu", "float4_e2m1fn_x2": "Float4_e2m1fn_x2",
    "uint16": "UInt16", "uint32": "UInt32", "uint64": "UInt64",
}
LAYOUT_ENUM = {
    "strided": "Strided", "sparse_coo": "Sparse", "sparse_csr": "SparseCsr", "sparse_csc": "SparseCsc",
    "sparse_bsr": "SparseBsr", "sparse_bsc": "SparseBsc", "_mkldnn": "Mkldnn", "jagged": "Jagged",
}
MEMFMT_ENUM = {
    "contiguous_format": "Contiguous", "preserve_format": "Preserve",
    "channels_last": "ChannelsLast", "channels_last_3d": "ChannelsLast3d",
}


def read(path):
    try:
        with open(path, encoding="utf-8", errors="replace") as f:
            return f.read()
    except OSError as e:
        raise AnalysisError(f"anchor vanished: {e}")


def strip_comments(s):
    s = re.sub(r"/\*.*?\*/", " ", s, flags=re.S)
    return re.sub(r"//[^\n]*", " ", s)


def scalar_macro(text, where):
    s = strip_comments(text).replace("\\\n", " ")
    m = re.search(r"#define\s+AT_FORALL_SCALAR_TYPES_WITH_COMPLEX_AND_QINTS\(_\)([^\n]*)", s)
    if not m:
        raise AnalysisError(f"anchor vanished: scalar type list in {where}")
    # arguments may contain template commas, never parentheses
    names = re.findall(r"_\(\s*(?:[^()]*?),\s*(\w+)\s*\)", m.group(1))
    return {n: i for i, n in enumerate(names)}


def enum_body(text, name):
    s = strip_comments(text)
    m = re.search(r"enum\s+(?:class\s+)?(?:[A-Z_]+\s+)?" + name + r"\b[^{;]*\{(.*?)\}", s, re.S)
    if not m:
        return None
    out, nxt = {}, 0
    for part in m.group(1).split(","):
        part = part.strip()
        if not part or not re.match(r"^\w+(\s*=\s*-?\w+)?$", part):
            continue
        if "=" in part:
            k, v = [x.strip() for x in part.split("=")]
            nxt = int(v, 0) if re.match(r"-?(0x)?[0-9a-fA-F]+$", v) else out.get(v, nxt)
        else:
            k = part
        out[k] = nxt
        nxt += 1
    return out


def pytorch_scalar_codes():
    p = TORCH + "/torch/headeronly/core/ScalarType.h"
    return scalar_macro(read(p), p)


def pytorch_enum(rel, name):
    for base in ("/torch/headeronly/core/", "/c10/core/"):
        p = TORCH + base + rel
        if os.path.exists(p):
            e = enum_body(read(p), name)
            if e:
                return e
    raise AnalysisError(f"PyTorch enum {name} not found")


UPSTREAM_H = "include/torch-mlir/Dialect/Torch/Utils/TorchUpstream.h"


def upstream_scalar_codes(repo):
    return scalar_macro(read(os.path.join(repo, UPSTREAM_H)), UPSTREAM_H)


def upstream_enum(repo, name):
    e = enum_body(read(os.path.join(repo, UPSTREAM_H)), name)
    if e is None:
        raise AnalysisError(f"anchor vanished: enum {name} in {UPSTREAM_H}")
    return e


NATIVE = "/opt/venv/lib/python3.12/site-packages/torchgen/packaged/ATen/native/native_functions.yaml"
_schemas = {}


def split_top(s):
    out, depth, cur = [], 0, ""
    for ch in s:
        if ch in "([{":
            depth += 1
        elif ch in ")]}":
            depth -= 1
        if ch == "," and depth == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


def native_schemas():
    """{'aten::mul.Tensor': ([(name, type text, default text or None)], number of returns)}"""
    if not _schemas:
        for line in read(NATIVE).splitlines():
            m = re.match(r"- func: ([\w.]+)\((.*)\) -> (.*)$", line)
            if not m:
                continue
            params = []
            for a in split_top(m.group(2)):
                if a == "*":
                    continue
                mm = re.match(r"(.+?) (\w+)(?:=(.*))?$", a)
                t = re.sub(r"\([a-z!|>\- *]+\)", "", mm.group(1))
                params.append((mm.group(2), t, mm.group(3)))
            r = m.group(3).strip()
            n = len(split_top(r[1:-1])) if r.startswith("(") else 1
            _schemas["aten::" + m.group(1)] = (params, n if r != "()" else 0)
            ag = "." not in m.group(1) and n == 1
            if ag:  # the out variant torchgen generates
                _schemas.setdefault("aten::" + m.group(1) + ".out", (params + [("out", "Tensor", None)], 1))
    return _schemas


JIT = {
    "Tensor": "TensorType", "Scalar": "NumberType", "int": "IntType", "SymInt": "IntType", "bool": "BoolType",
    "float": "FloatType", "str": "StringType", "ScalarType": "IntType", "Layout": "IntType", "MemoryFormat": "IntType",
    "Device": "DeviceObjType", "Generator": "GeneratorType", "Dimname": "StringType", "Stream": "StreamObjType",
}


def jit_type(w, text):
    """The torch.jit type object of a schema type."""
    if text.endswith("?"):
        return w.jit("OptionalType", jit_type(w, text[:-1]))
    m = re.match(r"(.*)\[\d*\]$", text)
    if m:
        return w.jit("ListType", jit_type(w, m.group(1)))
    return w.jit(JIT.get(text, "AnyType"))


def real_overload(w, qual):
    """The overload object of PyTorch's own schema, e.g. 'aten.mul.Tensor'."""
    from .fxworld import K, NONE, TRUE, FALSE, Lst

    ns, name, ov = (qual.split(".") + ["default"])[:3]
    key = f"{ns}::{name}" + (f".{ov}" if ov != "default" else "")
    params, n = native_schemas()[key]
    ps = []
    for p, t, d in params:
        if d is None or d == "None":
            v = NONE
        elif d in ("True", "False"):
            v = K(d == "True")
        elif re.match(r"-?\d+$", d):
            v = K(int(d))
        elif re.match(r"-?[\d.]+(e-?\d+)?$", d):
            v = K(float(d))
        elif d.startswith("["):
            v = Lst([K(int(x)) if re.match(r"-?\d+$", x) else K(x) for x in split_top(d[1:-1])])
        else:
            v = K(d.strip("\"'"))
        ps.append((p, jit_type(w, t), v))
    q = f"torch.ops.{ns}.{name}.{ov}"
    return w.overload(f"{ns}::{name}", ps, returns=n, overload="" if ov == "default" else ov, q=q)
