"""Record the operator schemas of the installed onnx: python tools/onnxfacts.py
(/opt/venv/bin/python, writes sa/onnxfacts.json)."""
import json, os
import onnx
from onnx import defs

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K = {v: k for k, v in vars(defs.OpSchema.AttrType).items() if isinstance(v, defs.OpSchema.AttrType)} if hasattr(defs.OpSchema, "AttrType") else {}


def value(a):
    p = a.default_value
    if p is None or p.type == 0:
        return None
    v = onnx.helper.get_attribute_value(p)
    return v.decode() if isinstance(v, bytes) else [x.decode() if isinstance(x, bytes) else x for x in v] if isinstance(v, (list, tuple)) else v


out = {}
for s in defs.get_all_schemas_with_history():
    if s.domain not in ("", "ai.onnx"):
        continue
    out.setdefault(s.name, []).append({
        "since": s.since_version, "deprecated": s.deprecated,
        "inputs": [[i.name, str(i.option).split(".")[-1]] for i in s.inputs], "min_in": s.min_input, "max_in": s.max_input,
        "outputs": [[o.name, str(o.option).split(".")[-1]] for o in s.outputs], "min_out": s.min_output, "max_out": s.max_output,
        "attrs": {n: {"type": str(a.type).split(".")[-1], "required": a.required, "default": value(a)} for n, a in s.attributes.items()}})
for v in out.values():
    v.sort(key=lambda s: s["since"])

json.dump({"opset": defs.onnx_opset_version(), "ops": dict(sorted(out.items()))}, open(os.path.join(V, "sa", "onnxfacts.json"), "w"), indent=0)
