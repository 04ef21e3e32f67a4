"""Create /verif/seeded/<id>/ from an edit: python3 mkseed.py seeds_file.py [id ...].

The seeds file calls seed(id, property, file, [(old, new), ...], needs, breaks, demo).
The demo is Python source; it exits non-zero (assert) when the property is broken.
"""
import json, os, shutil, subprocess, sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
only = set(sys.argv[2:])
SH = """#!/bin/bash
# cwd: /repo, after build.sh. Nothing outside this folder and the build is touched.
D="$(cd "$(dirname "$0")" && pwd)"
export PYTHONDONTWRITEBYTECODE=1 PYTHONPATH=/opt/vp/harness/site:/repo/build/python_packages/torch_mlir
exec timeout 250 /opt/venv/bin/python -W ignore "$D/demo.py"
"""


def seed(id, property, file, edits, needs, breaks, demo):
    if only and id not in only:
        return
    d = os.path.join(V, "seeded", id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    path = os.path.join("/repo", file)
    src = subprocess.run(["git", "-C", "/repo", "show", "HEAD:" + file], capture_output=True, text=True, check=True).stdout
    new = src
    for a, b in edits:
        assert new.count(a) == 1, (id, new.count(a), a)
        new = new.replace(a, b)
    if file.endswith(".py"):
        compile(new, file, "exec")
    t = f"/tmp/mkseed.{id}"
    os.makedirs(t + "/a/" + os.path.dirname(file), exist_ok=True)
    os.makedirs(t + "/b/" + os.path.dirname(file), exist_ok=True)
    open(f"{t}/a/{file}", "w").write(src)
    open(f"{t}/b/{file}", "w").write(new)
    diff = subprocess.run(["git", "diff", "--no-index", "--no-color", "a/" + file, "b/" + file], cwd=t, capture_output=True, text=True).stdout
    diff = diff.replace("a/a/", "a/").replace("b/b/", "b/")
    open(d + "/patch.diff", "w").write(diff)
    shutil.rmtree(t)
    open(d + "/demo.py", "w").write(demo.lstrip("\n"))
    open(d + "/demo.sh", "w").write(SH)
    os.chmod(d + "/demo.sh", 0o755)
    if "fakeir" in demo:
        shutil.copy(os.path.join(V, "tools", "fakeir.py"), d)
    if "libexec" in demo:
        shutil.copy(os.path.join(V, "tools", "libexec.py"), d)
    if "onnxmock" in demo or "decompmock" in demo:
        for f in ("mock.h", "onnxmock.py") + (("decompmock.py",) if "decompmock" in demo else ()):
            shutil.copy(os.path.join(V, "tools", "onnxdemo", f), d)
    json.dump({"property": property, "needs": needs, "what_it_breaks": breaks}, open(d + "/meta.json", "w"), indent=1)
    # the demonstration: clean passes, patched fails
    r0 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
    assert subprocess.run(["git", "-C", "/repo", "status", "--porcelain", "-uno"], capture_output=True, text=True).stdout == ""
    subprocess.run(["git", "-C", "/repo", "apply", d + "/patch.diff"], check=True)
    try:
        r1 = subprocess.run(["bash", d + "/demo.sh"], cwd="/repo", capture_output=True, text=True)
        c = subprocess.run(["python3", "check.py", "--property", property], cwd=V, capture_output=True, text=True)
    finally:
        subprocess.run(["git", "-C", "/repo", "checkout", "--", "."], check=True)
    ok = r0.returncode == 0 and r1.returncode != 0
    print(f"{id}: demo clean {r0.returncode} patched {r1.returncode} {'OK' if ok else 'BAD'}; check {property} exit {c.returncode} {'CAUGHT' if 'VIOLATION property=' + property in c.stdout else 'MISSED'}")
    if r0.returncode:
        print(r0.stdout[-600:], r0.stderr[-1500:])
    else:
        print("   ", (r1.stderr.strip().splitlines() or ["-"])[-1][:200])


exec(compile(open(sys.argv[1]).read(), sys.argv[1], "exec"))
