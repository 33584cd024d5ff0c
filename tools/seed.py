#!/usr/bin/env python3
"""Make and verify planted bugs in a scratch copy of /repo (bind-mounted over /repo in a private namespace).
seed.py make ID...   : build patch.diff, demo.sh, meta.json from tools/seedspec.py, confirm them
seed.py run ID [PROP]: run the property's check against the planted bug"""
import json, os, re, subprocess, sys
V = "/verif"; SCR = "/tmp/seed/repo"
sys.path.insert(0, V + "/tools")

DEMO = '''#!/bin/bash
# compiles the programs beside this file and compares what they do with what C says
here=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
for p in "$here"/*.c; do
  n=$(basename "$p" .c)
  flags=$(cat "$here/$n.flags" 2>/dev/null)
  timeout 60 ./target/debug/c_to_wasm_compiler $flags "$p" -o "$T/$n.wasm" >"$T/$n.log" 2>&1; c=$?
  if [ $c -ne 0 ]; then echo "compile rc=$c" >"$T/$n.got"
  else timeout 60 node runtime/run.mjs "$T/$n.wasm" $(cat "$here/$n.args" 2>/dev/null) >"$T/$n.got" 2>/dev/null; echo "rc=$?" >>"$T/$n.got"; fi
  cmp -s "$T/$n.got" "$here/$n.expected" || { echo "$n differs:"; diff "$T/$n.got" "$here/$n.expected" | head -10; exit 1; }
done
exit 0
'''

def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)

def ns(cmd):
    """run with the scratch copy in place of /repo"""
    return sh(f"unshare -m bash -c 'mount --bind {SCR} /repo && cd /repo && {cmd}'")

def reset():
    if not os.path.isdir(SCR):
        os.makedirs(os.path.dirname(SCR), exist_ok=True)
        sh(f"cp -a /repo {SCR}")
    h = sh("git -C /repo rev-parse HEAD").stdout.strip()
    sh(f"git -C {SCR} checkout -q -- . ; git -C {SCR} fetch -q /repo HEAD; git -C {SCR} checkout -q {h}")
    if sh(f"git -C {SCR} status --short").stdout.strip():
        print("scratch not clean"); sys.exit(2)

def build():
    r = ns("bash /opt/vp/build.sh")
    return r.returncode == 0, r.stdout

def demo(d):
    return ns(f"bash {d}/demo.sh")

def foreign(diff):
    """the changed lines which the original repository does not have"""
    first = sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.strip()
    bad = []; f = None
    for l in diff.splitlines():
        if l.startswith("--- a/"):
            f = l[6:]
            blame = sh(f"git -C /repo blame -l -s {f}").stdout.splitlines()
        elif l.startswith("@@"):
            n = int(re.match(r"@@ -(\d+)", l).group(1))
        elif l.startswith("-"):
            if not blame[n - 1].lstrip("^").startswith(first[:20]): bad.append(f"{f}:{n}")
            n += 1
        elif l.startswith(" "):
            n += 1
    return bad

def make(sid, spec):
    reset()
    d = f"{V}/seeded/{sid}"
    os.makedirs(d, exist_ok=True)
    for f in os.listdir(d):
        os.unlink(d + "/" + f)
    for f, old, new in spec["edits"]:
        p = f"{SCR}/{f}"
        t = open(p).read()
        if t.count(old) != 1:
            print(sid, "BAD EDIT: text occurs", t.count(old), "times in", f); return False
        open(p, "w").write(t.replace(old, new))
    open(d + "/patch.diff", "w").write(sh(f"git -C {SCR} diff").stdout)
    open(d + "/demo.sh", "w").write(spec.get("demo", DEMO))
    os.chmod(d + "/demo.sh", 0o755)
    for n, t in spec.get("files", {}).items():
        open(f"{d}/{n}", "w").write(t)
    for n in [x[:-2] for x in spec.get("files", {}) if x.endswith(".c")]:
        if n + ".expected" not in spec["files"]:
            g = sh(f"cd /tmp/seed && gcc -w -o prog {d}/{n}.c && ./prog {spec['files'].get(n + '.args', '')} > out 2>/dev/null; echo rc=$? >> out; cat out")
            open(f"{d}/{n}.expected", "w").write(g.stdout)
    json.dump({"property": spec["property"], "needs": spec["needs"], "what_it_breaks": spec["breaks"]}, open(d + "/meta.json", "w"), indent=1)
    mine = foreign(open(d + "/patch.diff").read())
    if mine:
        print(sid, "CHANGES LINES THAT ARE NOT ORIGINAL:", mine[:5]); return False
    ok, log = build()
    if not ok:
        print(sid, "DOES NOT BUILD", "\n".join(x for x in log.splitlines() if "error" in x)[:600]); return False
    ns("bash /opt/vp/test.sh /tmp/seed/t.json")
    t = json.load(open("/tmp/seed/t.json")); b = json.load(open("/opt/vp/BASELINE.json"))
    bl = b if isinstance(b, list) else b.get("stable") or b.get("passed") or b.get("tests") or list(b)
    miss = [x for x in bl if x not in t["passed"]]
    r1 = demo(d)
    sh(f"git -C {SCR} checkout -q -- .")
    build()
    r0 = demo(d)
    good = not miss and r1.returncode != 0 and r0.returncode == 0
    print(sid, "OK" if good else "REJECTED", "tests missing:", miss[:4], "demo with:", r1.returncode, "without:", r0.returncode)
    if not good:
        print(r1.stdout[:300], "---", r0.stdout[:300])
    return good

def run(sid, prop=None):
    reset()
    d = f"{V}/seeded/{sid}"
    prop = prop or json.load(open(d + "/meta.json"))["property"]
    r = sh(f"git -C {SCR} apply {d}/patch.diff")
    if r.returncode: print(sid, "does not apply", r.stdout); return
    r = ns(f"cd {V} && timeout 900 python3 check.py {prop}")
    hit = [x for x in r.stdout.splitlines() if x.startswith("VIOLATION")]
    why = [x for x in r.stdout.splitlines() if x.startswith(prop + ":")]
    print(sid, prop, "rc", r.returncode, "CAUGHT" if hit and r.returncode == 1 else "MISSED", (why or r.stdout.splitlines()[-1:])[0][:200])
    reset()

if __name__ == "__main__":
    from seedspec import SEEDS
    ids = sys.argv[2:]
    if sys.argv[1] == "make":
        bad = [i for i in ids if not make(i, SEEDS[i])]
        sys.exit(1 if bad else 0)
    if sys.argv[1] == "run":
        if ids == ["all"]: ids = sorted(os.listdir(V + "/seeded"))
        for i in ids:
            run(i)
