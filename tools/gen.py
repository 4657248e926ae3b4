"""Writes /verif/seeded/<id>/ from the table below."""
import json, os, shutil, subprocess, sys
SEEDS = []
def S(id, prop, needs, breaks, edits, demo, sh=None):
    SEEDS.append(dict(id=id, property=prop, needs=needs, what_it_breaks=breaks, edits=edits, demo=demo, sh=sh))
exec(open("/tmp/seedgen/table.py").read())
H = open("/tmp/seedgen/t.hpp").read(); SH = open("/tmp/seedgen/demo.sh").read()
want = sys.argv[1:]
base = "/tmp/seedgen/src"
subprocess.run(["rm", "-rf", base]); os.makedirs(base)
subprocess.run("git -C /repo archive HEAD | tar x -C %s && cd %s && git init -q && git add -A && git -c user.name=a -c user.email=a@b commit -qm x" % (base, base), shell=True, check=True)
for s in SEEDS:
    if want and s["id"] not in want: continue
    subprocess.run(["git", "-C", base, "checkout", "-q", "--", "."], check=True)
    for e in s["edits"]:
        f, old, new = e[:3]
        after = e[3] if len(e) > 3 else None
        p = os.path.join(base, f); t = open(p, encoding="utf-8", newline="").read()
        i = 0
        if after:
            for a in (after if isinstance(after, list) else [after]):
                j = t.find(a, i)
                assert j >= 0, (s["id"], "anchor", a)
                i = j + len(a)
        if "\r\n" in t: old = old.replace("\n", "\r\n"); new = new.replace("\n", "\r\n")
        k = t.find(old, i)
        assert k >= 0, (s["id"], "old", old)
        if not after: assert t.count(old) == 1, (s["id"], "not unique", t.count(old), old)
        t = t[:k] + new + t[k + len(old):]
        open(p, "w", encoding="utf-8", newline="").write(t)
    d = "/verif/seeded/" + s["id"]
    os.makedirs(d, exist_ok=True)
    diff = subprocess.run(["git", "-C", base, "diff"], capture_output=True).stdout
    open(d + "/patch.diff", "wb").write(diff)
    open(d + "/demo.sh", "w").write(s["sh"] or SH)
    os.chmod(d + "/demo.sh", 0o755)
    open(d + "/demo.cpp", "w").write(s["demo"])
    if '"t.hpp"' in s["demo"]: open(d + "/t.hpp", "w").write(H)
    json.dump(dict(property=s["property"], needs=s["needs"], what_it_breaks=s["what_it_breaks"]), open(d + "/meta.json", "w"), indent=1)
    print(s["id"], len(diff))
