"""For each planted change: which monitors of which checks report it.  matrix.py WORKDIR [all] [ids...]

Works on copies of /repo and of the committed /verif under WORKDIR.  With `all`, every check is run, not only the
one of the change's own property."""
import glob, json, os, subprocess, sys, time
W = sys.argv[1]
every = "all" in sys.argv[2:]
ids = [a for a in sys.argv[2:] if a != "all"] or sorted(os.listdir("/verif/seeded"))
V, R = W + "/verif", W + "/repo"
subprocess.run("mkdir -p %s && git -C /verif archive HEAD | tar x -C %s && cp -a /repo %s" % (V, V, R), shell=True, check=True)
for i in ids:
    p = json.load(open("/verif/seeded/%s/meta.json" % i))["property"]
    subprocess.run(["git", "-C", R, "checkout", "-q", "--", "."], check=True)
    subprocess.run(["git", "-C", R, "apply", "/verif/seeded/%s/patch.diff" % i], check=True)
    for c in ["C%02d" % k for k in range(1, 21)] if every else [p]:
        t0 = time.time()
        subprocess.run(["find", V + "/replays", "-type", "f", "-delete"], stderr=subprocess.DEVNULL)
        r = subprocess.run(["python3", "check.py", c], cwd=V, env=dict(os.environ, OTV_REPO=R), capture_output=True, text=True)
        seen = {}
        for f in glob.glob(V + "/replays/*.json"):
            d = json.load(open(f))
            cmd = (d.get("cmdline") or ["?"])
            build = os.path.basename(os.path.dirname(d.get("prog") or "?/?")).split("-")
            k = "%s%s:%s" % (cmd[0], "(%s)" % build[1] if len(build) > 1 and build[1] != "o1" else "", d["cls"])
            seen[k] = seen.get(k, 0) + 1
        print(i, c, r.returncode, "%ds" % (time.time() - t0), sorted(seen.items()), flush=True)
