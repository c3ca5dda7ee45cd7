#!/usr/bin/python3
"""Development tool (no check uses it): confirm planted bugs in a scratch copy.

  seedtest.py [--tests] [--checks] [--all-checks] ID...
For each /verif/seeded/ID: demo passes on the unchanged copy, patch applies and builds, demo fails
with it; --tests: the stable tests still pass; --checks: the check of its property reports it.
"""
import json, os, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
S = os.environ.get("SEEDTEST_DIR", "/tmp/srepo")
OPT = [a for a in sys.argv[1:] if a.startswith("--")]
IDS = [a for a in sys.argv[1:] if not a.startswith("--")] or sorted(os.listdir(V + "/seeded"))


def sh(cmd, cwd=S, env=None, timeout=900):
    e = dict(os.environ)
    e.update(env or {})
    try:
        r = subprocess.run(cmd, shell=True, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, env=e, timeout=timeout, errors="replace")
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired as x:
        return 124, "timeout"


def prep():
    if not os.path.isdir(S):
        subprocess.check_call("mkdir -p %s && cd /repo && git archive HEAD | tar x -C %s && cd %s && git init -q && git add -A -f && git -c user.name=a -c user.email=a@b commit -qm x && printf '_build\n' > .git/info/exclude" % (S, S, S), shell=True)
    head = subprocess.check_output("git -C /repo rev-parse HEAD", shell=True, text=True)
    mark = S + "/.git/head"
    if not os.path.exists(mark):
        open(mark, "w").write(head)
    elif open(mark).read() != head:
        subprocess.check_call("cd %s && git checkout -q -- . && cd /repo && git archive HEAD | tar x -C %s && cd %s && git add -A . && git -c user.name=a -c user.email=a@b commit -qm y" % (S, S, S), shell=True)
        open(mark, "w").write(head)
    for f in ("build.sh", "test.sh"):
        t = open("/opt/vp/" + f).read().replace("/repo", S).replace("bash /opt/vp/build.sh", "bash %s.build.sh" % S)
        open(S + "." + f, "w").write(t)


def build():
    return sh("bash %s.build.sh" % S)


prep()
bad = 0
for i in IDS:
    d = V + "/seeded/" + i
    if not os.path.exists(d + "/patch.diff"):
        continue
    meta = json.load(open(d + "/meta.json"))
    res = {"id": i, "prop": meta["property"]}
    sh("git checkout -q -- .")
    r, o = build()
    assert r == 0, o[-2000:]
    demo = S + ".demo"
    sh("rm -rf {0}; cp -r {1} {0}; rm -f {0}/patch.diff {0}/meta.json".format(demo, d))
    r, o = sh("bash %s/demo.sh" % demo, timeout=300)
    res["demo_clean"] = r
    if r:
        print(o[-1500:])
    r, o = sh("git apply %s/patch.diff" % d)
    if r:
        print(i, "PATCH DOES NOT APPLY", o)
        bad += 1
        continue
    r, o = build()
    res["build"] = r
    if r:
        print(o[-1500:])
    t0 = time.time()
    r, o = sh("bash %s/demo.sh" % demo, timeout=300)
    res["demo_bug"] = r
    res["demo_s"] = round(time.time() - t0, 1)
    res["demo_out"] = o.strip()[-200:]
    if "--tests" in OPT:
        r, o = sh("bash %s.test.sh %s.out.json" % (S, S))
        try:
            j = json.load(open(S + ".out.json"))
            res["tests"] = {k: (len(v) if isinstance(v, list) and k == "passed" else v) for k, v in j.items()}
        except Exception as e:
            res["tests"] = "no result " + str(e) + o[-500:]
    if "--checks" in OPT or "--all-checks" in OPT:
        sys.path.insert(0, V)
        from checks import CHECKS
        for p in ([meta["property"]] if "--checks" in OPT else CHECKS):
            if p not in CHECKS:
                res["check_" + p] = "no check"
                continue
            t0 = time.time()
            r, o = sh("python3 %s/run.py %s quick" % (V, p), env={"VERIF_REPO": S, "VERIF_SEED": "1", "VERIF_TIER": "quick"})
            v = [l for l in o.splitlines() if l.startswith("VIOLATION")]
            if r or p == meta["property"]:
                res["check_" + p] = [r, "%.0fs" % (time.time() - t0), v[:1]]
                if r == 0:
                    print("   *** NOT CAUGHT", i, "by", p)
                elif p == meta["property"]:
                    res["msg"] = [l for l in o.splitlines() if "VIOLATION" not in l and l.strip()][-4:]
    sh("git checkout -q -- .")
    print(json.dumps(res), flush=True)
