#!/usr/bin/python3
"""Build the harness of one property from /repo's current tree, run its generated cases,
shrink and replay failures, and write /verif/evidence/<id>.json.

  run.py <PROPERTY> quick|thorough      one check (VERIF_SEED selects the seed, default 1)
  run.py --replay FILE                  replay a saved counterexample
  run.py --build                        build every harness (setup)
Exit codes: 0 held, 1 violated (with a VIOLATION line), 2 the check itself could not run.
"""
import concurrent.futures as cf
import glob, hashlib, json, os, re, shutil, signal, struct, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("VERIF_REPO", "/repo")
BUILD = os.path.join(VERIF, "_build")
HARN = os.path.join(VERIF, "harness")
NPROC = os.cpu_count() or 8
sys.path.insert(0, VERIF)
from checks import CHECKS  # noqa: E402

INCLUDES = ["-I/usr/include/hdf5/serial", "-I" + REPO + "/lib/SDDS",
            "-I/usr/lib/x86_64-linux-gnu/openmpi/include",
            "-I/usr/lib/x86_64-linux-gnu/openmpi/include/openmpi",
            "-isystem", "/usr/include/eigen3"]
SD = REPO + "/lib/SDDS/"
LIBS = ["-Wl,-rpath,/usr/lib/x86_64-linux-gnu/hdf5/serial:/usr/lib/x86_64-linux-gnu/openmpi/lib",
        "/usr/lib/x86_64-linux-gnu/hdf5/serial/libhdf5.so",
        SD + "libSDDS1.a", SD + "libmdblib.a", SD + "libmdbcommon.a", SD + "liblzma.a",
        "/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi_cxx.so",
        "/usr/lib/x86_64-linux-gnu/openmpi/lib/libmpi.so",
        "-lpugixml", "-lmuparser", "-lz", "-lm", "-lpthread", "-ldl"]
MAINS = {"teufel": "teufel_hybrid.cpp", "propagate": "propagate.cpp", "reflection": "reflection.cpp"}
NOT_LIB = set(MAINS.values()) | {"cavity.cpp"}
FLAVOURS = {
    # the flags of the repository's own Release build
    "plain": ["-O3", "-DNDEBUG", "-fopenmp", "-m64", "-pthread"],
    "san": ["-O1", "-g", "-fno-omit-frame-pointer", "-fopenmp", "-m64", "-pthread",
            "-fsanitize=address,undefined", "-fno-sanitize-recover=all"],
}


class BuildError(Exception):
    pass


def sha(*parts):
    h = hashlib.sha256()
    for p in parts:
        h.update(p if isinstance(p, bytes) else str(p).encode())
        h.update(b"\0")
    return h.hexdigest()[:20]


def rd(p):
    with open(p, "rb") as f:
        return f.read()


def compile_one(src, flags, deps_hash, tag):
    key = sha(rd(src), " ".join(flags), deps_hash, os.path.basename(src))
    obj = os.path.join(BUILD, "obj", "%s-%s-%s.o" % (tag, os.path.basename(src)[:-4], key))
    if os.path.exists(obj):
        return obj
    tmp = obj + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++", *flags, "-c", src, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("compiling %s failed:\n%s" % (src, r.stdout[-4000:]))
    os.replace(tmp, obj)
    return obj


def header_hash():
    hs = sorted(glob.glob(REPO + "/src/*.h") + glob.glob(REPO + "/src/*.h.in") + glob.glob(REPO + "/src/*.hpp"))
    return sha(*[rd(h) for h in hs])


def make_config():
    d = os.path.join(BUILD, "gen")
    os.makedirs(d, exist_ok=True)
    txt = rd(REPO + "/src/config.h.in").decode("utf8", "replace")
    vals = dict(re.findall(r"set\s*\(\s*(TEUFEL_VERSION_\w+)\s+(\w+)\s*\)", rd(REPO + "/CMakeLists.txt").decode("utf8", "replace")))
    txt = re.sub(r"@(\w+)@", lambda m: vals.get(m.group(1), "0"), txt)
    p = os.path.join(d, "config.h")
    if not os.path.exists(p) or rd(p).decode() != txt:
        with open(p + ".tmp%d" % os.getpid(), "w") as f:
            f.write(txt)
        os.replace(p + ".tmp%d" % os.getpid(), p)
    return d


def link(name, objs, flags, pre=(), libs=LIBS):
    key = sha(*objs, " ".join(flags), *pre, *libs)
    exe = os.path.join(BUILD, "bin", "%s-%s" % (name, key))
    if os.path.exists(exe):
        return exe
    tmp = exe + ".%d.tmp" % os.getpid()
    r = subprocess.run(["g++", *flags, *pre, *objs, *libs, "-o", tmp], stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError("linking %s failed:\n%s" % (name, r.stdout[-4000:]))
    os.replace(tmp, exe)
    return exe


def build(prop):
    """-> (harness exe or None, {tool: path})"""
    cfg = CHECKS[prop]
    os.makedirs(BUILD + "/obj", exist_ok=True)
    os.makedirs(BUILD + "/bin", exist_ok=True)
    gen = make_config()
    hh = header_hash()
    vh = sha(*[rd(h) for h in sorted(glob.glob(HARN + "/*.h"))])
    flav = cfg.get("flavour", "plain")
    inc = ["-I" + gen, "-I" + REPO + "/src", *INCLUDES]
    libflags = FLAVOURS[flav] + ["-std=c++11", "-w"] + inc
    harnflags = [f if f != "-O3" else "-O2" for f in FLAVOURS[flav]] + ["-std=c++17", "-w", "-I" + HARN] + inc
    libsrc = sorted(s for s in glob.glob(REPO + "/src/*.cpp") if os.path.basename(s) not in NOT_LIB)
    tools = cfg.get("tools", [])
    jobs = []
    with cf.ThreadPoolExecutor(NPROC) as ex:
        lib_f = [ex.submit(compile_one, s, libflags, hh, flav) for s in libsrc]
        har_f = None
        if cfg.get("src"):
            har_f = ex.submit(compile_one, os.path.join(HARN, cfg["src"]), harnflags, hh + vh, "h" + flav)
        tflav = cfg.get("tool_flavour", flav)
        tflags = FLAVOURS[tflav] + ["-std=c++11", "-w"] + inc
        tlib_f = [ex.submit(compile_one, s, tflags, hh, tflav) for s in libsrc] if tools and tflav != flav else lib_f
        tool_f = {t: ex.submit(compile_one, REPO + "/src/" + MAINS[t], tflags, hh, tflav) for t in tools}
        shim_f = ex.submit(build_shim) if tools else None
        objs = [f.result() for f in lib_f]
        tlib = [f.result() for f in tlib_f]
        har = har_f.result() if har_f else None
        tobj = {t: f.result() for t, f in tool_f.items()}
        res = {}
        lk = FLAVOURS[flav]
        fs = {t: ex.submit(link, t + "-" + tflav, [o, *tlib], FLAVOURS[tflav]) for t, o in tobj.items()}
        exe = link(cfg["src"][:-4] + "-" + flav, [har, *objs], lk) if har else None
        for t, f in fs.items():
            res[t] = f.result()
        if shim_f:
            res["shim"] = shim_f.result()
    return exe, res


def build_shim():
    src = HARN + "/shim.c"
    so = os.path.join(BUILD, "bin", "shim-%s.so" % sha(rd(src)))
    if not os.path.exists(so):
        tmp = so + ".%d.tmp" % os.getpid()
        r = subprocess.run(["gcc", "-O1", "-fPIC", "-shared", src, "-o", tmp, "-ldl"], capture_output=True, text=True)
        if r.returncode:
            raise BuildError(r.stderr)
        os.replace(tmp, so)
    return so


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.cfg = CHECKS[prop]
        self.scratch = tempfile.mkdtemp(prefix="verif-%s-" % prop)
        self.exe, self.tools = build(prop)
        self.env = dict(os.environ)
        self.env.update({
            "OMP_NUM_THREADS": str(self.cfg.get("omp", 1)),
            "OMP_WAIT_POLICY": "PASSIVE",
            "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:allocator_may_return_null=1:handle_abort=0",
            "UBSAN_OPTIONS": "print_stacktrace=1:abort_on_error=1",
            "OMPI_ALLOW_RUN_AS_ROOT": "1", "OMPI_ALLOW_RUN_AS_ROOT_CONFIRM": "1",
            "HDF5_USE_FILE_LOCKING": "FALSE", "PYTHONDONTWRITEBYTECODE": "1",
            "VERIF_REPO": REPO, "VERIF_DIR": VERIF,
        })
        for t, p in self.tools.items():
            self.env["VERIF_TOOL_" + t.upper()] = p
        self.nrun = 0
        self.fill = 0

    # contents of fresh heap memory, so that values never set show up: as it comes, zero, two patterns
    FILLS = [None, 0x00, 0xBE, 0x5A]

    def environ(self, fill):
        b = self.FILLS[fill % len(self.FILLS)]
        if b is None:
            return self.env
        e = dict(self.env)
        e["MALLOC_PERTURB_"] = str(b ^ 0xFF)
        e["ASAN_OPTIONS"] += ":max_malloc_fill_size=1048576:malloc_fill_byte=%d" % b
        return e

    def close(self):
        shutil.rmtree(self.scratch, ignore_errors=True)

    def argv(self):
        if self.exe:
            return [self.exe]
        return ["/usr/bin/python3", os.path.join(HARN, self.cfg["py"])]

    def popen(self, args, stderr=subprocess.DEVNULL, fill=None, err=False):
        env = self.environ(self.fill if fill is None else fill)
        if err:
            env = dict(env, PBT_STDERR="1")
        return subprocess.Popen(self.argv() + args, stdout=subprocess.PIPE, stderr=stderr,
                                env=env,
                                text=True, start_new_session=True, errors="replace")

    def wait(self, p, timeout):
        try:
            o, e = p.communicate(timeout=timeout)
            return p.returncode, o, e
        except subprocess.TimeoutExpired:
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except OSError:
                pass
            p.communicate()
            return "timeout", "", ""

    @staticmethod
    def read_cur(path):
        b = rd(path)
        ti, n = struct.unpack_from("<QQ", b, 0)
        n = min(n, 65536)
        return ti, list(struct.unpack_from("<%dQ" % n, b, 16))

    def replay(self, test, tape, timeout=None):
        """-> (failed, info dict)"""
        timeout = timeout or self.cfg.get("case_timeout", 60)
        self.nrun += 1
        d = tempfile.mkdtemp(prefix="rp", dir=self.scratch)
        try:
            tf = d + "/tape"
            with open(tf, "w") as f:
                f.write(" ".join(map(str, tape)))
            os.mkdir(d + "/w")
            p = self.popen(["--tape", tf, "--test", test, "--cur", d + "/cur", "--scratch", d + "/w"],
                           stderr=open(d + "/err", "wb"), err=True)
            rc, o, e = self.wait(p, timeout)
            with open(d + "/err", "rb") as f:
                e = f.read(1 << 20).decode(errors="replace")
            info = {}
            try:
                with open(d + "/cur.notes", errors="replace") as f:
                    notes = f.read(8000)
            except OSError:
                notes = ""
            if isinstance(o, str) and o.strip():
                try:
                    info = json.loads(o.strip().splitlines()[-1])
                except ValueError:
                    info = {}
            if rc == "timeout":
                return True, {"msg": "case did not finish within %d s" % timeout, "desc": info.get("desc") or notes, "timeout": 1}
            if info.get("status") in (0, 2):
                if rc == 0:
                    return False, info
                return True, dict(info, msg="process ended with status %s after the case" % rc)
            if info.get("status") == 1:
                return True, info
            if rc == 0:
                return True, {"msg": "the process under test ended early (exit 0) inside a case", "desc": notes}
            m = re.search(r"(ERROR: AddressSanitizer[^\n]*|runtime error:[^\n]*|terminate called[^\n]*\n?[^\n]*)", e or "")
            return True, {"msg": "crash, exit status %s %s" % (rc, m.group(0) if m else ""), "desc": info.get("desc") or notes}
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def shrink(self, test, tape, info, budget=60.0, maxruns=400):
        t0 = time.time()
        best, binfo = list(tape), info
        runs = [0]
        if info.get("timeout"):
            return best, binfo
        seen = set()

        def attempt(cand):
            if time.time() - t0 > budget or runs[0] >= maxruns:
                return None
            k = tuple(cand)
            if k in seen:
                return None
            seen.add(k)
            runs[0] += 1
            bad, i = self.replay(test, cand, timeout=30)
            if bad and not i.get("timeout"):
                return i
            return None

        def better(a, b):
            return (len(a), a) < (len(b), b)

        progress = True
        while progress and time.time() - t0 < budget and runs[0] < maxruns:
            progress = False
            # drop a tail, delete blocks
            size = max(1, len(best) // 2)
            while size >= 1:
                i = len(best) - size
                while i >= 0:
                    cand = best[:i] + best[i + size:]
                    r = attempt(cand)
                    if r:
                        best, binfo, progress = cand, r, True
                        i = min(i, len(best)) - size
                    else:
                        i -= size
                    if time.time() - t0 > budget:
                        break
                size //= 2
                if len(best) > 200 and size < len(best) // 32:
                    break
            # zero blocks, then reduce single values
            size = max(1, len(best) // 2)
            while size >= 1:
                for i in range(0, len(best), size):
                    if any(best[i:i + size]):
                        cand = best[:i] + [0] * len(best[i:i + size]) + best[i + size:]
                        r = attempt(cand)
                        if r:
                            best, binfo, progress = cand, r, True
                size //= 2
                if len(best) > 200 and size < len(best) // 32:
                    break
            for i in range(len(best)):
                v = best[i]
                if v == 0 or time.time() - t0 > budget:
                    continue
                lo, hi = 0, v
                for _ in range(6):
                    mid = (lo + hi) // 2
                    if mid in (lo, hi):
                        break
                    cand = best[:i] + [mid] + best[i + 1:]
                    r = attempt(cand)
                    if r:
                        best, binfo, hi = cand, r, mid
                        progress = True
                    else:
                        lo = mid
        # missing choices read as zero, so the tail of zeros says nothing
        cut = list(best)
        while cut and cut[-1] == 0:
            cut.pop()
        if len(cut) < len(best):
            bad, i = self.replay(test, cut, timeout=30)
            if bad:
                best, binfo = cut, i
        return best, binfo

    def run(self):
        t0 = time.time()
        cfg = self.cfg
        tc = cfg[self.tier]
        nw = cfg.get("workers", NPROC)
        cases, secs = tc["cases"], tc["secs"]
        names = subprocess.run(self.argv() + ["--list"], env=self.env, capture_output=True, text=True).stdout.split()[::2]
        procs = []
        for i in range(nw):
            d = os.path.join(self.scratch, "w%d" % i)
            os.mkdir(d)
            n = cases // nw + (1 if i < cases % nw else 0)
            p = self.popen(["--worker", "--seed", str(self.seed * 1000 + i), "--cases", str(n), "--secs", str(secs),
                            "--cur", d + ".cur", "--hashes", d + ".hash", "--scratch", d], fill=i)
            procs.append((p, d))
        evals, nontr, labels, samples, distinct = {}, {}, {}, [], set()
        failures, rule, discards = [], "", 0
        deadline = time.time() + secs + cfg.get("case_timeout", 60) + 30
        for w, (p, d) in enumerate(procs):
            rc, o, _ = self.wait(p, max(5, deadline - time.time()))
            j = None
            if o and o.strip():
                try:
                    j = json.loads(o.strip().splitlines()[-1])
                except ValueError:
                    j = None
            if j:
                for k, v in j["evals"].items():
                    evals[k] = evals.get(k, 0) + v
                for k, v in j["nontrivial"].items():
                    nontr[k] = nontr.get(k, 0) + v
                for k, v in j["labels"].items():
                    labels[k] = labels.get(k, 0) + v
                samples += j["samples"]
                rule = j["rule"]
                discards += j["discards"]
            if j is None or "fail" in j or rc != 0:
                if os.path.exists(d + ".cur"):
                    ti, tape = self.read_cur(d + ".cur")
                    failures.append((names[ti] if ti < len(names) else "?", tape, (j or {}).get("fail", {"msg": "crash or hang, status %s" % rc}), w,
                                     j["cases"] + 1 if j else None))
                else:
                    raise BuildError("worker failed to start: rc=%s" % rc)
            if os.path.exists(d + ".hash"):
                b = rd(d + ".hash")
                distinct.update(struct.unpack("<%dQ" % (len(b) // 8), b[:len(b) // 8 * 8]))
        violations = 0
        done_tests = set()
        for test, tape, f, w, ncase in failures:
            if test in done_tests:
                continue
            if violations and time.time() - t0 > secs + 300:
                print("note: a failure of %s is not examined further: %s" % (test, f.get("msg")))
                continue
            self.fill = w
            bad, info = self.replay(test, tape)
            n = 0
            # a case which did not end in the worker and does not end alone either needs no third opinion
            while bad and n < 2 and not info.get("timeout"):
                bad, info = self.replay(test, tape)
                n += 1
            if not bad:
                # it may depend on what happened before in the same process, or on the schedule
                r = self.history(w, ncase, test, secs)
                if not r:
                    print("note: a failure of %s did not reproduce on replay and is not reported: %s" % (test, f.get("msg")))
                    continue
                done_tests.add(test)
                violations += 1
                path = self.save(test, [], r, dict(history=dict(seed=self.seed * 1000 + w, cases=ncase or 0, secs=secs, fill=w)))
                print("%s (after other cases in the same process): %s" % (test, r.get("msg", "")))
                print("  case: %s" % r.get("desc", "")[:1500])
                print("VIOLATION property=%s replay=%s" % (self.prop, path))
                continue
            done_tests.add(test)
            tape2, info2 = self.shrink(test, tape, info, budget=cfg.get("shrink", 40))
            ok = info2.get("timeout") or all(self.replay(test, tape2)[0] for _ in range(3))
            if not ok:
                tape2, info2 = tape, info
            violations += 1
            path = self.save(test, tape2, info2)
            print("%s: %s" % (test, info2.get("msg", "")))
            print("  case: %s" % info2.get("desc", "")[:1500])
            print("VIOLATION property=%s replay=%s" % (self.prop, path))
        self.fill = 0
        for key, text in known_findings(self.prop):
            bad, info = self.replay("finding_" + key, [])
            if bad:
                print("KNOWN-FINDING: property=%s %s" % (self.prop, text))
        ne = sum(evals.values())
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "exploration",
            "coverage": {
                "evaluations": ne, "distinct_nontrivial": len(distinct), "rule": rule,
                "samples": dedup(samples)[:12] or ["no non-trivial case was generated"],
                "per_test_evaluations": evals, "per_test_nontrivial": nontr, "class_counts": labels, "discarded": discards,
            },
            "assumptions": cfg.get("assumptions", []),
            "wall_s": round(time.time() - t0, 2), "violations": violations,
        }
        os.makedirs(VERIF + "/evidence", exist_ok=True)
        with open(VERIF + "/evidence/%s.json" % self.prop, "w") as fo:
            json.dump(ev, fo, indent=1)
        print("%s %s seed=%d: %d cases, %d distinct non-trivial, %d violation(s), %.1f s" %
              (self.prop, self.tier, self.seed, ne, len(distinct), violations, time.time() - t0))
        if violations:
            return 1
        if ne == 0 or not distinct:
            print("error: nothing was explored")
            return 2
        return 0

    def history(self, w, ncase, test, secs, seed=None):
        """repeat the cases of a worker up to the failing one; the failure, if the same test fails again"""
        d = tempfile.mkdtemp(prefix="hs", dir=self.scratch)
        try:
            p = self.popen(["--worker", "--seed", str(self.seed * 1000 + w if seed is None else seed), "--cases", str(ncase or 10 ** 12),
                            "--secs", str(2 * secs), "--cur", d + "/cur", "--hashes", d + "/hash", "--scratch", d], fill=w)
            rc, o, _ = self.wait(p, 2 * secs + 60)
            if rc in (0, "timeout"):
                return None
            try:
                f = json.loads(o.strip().splitlines()[-1]).get("fail")
            except (ValueError, IndexError):
                f = {"test": test, "msg": "crash, exit status %s" % rc, "desc": ""}
            return f if f and f.get("test") == test else None
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def save(self, test, tape, info, extra={}):
        d = os.path.join(VERIF, "replay")
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, "%s-%s-%s.json" % (self.prop, test, sha(tape)[:8]))
        with open(p, "w") as f:
            json.dump({"property": self.prop, "test": test, "tape": tape, "fill": self.fill, "msg": info.get("msg"), "case": info.get("desc"), **extra}, f, indent=1)
        return p


def dedup(s):
    """one sample per test, then the rest"""
    seen, a, b = set(), [], []
    for x in s:
        t = x.split(":")[0]
        (b if t in seen else a).append(x[:900])
        seen.add(t)
    return a + b


def known_findings(prop):
    p = os.path.join(VERIF, "known_findings.txt")
    out = []
    if os.path.exists(p):
        for line in open(p):
            m = re.match(r"finding: property=(\S+) key=(\S+) (.*)", line.strip())
            if m and m.group(1) == prop:
                out.append((m.group(2), m.group(3)))
    return out


def main():
    a = sys.argv[1:]
    if a[:1] == ["--build"]:
        bad = 0
        for p in (a[1:] or CHECKS):
            try:
                build(p)
            except BuildError as e:
                print("%s: %s" % (p, e))
                bad = 1
        return 2 if bad else 0
    if a[:1] == ["--replay"]:
        j = json.load(open(a[1]))
        r = Runner(j["property"], "quick", 1)
        try:
            r.fill = j.get("fill", 0)
            if "history" in j:
                h = j["history"]
                info = r.history(h["fill"], h["cases"] or None, j["test"], h["secs"], h["seed"]) or {}
                bad = bool(info)
            else:
                bad, info = r.replay(j["test"], j["tape"])
        finally:
            r.close()
        print("case: %s" % info.get("desc", ""))
        if bad:
            print(info.get("msg"))
            print("VIOLATION property=%s replay=%s" % (j["property"], a[1]))
            return 1
        print("the case passes")
        return 0
    prop, tier = a[0], a[1]
    seed = int(os.environ.get("VERIF_SEED", "1") or 1)
    try:
        r = Runner(prop, tier, seed)
    except BuildError as e:
        print("error: " + str(e))
        return 2
    try:
        return r.run()
    except BuildError as e:
        print("error: " + str(e))
        return 2
    finally:
        r.close()


if __name__ == "__main__":
    sys.exit(main())
