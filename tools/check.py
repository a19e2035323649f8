#!/usr/bin/env python3
"""Runner: check.py <property> [quick|thorough]   |   check.py --replay FILE

Builds the monitors against /repo's working tree, runs the property's
workloads (sharded over the cores), classifies what the monitors reported,
writes the evidence file.  Exit 0 held / exit 1 with VIOLATION / other: error."""
import collections, concurrent.futures, json, os, re, signal, subprocess, sys, threading, time
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
import build as B
import props as P

VERIF = B.VERIF
OUT = os.path.join(VERIF, "out")
SHARDS = 8
STALL = 60.0          # seconds without progress inside one case: suspicious
STALL_RERUN = 180.0   # re-run alone with this much: then it is a hang
ENV = dict(os.environ,
           ASAN_OPTIONS="detect_leaks=0:exitcode=99:redzone=64:quarantine_size_mb=16:detect_stack_use_after_return=1:allocator_may_return_null=0:handle_abort=1",
           UBSAN_OPTIONS="print_stacktrace=1:halt_on_error=1",
           TSAN_OPTIONS="halt_on_error=1:exitcode=66:history_size=4")


def known():
    p = os.path.join(VERIF, "known_findings.json")
    return [k for k in json.load(open(p))["findings"] if k.get("status") == "known"] if os.path.exists(p) else []


def matches(k, prop, f):
    if prop not in k["properties"]:
        return False
    if not re.fullmatch(k["key"], f["key"]):
        return False
    return re.search(k.get("desc", ""), f.get("desc", "")) is not None


def read_state(path):
    """(idx, done, desc) from the mmap'd progress file"""
    try:
        d = open(path, "rb").read()
        idx = int.from_bytes(d[64:72], "little"); done = int.from_bytes(d[72:80], "little")
        return idx, done, d[80:].split(b"\0")[0].decode("latin1")
    except OSError:
        return 0, 0, ""


def crash_key(test, err, rc):
    m = re.search(r"SUMMARY: (\w+): ([\w-]+) (\S+?)(?::\d+)*(?: in (\S+))?\s", err)
    if m:
        fn = re.search(r"#\d+ 0x\w+ in ([\w:~<>]+)[^\n]*?/(?:lib|include)/", err)
        return "%s:%s:%s" % (test, m.group(2), fn.group(1) if fn else os.path.basename(m.group(3)))
    m = re.search(r"(\S+?):\d+:\d+: runtime error: ([a-z -]+)", err)
    if m:
        return "%s:%s:%s" % (test, m.group(2).strip().replace(" ", "-"), os.path.basename(m.group(1)))
    m = re.search(r"Assertion `(.*?)' failed", err)
    if m:
        return "%s:assertion" % test
    return "%s:exit%d" % (test, rc)


class Runner:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.fails, self.sums = [], []
        self.errors = []
        self.lock = threading.Lock()
        self.dir = os.path.join(OUT, "run-%s-%d" % (prop, os.getpid()))
        os.makedirs(self.dir, exist_ok=True)

    def one(self, exe, mod, variant, test, cases, shard, seed, start=0, only=None, stall=STALL):
        """run one process; returns (rc, stalled, idx, desc, stderr, records)"""
        tag = "%s.%s.%s.%d.%d.%d" % (mod, variant, test, shard, seed, start if only is None else only)
        o, s, e = [os.path.join(self.dir, tag + x) for x in (".out", ".st", ".err")]
        for p in (o, s, e):
            if os.path.exists(p):
                os.unlink(p)
        cmd = [exe, "--test", test, "--seed", str(seed), "--cases", str(cases), "--shard", str(shard),
               "--shards", str(SHARDS), "--start", str(start), "--out", o, "--state", s]
        if only is not None:
            cmd += ["--only", str(only)]
        with open(e, "wb") as ef:
            p = subprocess.Popen(cmd, stdout=subprocess.DEVNULL, stderr=ef, env=ENV, start_new_session=True, cwd=self.dir)
            last, t0, stalled, t_wait = None, time.time(), False, 0.01
            while True:
                try:
                    p.wait(timeout=t_wait)
                    break
                except subprocess.TimeoutExpired:
                    t_wait = min(0.5, t_wait * 1.5)
                    cur = read_state(s)[0]
                    if cur != last:
                        last, t0 = cur, time.time()
                    elif time.time() - t0 > stall:
                        stalled = True
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        break
                    if os.path.getsize(e) > 50 << 20:
                        os.killpg(p.pid, signal.SIGKILL)
                        p.wait()
                        break
        idx, done, desc = read_state(s)
        err = open(e, "rb").read()[:200000].decode("latin1")
        recs = []
        if os.path.exists(o):
            for line in open(o):
                try:
                    recs.append(json.loads(line))
                except ValueError:
                    pass
        for p_ in (o, s, e):
            if os.path.exists(p_):
                os.unlink(p_)
        return p.returncode, stalled, idx, desc, err, recs

    def shard(self, exe, mod, variant, test, cases, shard, seed):
        start, restarts = 0, 0
        while True:
            rc, stalled, idx, desc, err, recs = self.one(exe, mod, variant, test, cases, shard, seed, start)
            base = dict(module=mod, variant=variant, seed=seed)
            with self.lock:
                for r in recs:
                    if r["t"] == "fail":
                        r.update(base)
                        (self.errors if r["kind"] == "harness" else self.fails).append(r)
                    else:
                        r.update(base)
                        self.sums.append(r)
            if rc == 0 and not stalled:
                return
            if rc == 2:
                with self.lock:
                    self.errors.append(dict(base, test=test, msg=err[-500:]))
                return
            f = dict(base, t="fail", test=test, idx=idx, desc=desc)
            if stalled:
                rc2, st2, _, _, err2, _ = self.one(exe, mod, variant, test, cases, shard, seed, only=idx, stall=STALL_RERUN)
                if st2:
                    f.update(kind="hang", key="%s:hang" % test, msg="case does not terminate within %ds alone" % STALL_RERUN)
                elif rc2 in (0, 1):
                    # slow machine, not a hang: inconclusive here, go on
                    start = idx + 1
                    continue
                else:
                    f.update(kind="crash", key=crash_key(test, err2, rc2), msg=summ(err2), report=err2[:6000])
            else:
                f.update(kind="crash", key=crash_key(test, err, rc), msg=summ(err) or "exit %d" % rc, report=err[:6000])
            with self.lock:
                self.fails.append(f)
            restarts += 1
            if restarts > 40 or (f["kind"] == "hang" and not self.is_known(f)):
                return
            if restarts > 3 and not self.is_known(f):
                return
            start = idx + 1

    def is_known(self, f):
        return any(matches(k, self.prop, f) for k in known())


def summ(err):
    for l in err.split("\n"):
        if "ERROR: " in l or "runtime error:" in l or "Assertion" in l or "WARNING: ThreadSanitizer" in l:
            return l.strip()[:300]
    return err.strip()[-200:]


def relevant(prop, f):
    kinds = P.PROPS[prop].get("kinds")
    return kinds is None or f["kind"] in kinds


def run_property(prop, tier, seed):
    t0 = time.time()
    spec = P.PROPS[prop]
    jobs, targets = [], set()
    seeds = [seed] if tier == "quick" else [seed, seed + 1000003]
    for w in spec["work"]:
        mod, tests, variants, q, th = w
        variants = variants if tier == "quick" else P.more_variants(variants)
        n = q if tier == "quick" else th
        for vi, v in enumerate(variants):
            targets.add((mod, v))
            for t in tests:
                for sd in seeds:
                    jobs.append((mod, v, t, n, sd * 16 + vi))
    bt = time.time()
    exes = B.build(sorted(targets))
    bt = time.time() - bt
    R = Runner(prop, tier, seed)
    # `tests` may be "*": ask the binary
    alljobs = []
    for mod, v, t, n, sd in jobs:
        alljobs.append((mod, v, t, n, sd))
    cap = {}
    for mod, v in targets:
        out = subprocess.run([exes[(mod, v)], "--test", "list"], capture_output=True, text=True, env=ENV).stdout
        cap[(mod, v)] = [l.split()[0] for l in out.split("\n") if l.strip()]
    with concurrent.futures.ThreadPoolExecutor(SHARDS) as ex:
        futs = []
        for mod, v, t, n, sd in alljobs:
            if t not in cap[(mod, v)]:
                raise B.BuildError("test %s missing in %s" % (t, mod))
            for s in range(SHARDS):
                futs.append(ex.submit(R.shard, exes[(mod, v)], mod, v, t, n, s, sd))
        for f in futs:
            f.result()
    if R.errors:
        for e in R.errors[:5]:
            print("HARNESS-ERROR", json.dumps(e)[:1500], file=sys.stderr)
        return 3
    fails = [f for f in R.fails if relevant(prop, f)]
    kn, new = collections.OrderedDict(), []
    for f in fails:
        hit = [k for k in known() if matches(k, prop, f)]
        if hit:
            kn.setdefault(hit[0]["id"], [hit[0], 0, f])[1] += 1
        else:
            new.append(f)
    # evidence
    ran = sum(s["ran"] for s in R.sums); skipped = sum(s["skipped"] for s in R.sums)
    sigs = set()
    for s in R.sums:
        sigs.update((s["test"], x) for x in s["sigs"])
    counts = collections.Counter(); per = collections.Counter(); samples = []
    for s in R.sums:
        counts.update(s["counts"]); per["%s/%s" % (s["test"], s["variant"])] += s["ran"]
        if s["samples"] and len(samples) < 12 and not any(x.startswith(s["test"] + "#") for x in samples):
            samples.append(s["test"] + "# " + s["samples"][0])
    ev = {"property": prop, "tier": tier, "seed": seed, "level": "exploration",
          "coverage": {"evaluations": ran, "distinct_nontrivial": len(sigs),
                       "rule": spec.get("rule", P.RULE), "samples": samples,
                       "outside_preconditions_skipped": skipped,
                       "cases_per_test_and_variant": dict(sorted(per.items())),
                       "observed": dict(sorted(counts.items())),
                       "known_findings_seen": {k: v[1] for k, v in kn.items()}},
          "assumptions": spec.get("assumptions", P.ASSUME),
          "wall_s": round(time.time() - t0, 2), "violations": len(new)}
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(VERIF, "evidence", prop + ".json"), "w") as f:
        json.dump(ev, f, indent=1)
    try:
        os.rmdir(R.dir)
    except OSError:
        pass
    for kid, (k, n, f) in kn.items():
        print("KNOWN-FINDING: property=%s %s [%d observations]" % (prop, k["what"], n))
    if new:
        os.makedirs(os.path.join(OUT, "replay"), exist_ok=True)
        seen = set()
        for f in new:
            if f["key"] in seen or len(seen) >= 5:
                continue
            seen.add(f["key"])
            path = os.path.join(OUT, "replay", "%s-%d.json" % (prop, len(seen)))
            json.dump(f, open(path, "w"), indent=1)
            print("%s %s #%s %s: %s | %s" % (f["variant"], f["test"], f["idx"], f["kind"], f["msg"], f.get("desc", "")[:600]))
            print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    if ran == 0 or len(sigs) < P.MIN_NONTRIVIAL:
        print("observed too little: ran %d, non-trivial %d" % (ran, len(sigs)), file=sys.stderr)
        return 4
    print("OK property=%s %s: %d cases, %d distinct non-trivial, build %.0fs, total %.0fs" % (prop, tier, ran, len(sigs), bt, time.time() - t0))
    return 0


def replay(path):
    f = json.load(open(path))
    exe = B.build([(f["module"], f["variant"])])[(f["module"], f["variant"])]
    cmd = [exe, "--test", f["test"], "--seed", str(f["seed"]), "--only", str(f["idx"])]
    print(" ".join(cmd))
    r = subprocess.run(cmd, env=ENV)
    return 1 if r.returncode else 0


if __name__ == "__main__":
    if sys.argv[1] == "--replay":
        sys.exit(replay(sys.argv[2]))
    prop = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    try:
        sys.exit(run_property(prop, tier, seed))
    except B.BuildError as e:
        print("BUILD-ERROR", e, file=sys.stderr)
        sys.exit(5)
