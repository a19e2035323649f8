#!/usr/bin/env python3
"""Development tool: mutation campaign over the library's sources.
mutate.py N SEED WORKERS [file-regex] : N random one-token changes of the compiled
reference code, each built (uninstrumented) and run against all monitors; survivors
are printed for inspection.  Works on scratch copies under /tmp/mut only."""
import json, os, random, re, shutil, subprocess, sys, time, concurrent.futures as cf, threading
HERE = os.path.dirname(os.path.abspath(__file__)); VERIF = os.path.dirname(HERE)
SRC = os.environ.get("MUT_REPO", "/repo"); VAR = os.environ.get("MUT_VARIANT", "plain"); CASES = int(os.environ.get("MUT_CASES", "1500"))
MODS = os.environ["MUT_MODS"].split() if "MUT_MODS" in os.environ else ["conv2", "pool", "elt", "relu", "lut", "diverse", "fc", "rnn", "mov", "hlp", "30mac", "30elt", "30iter", "30mov"]
SKIP = {"avepool_large", "fc30_wzp", "nop30_reloc"}
FIRST = [("30|_compiler|_runtime", ["30mac", "30elt", "30mov", "30iter"]), ("lstm|gru|rnn", ["rnn", "fc"]), ("conv", ["conv2", "30mac"]), ("pool", ["pool", "30elt"]), ("elt|prelu", ["elt", "relu", "30elt"]),
         ("relu|sigm|tanh|softm|lut|l2", ["relu", "lut", "rnn"]), ("mov", ["mov", "30mov"]), ("perm|argm|resize|resc|clip|reduce", ["diverse", "30elt", "30mov"]), ("dot|fully|fc", ["fc", "rnn", "30mac"]), ("hlp|helper|convert", ["hlp"]), ("iter|types", ["30iter", "30mac", "30elt", "30mov"])]
RULES = [(r"(?<![+\-<>=!*/&|(,\w ])\s\+\s", " - "), (r"\s\+\s", " - "), (r"\s-\s", " + "), (r"\s\*\s", " + "), (r"\s/\s", " * "), (r"\s<\s", " <= "), (r"\s<=\s", " < "), (r"\s>\s", " >= "), (r"\s>=\s", " > "),
         (r"\s==\s", " != "), (r"\s!=\s", " == "), (r"\s&&\s", " || "), (r"\s\|\|\s", " && "), (r"\+\+", "--"), (r"\s<<\s", " >> "), (r"\s>>\s", " << "), (r"\bMIN\(", "MAX("), (r"\bMAX\(", "MIN("),
         (r"\s\+=\s", " -= "), (r"\s-=\s", " += "), (r"(?<![\w.])0(?![\w.])", "1"), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])1(?![\w.])", "2"), (r"(?<![\w.])([2-9])(?![\w.])", "1"), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
         (r"_max_fx\(", "_min_fx("), (r"_min_fx\(", "_max_fx("), (r"\bheight\b", "width"), (r"\bwidth\b", "height"), (r"_top\b", "_left"), (r"_left\b", "_top"), (r"_bottom\b", "_right"), (r"_right\b", "_bottom"),
         (r"_H_DIM\b", "_W_DIM"), (r"_W_DIM\b", "_H_DIM"), (r"\brow\b", "col"), (r"\bclmn\b", "row"), (r"^(\s*)[\w.\[\]>-]+(\s[+\-]?=\s).*;\s*$", "DEL"), (r"^(\s*)[\w.>:-]+\(.*\);\s*$", "DEL")]

RULES1 = RULES
# Second set (MUT_RULES=2): narrowed types, hidden state, dropped conditions, shortened loops.
_D = r"\b(?:uint32_t|int32_t|int|unsigned|unsigned int|size_t)(?=\s+\w+\s*(?:=|;|\[))"
RULES2 = [(_D, "int8_t"), (_D, "uint8_t"), (_D, "int16_t"), (_D, "uint16_t"),
          (r"^(?=\s*(?:const )?(?:auto|int|int32_t|uint32_t|int16_t|int8_t|bool|unsigned) \w+ = )", "static "), (r"\(u?int32_t\)", "(int16_t)"), (r"\(u?int32_t\)", "(uint8_t)"), (r"\(int64_t\)", "(int32_t)"), (r"\((?:int16_t|int)\)", "(int8_t)"),
          (r"static_cast<(?:u?int32_t|int)>", "static_cast<int16_t>"), (r"static_cast<(?:int16_t|int64_t)>", "static_cast<int8_t>"), (r"mli_acc40_t", "mli_acc32_t"), (r"\bint64_t\b", "int32_t"),
          (r"\bif \(.*\)(?= ?\{?\s*$)", "if (true)"), (r"\bif \(.*\)(?= ?\{?\s*$)", "if (false)"), (r"(?<=\()[^()&|]+ && ", ""), (r" && [^()&|]+(?=\))", ""), (r"(?<=\()[^()&|]+ \|\| ", ""), (r" \|\| [^()&|]+(?=\))", ""),
          (r"(?<=; )(\w+) < ([\w.>\-\[\]]+)(?=;)", r"\1 < \2 - (\2 > 5)"), (r"(?<=; )(\w+) < ([\w.>\-\[\]]+)(?=;)", r"\1 < (\2 > 200 ? 200 : \2)"), (r"sizeof\(\w+\)", "1"), (r"\breturn (?=\w+\s*[+\-*/])", "return 1 + ")]
# Third set: single conditions of the argument checks.
RULES3 = [(r"(?<=MLI_CHECK\()(?!\w*fail)[^\"]+(?=, *\")", "true"), (r"^(\s*)fail \|= .*;\s*$", "DEL"), (r"^(\s*)ret = .*;\s*$", "DEL"), (r"^(\s*)stat = .*;\s*$", "DEL"), (r"\s&&\s[^,&|]+(?=[,)])", ""), (r"\s\|\|\s[^,&|]+(?=[,)])", ""), (r"\s<=\s", " < "), (r"\s<\s", " <= "), (r"\s>\s", " >= "), (r"\s>=\s", " > "), (r"(?<![\w.])1(?![\w.])", "0"), (r"(?<![\w.])0(?![\w.])", "1"), (r"_H_DIM\b", "_W_DIM"), (r"_C_DIM\b", "_H_DIM")]
if os.environ.get("MUT_RULES") == "3": RULES = RULES3
if os.environ.get("MUT_RULES") == "2": RULES = RULES2


def files():
    d = os.path.join(VERIF, "build", VAR, "lib"); out = set()
    for f in os.listdir(d):
        if f.endswith(".json"):
            for p in json.load(open(os.path.join(d, f)))["deps"]:
                if "/lib/src/" in p or "/include/" in p:
                    i = p.find("/lib/src/") if "/lib/src/" in p else p.find("/include/")
                    out.add(p[i + 1:])
    return sorted(out)


def mutants(rng, n, rx):
    per = {}
    for f in files():
        if not re.search(rx, f) or re.search("mli_check|mli_debug|mli_config|mli_ref_private_types|_api\\.h$|private_types|kernels_factory|ranked_memory", f) and rx == ".":
            continue
        ms = []; ls = open(os.path.join(SRC, f), newline="").read().split("\n"); block = False
        for i, l in enumerate(ls):
            s = l.strip()
            if "/*" in s: block = "*/" not in s.split("/*")[-1]
            elif "*/" in s: block = False; continue
            if block or s.startswith(("//", "*", "#", "MLI_ASSERT", "assert", "MLI_PRINT", "MLI_CHECK", "static_assert", "template", "/*", "typedef", "using", "DEPRECATED")) or "printf" in s: continue
            code = l.split("//")[0]
            for k, (a, b) in enumerate(RULES):
                for m in re.finditer(a, code):
                    if b == "DEL":
                        new = m.group(1) + ";"
                    else:
                        new = code[:m.start()] + re.sub(a, b, m.group(0)) + code[m.end():] if "(?" in a and RULES is RULES1 else code[:m.start()] + (m.expand(b) if RULES is not RULES1 else b) + code[m.end():]
                    if new != code: ms.append((f, i, l, new + ("\r" if l.endswith("\r") and not new.endswith("\r") else "")))
        ms = list({(m[1], m[3]): m for m in ms}.values())
        if ms: per[f] = ms
    out = []
    tot = sum(len(v) ** 0.7 for v in per.values())
    for f, v in sorted(per.items()):
        k = max(1, round(n * len(v) ** 0.7 / tot)); rng.shuffle(v); out += v[:k]
    rng.shuffle(out)
    return out[:n]


def run_tests(bdir, mods, cases, seed, tmp):
    for m in mods:
        exe = os.path.join(bdir, VAR, "mon_" + m)
        ts = [l.split()[0] for l in subprocess.run([exe, "--test", "list"], capture_output=True, text=True).stdout.split("\n") if l.strip()]
        for t in ts:
            if t in SKIP: continue
            n = 20 if t == "lut_tables" else 300 if t == "point_to" else cases
            o = os.path.join(tmp, "o.json")
            if os.path.exists(o): os.unlink(o)
            try:
                r = subprocess.run([exe, "--test", t, "--cases", str(n), "--seed", str(seed), "--out", o], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL, timeout=200)
                rc = r.returncode
            except subprocess.TimeoutExpired:
                return t + " hang"
            if rc not in (0, 1): return "%s rc %d" % (t, rc)
            for l in open(o):
                try: d = json.loads(l)
                except ValueError: continue
                if d["t"] == "fail" and not d["key"].endswith("overlap_value"): return "%s %s" % (t, d["key"])
    return None


LOCK = threading.Lock()


def worker(k, queue, res, nfile):
    base = "/tmp/mut/%d" % k; repo = base + "/repo"; bdir = base + "/build"
    if not os.path.exists(repo):
        os.makedirs(base, exist_ok=True)
        subprocess.run(["git", "clone", "-q", SRC, repo], check=True)
        os.makedirs(bdir, exist_ok=True)
    subprocess.run("git fetch -q %s HEAD && git checkout -q -f FETCH_HEAD" % SRC, shell=True, cwd=repo)
    env = dict(os.environ, VERIF_REPO=repo, VERIF_BUILD=bdir)
    bld = "import sys;sys.path.insert(0,'%s')\nimport build as B\nB.build([(m,'%s') for m in %r],jobs=%d)" % (HERE, VAR, MODS, 1)
    r = subprocess.run(["python3", "-c", bld], env=env, capture_output=True, text=True)
    if r.returncode: print(r.stderr[-2000:]); return
    while True:
        with LOCK:
            if not queue: return
            f, i, old, new = queue.pop()
        p = os.path.join(repo, f); txt = open(p, newline="").read(); ls = txt.split("\n")
        if ls[i] != old: continue
        ls[i] = new
        open(p, "w", newline="").write("\n".join(ls))
        t0 = time.time()
        try:
            r = subprocess.run(["python3", "-c", bld], env=env, capture_output=True, text=True, timeout=1500)
            if r.returncode: st = "nobuild"
            else:
                first = []
                for rx, m in FIRST:
                    if re.search(rx, os.path.basename(f)): first += [x for x in m if x not in first]
                st = run_tests(bdir, first + [m for m in MODS if m not in first], CASES, 5, base)
                st = "killed " + st if st else "SURVIVED"
        except Exception as e:
            st = "error %r" % e
        finally:
            open(p, "w", newline="").write(txt)
        with LOCK:
            with open(nfile, "a") as o: o.write(json.dumps(dict(file=f, line=i + 1, old=old.strip(), new=new.strip(), st=st, t=round(time.time() - t0))) + "\n")


if __name__ == "__main__":
    n, seed, w = int(sys.argv[1]), int(sys.argv[2]), int(sys.argv[3]); rx = sys.argv[4] if len(sys.argv) > 4 else "."
    q = mutants(random.Random(seed), n, rx); print(len(q), "mutants")
    nfile = "/tmp/mut/res.%d.jsonl" % seed
    with cf.ThreadPoolExecutor(w) as ex:
        for f in [ex.submit(worker, k, q, None, nfile) for k in range(w)]: f.result()
