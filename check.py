#!/usr/bin/env python3
"""Driver of every check: ./check.py <property> [--thorough] [--seed N] [--cases N] [--replay FILE]

Builds the library from /repo's working tree together with the harness that decides the property, runs it,
writes evidence/<property>.json.  Exit 0: the property held on everything explored; exit 1: a line
"VIOLATION property=<id> replay=<path>" was printed.  An internal error exits 2.
"""
import argparse, concurrent.futures, glob, hashlib, json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get("MVAULT_REPO", "/repo")
SRC = os.path.join(REPO, "Source")
BUILD = os.path.join(VERIF, ".build")
HAR = os.path.join(VERIF, "harness")

sys.path.insert(0, VERIF)
from groups import GROUPS, PROPS, SAN, TSAN   # noqa: E402


def lib_sources():
    r = sorted(glob.glob(SRC + "/*.cpp") + glob.glob(SRC + "/*/*.cpp"))
    if not r:
        raise SystemExit("no sources under " + SRC)
    return r


_headers = None


def headers_hash():
    """Hash of everything a translation unit may include."""
    global _headers
    if _headers is None:
        h = hashlib.sha256()
        files = []
        for root, _, names in os.walk(SRC):
            files += [os.path.join(root, n) for n in names if n.endswith((".h", ".hpp"))]
        files += glob.glob(HAR + "/*.h") + glob.glob(VERIF + "/engine/*.h")
        for f in sorted(files):
            h.update(f.encode())
            h.update(open(f, "rb").read())
        _headers = h.hexdigest()
    return _headers


def compile_one(cc, flags, src):
    """Returns (object path, error text)."""
    h = hashlib.sha256()
    h.update(headers_hash().encode())
    h.update(open(src, "rb").read())
    h.update(" ".join([cc] + flags + [src]).encode())
    obj = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    if os.path.exists(obj):
        return obj, ""
    tmp = "%s.%d.tmp" % (obj, os.getpid())
    r = subprocess.run([cc] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        return None, "%s\n%s" % (src, r.stdout[-6000:])
    os.replace(tmp, obj)
    return obj, ""


def prune():
    """Keeps the object cache small."""
    objs = sorted(glob.glob(BUILD + "/obj/*.o"), key=os.path.getmtime)
    for f in objs[:-400]:
        try:
            os.unlink(f)
        except OSError:
            pass


def build(group, extra_defs=(), out=None):
    """Builds the harness of a group; returns (binary, error)."""
    g = GROUPS[group]
    os.makedirs(BUILD + "/obj", exist_ok=True)
    base = ["-std=c++17", "-DNDEBUG", "-I" + SRC, "-I" + VERIF + "/engine", "-w"] + list(g.get("defs", [])) + list(extra_defs)
    san = g.get("san", SAN)
    dbg = g.get("debuginfo", "-g1")
    jobs = []
    for s in g.get("plain", []):
        jobs.append((os.path.join(HAR, s), base + ["-O2", dbg]))
    for s in g["src"]:
        jobs.append((os.path.join(HAR, s), base + g.get("opt", ["-O1"]) + [dbg] + san))
    jobs.append((VERIF + "/engine/pbt.cpp", base + ["-O1", dbg] + g.get("engine_san", san)))
    if g.get("lib", True):
        for s in lib_sources():
            jobs.append((s, base + ["-O1", dbg] + san + g.get("libflags", [])))
    # the library and some harness files once more with other flags
    for flags, files in g.get("variants", []):
        for s in [os.path.join(HAR, f) for f in files] + lib_sources():
            jobs.append((s, ["-std=c++17", "-I" + SRC, "-I" + VERIF + "/engine", "-w"] + flags + (["-g1"] if s.startswith(HAR) else [])))
    # the long ones first
    first = {s: i for i, s in enumerate(g.get("slow", []))}
    jobs.sort(key=lambda j: first.get(os.path.basename(j[0]), 99))
    objs, errs = [], []
    with concurrent.futures.ThreadPoolExecutor(max(2, os.cpu_count() or 2)) as ex:
        for o, e in ex.map(lambda j: compile_one(g.get("cc", "clang++"), j[1], j[0]), jobs):
            if o:
                objs.append(o)
            else:
                errs.append(e)
    if errs:
        return None, "\n".join(errs)
    key = hashlib.sha256(" ".join(objs + san).encode()).hexdigest()[:24]
    binary = out or os.path.join(BUILD, "%s-%s" % (group, key))
    if not os.path.exists(binary):
        for old in glob.glob(os.path.join(BUILD, group + "-*")):
            if time.time() - os.path.getmtime(old) > 3600:
                os.unlink(old)
        tmp = "%s.%d" % (binary, os.getpid())
        r = subprocess.run([g.get("cc", "clang++")] + g.get("link_san", san) + objs + ["-o", tmp, "-lpthread", "-ldl", "-rdynamic"] + g.get("link", []),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if r.returncode:
            return None, r.stdout[-6000:]
        os.replace(tmp, binary)
    prune()
    return binary, ""


def locales():
    """Compiles the locales some checks run in, where localedef is there; returns their directory."""
    d = os.path.join(BUILD, "locale")
    os.makedirs(d, exist_ok=True)
    for name, charmap in (("de_DE", "UTF-8"), ("fr_FR", "ISO-8859-1"), ("tr_TR", "ISO-8859-9"), ("fa_IR", "UTF-8"), ("hi_IN", "UTF-8")):
        out = os.path.join(d, "%s.%s" % (name, charmap))
        if os.path.exists(out):
            continue
        tmp = "%s.%d" % (out, os.getpid())
        try:
            r = subprocess.run(["localedef", "-c", "-i", name, "-f", charmap, tmp], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL)
            if r.returncode == 0:
                os.rename(tmp, out)
        except OSError:
            pass
    return d


def known_findings(prop):
    out = []
    try:
        for line in open(VERIF + "/known_findings.txt"):
            m = re.match(r"known: property=(\S+) (.*)", line)
            if m and m.group(1) == prop:
                out.append(m.group(2).strip())
    except OSError:
        pass
    return out


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("prop")
    ap.add_argument("--thorough", action="store_true")
    ap.add_argument("--seed")
    ap.add_argument("--cases")
    ap.add_argument("--workers")
    ap.add_argument("--budget")
    ap.add_argument("--replay")
    ap.add_argument("--verbose", action="store_true")
    a = ap.parse_args()
    prop = a.prop
    if prop not in PROPS:
        print("unknown property", prop)
        return 2
    p = PROPS[prop]
    thorough = a.thorough or os.environ.get("VERIF_TIER") == "thorough"
    seed = str(a.seed or os.environ.get("VERIF_SEED") or "1")
    if not re.fullmatch(r"\d{1,18}", seed):
        seed = str(int(hashlib.sha256(seed.encode()).hexdigest()[:12], 16))
    t0 = time.time()
    os.makedirs(BUILD, exist_ok=True)
    os.makedirs(VERIF + "/evidence", exist_ok=True)

    if p.get("special"):
        import specials
        return getattr(specials, p["special"])(sys.modules[__name__], prop, p, thorough, int(seed), t0, a)

    binary, err = build(p["group"])
    if binary is None:
        print(err)
        print("BUILD FAILED for " + prop)
        return 2
    if GROUPS[p["group"]].get("run_as"):
        # the program runs under a name that is awkward for whoever passes it on
        odd = os.path.join(BUILD, GROUPS[p["group"]]["run_as"])
        os.makedirs(os.path.dirname(odd), exist_ok=True)
        tmp = "%s.%d" % (odd, os.getpid())
        shutil.copyfile(binary, tmp)
        os.chmod(tmp, 0o755)
        os.replace(tmp, odd)
        binary = odd
    tb = time.time() - t0
    out = os.path.join(BUILD, "out")
    os.makedirs(out, exist_ok=True)
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:abort_on_error=0:allocator_may_return_null=1:detect_stack_use_after_return=0:handle_abort=1:detect_odr_violation=0:quarantine_size_mb=32"
    env["UBSAN_OPTIONS"] = "print_stacktrace=1:halt_on_error=1"
    env["TSAN_OPTIONS"] = "halt_on_error=1:report_signal_unsafe=0:history_size=5"
    env["PBT_SCRATCH_ROOT"] = tempfile.gettempdir()
    if p.get("locales"):
        env["LOCPATH"] = locales()
    if a.replay:
        return subprocess.run([binary, "--prop", prop, "--replay", a.replay], env=env).returncode
    for f in (out + "/%s.replay" % prop, out + "/%s.run.json" % prop):
        if os.path.exists(f):
            os.unlink(f)
    workers = a.workers or str(p.get("workers", max(2, os.cpu_count() or 2)))
    budget = float(a.budget) if a.budget else (p.get("thorough_budget", 2400) if thorough else p.get("budget", 240))
    cmd = [binary, "--prop", prop, "--seed", seed, "--workers", workers, "--out", out,
           "--budget", str(budget), "--case-timeout", str(p.get("case_timeout", 60))]
    if thorough:
        cmd.append("--thorough")
    if a.cases:
        cmd += ["--cases", a.cases]
    if a.verbose:
        cmd.append("--verbose")
    r = subprocess.run(cmd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")
    sys.stdout.write("".join(l + "\n" for l in r.stdout.splitlines() if not l.startswith("VIOLATION")))
    sys.stderr.write(r.stderr[-3000:])
    run = out + "/%s.run.json" % prop
    if r.returncode not in (0, 1) or not os.path.exists(run):
        print("HARNESS ERROR: exit %d" % r.returncode)
        return 2
    d = json.load(open(run))
    violated = r.returncode == 1
    extra = {k: d[k] for k in ("labels", "other_property_stops", "discarded", "unreproduced", "budget_hit", "planned") if k in d}
    write_evidence(prop, p, thorough, seed, d["evaluations"], d["distinct_nontrivial"], d["rule"], d["samples"], extra, t0, violated)
    print("build %.1f s, run %.1f s" % (tb, time.time() - t0 - tb))
    return finish(prop, violated, out + "/%s.replay" % prop)


def write_evidence(prop, p, thorough, seed, evaluations, nontrivial, rule, samples, extra, t0, violated):
    cov = {"evaluations": evaluations, "distinct_nontrivial": nontrivial,
           "rule": p.get("how", "generated cases") + "; a case is non-trivial when " + rule,
           "samples": samples}
    cov.update(extra)
    ev = {"property": prop, "tier": "thorough" if thorough else "quick", "seed": int(seed), "level": "exploration",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": 1 if violated else 0,
          "assumptions": p.get("assumptions", [])}
    with open(VERIF + "/evidence/%s.json" % prop, "w") as f:
        json.dump(ev, f, indent=1)
        f.write("\n")


def finish(prop, violated, replay):
    for k in known_findings(prop):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    if violated:
        print("VIOLATION property=%s replay=%s" % (prop, replay))
        return 1
    return 0


if __name__ == "__main__":
    sys.exit(main())
