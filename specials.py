"""Checks that are not a single harness binary."""
import concurrent.futures, hashlib, json, os, random, shutil, subprocess, sys, tempfile, threading, time

# ---------------------------------------------------------------- P32: custom key types
# A type is a dict of features; 0 is the simplest value of each.
FEATURES = {
    "kind": ["struct", "enum class", "polymorphic", "final class", "enum", "pointer", "shared_ptr", "vector<bool>"],
    "payload": ["int", "std::string", "heap", "vector", "big"],
    "ns": ["", "user"],
    "members": ["public", "private with friends"],
    "ops": ["free const&", "free by value", "member const"],
    "hash": ["good", "constant", "of two buckets"],
    "ctor": ["converting", "explicit"],
    "copy": ["default", "written, no move", "written, throwing move"],
    "tostring": ["none", "specialised"],
    "fromstring": ["none", "specialised"],
    "extra": ["none", "a field outside =="],
    # things a type may have that make careless code mean something else
    "trap": ["none", "a list constructor", "no operator &", "another comma", "int results"],
    "align": ["natural", "64"],
    "std": ["11", "14", "17"],
    "cc": ["clang++", "g++"],
}


# types of the language and the standard library that have what is required
STD_KINDS = ("pointer", "shared_ptr", "vector<bool>")


def normalise(t):
    t = dict(t)
    t.setdefault("trap", "none")
    if t["kind"] in STD_KINDS:
        t.update(ns="", hash="good")
    if t["kind"] == "enum":
        t["trap"] = "none"
    if t["kind"] in ("enum class", "enum") + STD_KINDS:
        t["trap"] = "none"
        for k in ("members", "ctor", "copy", "align", "payload", "extra"):
            t[k] = FEATURES[k][0]
        t["ops"] = "built in"
    if t["payload"] == "heap" and t["copy"] == "default":
        t["copy"] = "written, no move"
    if t["members"] != "public":
        t["ops"] = "friend"
    if t["kind"] == "polymorphic" or t["copy"] != "default":
        t["extra"] = "none"
    if t["align"] == "64":
        t["std"] = "17"                          # new of over-aligned types needs C++17
    return t


def source(t):
    """The translation unit that defines the type and exercises the library with it."""
    ns, name = t["ns"], "Custom"
    q = (ns + "::" if ns else "") + name
    o = ['#include "custom.h"', "#include <cstring>", "#include <functional>"]
    pay = t["payload"]
    if t["kind"] in STD_KINDS:
        o += ["#include <memory>", "static int gPool[8];", "typedef %s Custom;" % {"pointer": "const int*", "shared_ptr": "std::shared_ptr<int>", "vector<bool>": "std::vector<bool>"}[t["kind"]]]
        number = {"pointer": "(x ? static_cast<int>(x - gPool) : -1)", "shared_ptr": "(x ? static_cast<int>(x.get() - gPool) : -1)", "vector<bool>": "static_cast<int>(x.size()) - 1"}[t["kind"]]
        build = {"pointer": "gPool + (i)", "shared_ptr": "std::shared_ptr<int>(std::shared_ptr<int>(), gPool + (i))", "vector<bool>": "std::vector<bool>(static_cast<std::size_t>(i + 1), true)"}[t["kind"]]
    elif t["kind"] in ("enum class", "enum"):
        o += ["namespace %s {" % ns if ns else "", "%s %s : unsigned char { A, B, C, D, E, F };" % (t["kind"], name), "}" if ns else ""]
        number = "static_cast<int>(x)"
        build = "static_cast<%s>(i)" % q
    else:
        field = {"int": "int v = 0;", "std::string": "std::string v;", "heap": "int* v;", "vector": "std::vector<int> v;", "big": "int v = 0; char pad[3000];"}[pay]
        init = {"int": "v(x)", "std::string": "v(static_cast<std::size_t>(x + 20), 'a')", "heap": "v(new int(x))", "vector": "v(static_cast<std::size_t>(x + 1), x)", "big": "v(x), pad()"}[pay]
        value = {"int": "%sv", "std::string": "static_cast<int>(%sv.size()) - 20", "heap": "*%sv", "vector": "static_cast<int>(%sv.size()) - 1", "big": "%sv"}[pay]
        trap = t["trap"]
        result = "int" if trap == "int results" else "bool"
        yes = "%s ? 2 : 0" if trap == "int results" else "%s"
        o.append("namespace %s {" % ns if ns else "")
        cls = "class" if t["kind"] == "final class" else "struct"
        head = "%s %s%s%s" % (cls, "alignas(64) " if t["align"] == "64" else "", name, " final" if t["kind"] == "final class" else "")
        o.append(head + " {")
        if t["members"] != "public":
            o.append("private: %s" % field)
            o.append("  friend struct std::hash<%s>;" % name)
            o.append("  friend %s operator==(const %s& a, const %s& b) { return %s; }" % (result, name, name, yes % "a.Number() == b.Number()"))
            o.append("  friend %s operator<(const %s& a, const %s& b) { return %s; }" % (result, name, name, yes % "a.Number() < b.Number()"))
            o.append("public:")
        else:
            o.append("public: %s" % field)
        o.append("  %s() : %s {}" % (name, init.replace("x", "0") if pay != "big" else "v(0), pad()"))
        o.append("  %s%s(int x) : %s {}" % ("explicit " if t["ctor"] == "explicit" else "", name, init))
        if t["kind"] == "polymorphic":
            o.append("  virtual ~%s() { %s }" % (name, "delete v;" if pay == "heap" else ""))
            o.append("  virtual int Kind() const { return 0; }")
        elif pay == "heap":
            o.append("  ~%s() { delete v; }" % name)
        if t["copy"] != "default" or t["kind"] == "polymorphic":
            if pay == "heap":
                o.append("  %s(const %s& o) : v(new int(*o.v)) {}" % (name, name))
                o.append("  %s& operator=(const %s& o) { *v = *o.v; return *this; }" % (name, name))
            elif pay == "big":
                o.append("  %s(const %s& o) : v(o.v), pad() {}" % (name, name))
                o.append("  %s& operator=(const %s& o) { v = o.v; return *this; }" % (name, name))
            else:
                o.append("  %s(const %s& o) : v(o.v) {}" % (name, name))
                o.append("  %s& operator=(const %s& o) { v = o.v; return *this; }" % (name, name))
            if t["copy"] == "written, throwing move":
                o.append("  %s(%s&& o) noexcept(false) : %s {}" % (name, name, {"heap": "v(new int(*o.v))", "big": "v(o.v), pad()"}.get(pay, "v(o.v)")))
        if t["extra"] != "none":
            o.append("public: int mark = 0;")
        if trap == "a list constructor":
            o.append("  %s(std::initializer_list<%s> l) : %s(static_cast<int>(40 + l.size())) {}" % (name, name, name))
        if trap == "no operator &":
            o.append("  void operator&() const = delete;")
        o.append("  int Number() const { return %s; }" % (value % ""))
        if t["ops"] == "member const":
            o.append("  %s operator==(const %s& o) const { return %s; }" % (result, name, yes % "Number() == o.Number()"))
            o.append("  %s operator<(const %s& o) const { return %s; }" % (result, name, yes % "Number() < o.Number()"))
        o.append("};")
        if t["ops"].startswith("free"):
            a = "const %s& " % name if "&" in t["ops"] else "%s " % name
            o.append("inline %s operator==(%sa, %sb) { return %s; }" % (result, a, a, yes % "a.Number() == b.Number()"))
            o.append("inline %s operator<(%sa, %sb) { return %s; }" % (result, a, a, yes % "a.Number() < b.Number()"))
        if trap == "another comma":
            o.append("template <class A> struct Nothing {};  template <class A, class B> Nothing<A> operator,(const A&, const B&) { return Nothing<A>(); }")
        if t["kind"] == "polymorphic":
            o.append("struct Derived : %s { std::string more; explicit Derived(int x) : %s(x), more(\"more\") {} int Kind() const override { return 1; } };" % (name, name))
        o.append("}" if ns else "")
        number = "x.Number()"
        build = "%s(i)" % q
    h = {"good": "std::hash<int>()(%s)" % number, "constant": "7", "of two buckets": "static_cast<std::size_t>(%s) %% 2" % number}[t["hash"]]
    if t["kind"] not in STD_KINDS:
        o.append("namespace std { template <> struct hash<%s> { size_t operator()(const %s& x) const { (void)x; return %s; } }; }" % (q, q, h))
    o.append("static std::string Text(int i) { return \"value <\" + std::to_string(i) + \">\"; }")
    o.append("namespace mvlt {")
    if t["tostring"] != "none":
        o.append("template <> inline std::string ToString(const %s& x) noexcept { return Text(%s); }" % (q, number))
    if t["fromstring"] != "none":
        o.append("template <> inline bool FromString(const std::string& s, %s& x) noexcept { if (s.compare(0, 7, \"value <\") != 0) return false; int i = std::atoi(s.c_str() + 7); x = %s; return true; }" % (q, build))
    o.append("}")
    if t["extra"] != "none":
        o.append("template <class T> void SetMark(T& x, int i) { x.mark = i; }")
        o.append("template <class T> int GetMark(const T& x) { return x.mark; }")
    else:
        o.append("template <class T> void SetMark(T&, int) {}")
        o.append("template <class T> int GetMark(const T&) { return -1; }")
    o.append("template <class T> T make(int i) { return %s; }" % build)
    if t["kind"] == "polymorphic":
        o.append("template <class T> const T& Alias(int i) { static %s d[8] = { %s }; return d[i]; }" % ((ns + "::" if ns else "") + "Derived", ", ".join("%sDerived(%d)" % (ns + "::" if ns else "", i) for i in range(8))))
    else:
        o.append("template <class T> const T& Alias(int i) { static T d[6] = { %s }; return d[i]; }" % ", ".join("make<T>(%d)" % i for i in range(6)))
    o.append("int main(int c, char** v) { Traits t = { %s, %s, Text }; for (int i = 0; i < std::atoi(v[2]); ++i) Exercise<%s>(std::strtoull(v[1], nullptr, 10) + i, t); return c < 3; }"
             % ("true" if t["tostring"] != "none" else "false", "true" if t["fromstring"] != "none" else "false", q))
    text = "\n".join(x for x in o if x) + "\n"
    # make and Alias are used inside the header's templates
    return "template <class T> T make(int i);\ntemplate <class T> const T& Alias(int i);\ntemplate <class T> void SetMark(T& x, int i);\ntemplate <class T> int GetMark(const T& x);\n" + text


def try_type(check, lib, t, seed, histories, keep=None):
    """Compiles and runs one type; returns '' or what went wrong."""
    t = normalise(t)
    src = source(t)
    tag = hashlib.sha256((src + json.dumps(t, sort_keys=True) + check.headers_hash() + " ".join(lib[t["cc"]])).encode()).hexdigest()[:24]
    d = os.path.join(check.BUILD, "custom")
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, "%s-%d-%d" % (tag, os.getpid(), threading.get_ident()))
    binary = path + ".bin"
    if not os.path.exists(binary):
        with open(path + ".cpp", "w") as f:
            f.write(src)
        san = ["-fsanitize=address,undefined", "-fno-sanitize-recover=undefined"] + (["-fno-sanitize=vptr,function"] if t["cc"] == "clang++" else ["-fno-sanitize=vptr"])
        r = subprocess.run([t["cc"], "-std=c++" + t["std"], "-DNDEBUG", "-O0", "-w", "-I" + check.SRC, "-I" + check.HAR] + san + [path + ".cpp"] + lib[t["cc"]] + ["-o", binary + ".tmp", "-lpthread", "-ldl"],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace")
        if r.returncode:
            if any(x in r.stdout for x in ("internal compiler error", "Killed signal", "No space left")):
                raise SystemExit(2)
            lines = [l for l in r.stdout.splitlines() if "error" in l]
            return "does not compile: " + (lines[0] if lines else r.stdout[-500:])
        os.replace(binary + ".tmp", binary)
        os.unlink(path + ".cpp")
    env = dict(os.environ)
    env["ASAN_OPTIONS"] = "detect_leaks=0:detect_odr_violation=0"
    try:
        r = subprocess.run([binary, str(seed), str(histories)], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=300)
    except subprocess.TimeoutExpired:
        return "does not finish"
    finally:
        if not keep:
            os.unlink(binary)
    if r.returncode == 0:
        return ""
    lines = [l for l in r.stdout.splitlines() if "CUSTOM FAIL" in l or "ERROR" in l or "runtime error" in l]
    return "fails (exit %d): %s" % (r.returncode, lines[0] if lines else r.stdout[-500:])


def custom_types(check, prop, p, thorough, seed, t0, a):
    os.makedirs(check.BUILD + "/obj", exist_ok=True)
    lib, errs = {}, []
    flags = {"clang++": ["-std=c++17", "-DNDEBUG", "-I" + check.SRC, "-w", "-O1", "-g1"] + check.SAN,
             "g++": ["-std=c++11", "-DNDEBUG", "-I" + check.SRC, "-w", "-O1", "-g1", "-fsanitize=address,undefined", "-fno-sanitize=vptr", "-fno-sanitize-recover=undefined"]}
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 2) as ex:
        res = {cc: [ex.submit(check.compile_one, cc, flags[cc], s) for s in check.lib_sources()] for cc in flags}
        for cc in flags:
            lib[cc] = [f.result()[0] for f in res[cc]]
            errs += [f.result()[1] for f in res[cc] if f.result()[0] is None]
    if errs:
        print("\n".join(errs))
        print("BUILD FAILED for " + prop)
        return 2
    histories = 60 if thorough else 20
    if a.replay:
        d = json.load(open(a.replay))
        e = try_type(check, lib, d["type"], d["seed"], d["histories"])
        print(json.dumps(d["type"]), "->", e or "ok")
        return 1 if e else 0
    rng = random.Random(seed)
    n = int(a.cases or (260 if thorough else 18))
    cases, seen = [], set()
    # every value of every feature occurs; the rest of each type is random
    wanted = [(k, v) for k in FEATURES for v in FEATURES[k]]
    rng.shuffle(wanted)
    traps = []                                   # only possible for some types
    while len(cases) < n:
        t = {k: rng.choice(v) for k, v in FEATURES.items()}
        if t["kind"] in ("enum class", "enum") + STD_KINDS and rng.random() < 0.6:
            t["kind"] = "struct"
        taken = []
        for _ in range(3):
            if wanted:
                k, v = wanted.pop()
                t[k] = v
                taken.append(k)
                if k == "trap" and v != "none":
                    traps.append(v)
        if ("extra", FEATURES["extra"][1]) not in wanted and len(cases) % 4 == 3:
            # only possible for some types
            t.update(extra=FEATURES["extra"][1], kind="struct", copy="default", payload=t["payload"] if t["payload"] != "heap" else "vector")
        if traps and not any(k == "kind" for k in taken):
            t.update(trap=traps.pop(), kind=rng.choice(["struct", "final class"]))
        t = normalise(t)
        key = json.dumps(t, sort_keys=True)
        cases.append((t, rng.randrange(1 << 40)))
        seen.add(key)
    failures = []
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 2) as ex:
        for (t, s), e in zip(cases, ex.map(lambda c: try_type(check, lib, c[0], c[1], histories), cases)):
            if e:
                failures.append((t, s, e))
    violated = bool(failures)
    replay = check.BUILD + "/out/%s.replay" % prop
    os.makedirs(check.BUILD + "/out", exist_ok=True)
    if violated:
        t, s, e = failures[0]
        # shrink: set every feature to its simplest value while the type still fails
        for k in FEATURES:
            if t.get(k) != FEATURES[k][0]:
                u = dict(t)
                u[k] = FEATURES[k][0]
                if k in ("members", "kind") and u.get("ops") in ("friend", "built in"):
                    u["ops"] = FEATURES["ops"][0]
                u = normalise(u)
                if u == t:
                    continue
                e2 = try_type(check, lib, u, s, histories)
                if e2:
                    t, e = u, e2
        with open(replay, "w") as f:
            json.dump({"type": t, "seed": s, "histories": histories, "failure": e, "source": source(normalise(t))}, f, indent=1)
        print("custom type %s: %s" % (json.dumps(t), e))
    samples = [json.dumps(t) for t, _ in cases[:4]]
    extra = {"planned": n, "histories_per_type": histories, "values_used": {k: sorted({c[0].get(k, "") for c in cases}) for k in FEATURES}}
    check.write_evidence(prop, p, thorough, str(seed), n * histories, len(seen) , "the type differs from the other generated types", samples, extra, t0, violated)
    print("%s: %d types, %d failing" % (prop, n, len(failures)))
    return check.finish(prop, violated, replay)


# ---------------------------------------------------------------- P40: a program's whole life
LIFE_OPS = ["create"] * 5 + ["set"] * 2 + ["get", "less", "less", "equal", "interval", "picked", "or", "and", "between", "tree", "inset", "copyset", "copyref", "copyref",
            "resetset", "resetref", "addrow", "erase", "erase", "clear", "sort", "json", "file", "print", "id", "bad", "wrong"]
LIFE_EVENTS = ["static", "local", "local", "new8", "new9", "del8", "del9", "thread", "atexit", "uuid", "probe", "probe", "probe"]


def life_script(rng):
    """A list of [segment, operation, slot, slot, number, number]."""
    out = []
    segments = ["c%d" % i for i in range(10)] + ["d%d" % i for i in range(10)] + ["m", "m", "t1", "t2", "a0", "a1", "a2"]
    for seg in segments:
        if rng.random() < 0.25 and seg != "m":
            continue
        own = int(seg[1]) if seg[0] in "cd" else None
        for _ in range(rng.randrange(1, 9)):
            if rng.random() < (0.4 if seg == "m" else 0.12):
                op = rng.choice(LIFE_EVENTS)
            else:
                op = rng.choice(LIFE_OPS)
            i = own if own is not None and rng.random() < 0.7 else rng.choice([0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 7, 8, 9])
            j = i if rng.random() < 0.6 else rng.choice([0, 0, 1, 2, 3, 4, 4, 5, 6, 7, 7, 8, 9])
            out.append([seg, op, i, j, rng.randrange(7), rng.randrange(7)])
    # the same questions asked early, in main and late
    if rng.random() < 0.5:
        x = rng.randrange(7)
        for seg in [rng.choice(["c0", "c1", "c2", "c3"]), rng.choice(["m", "c4", "t1"]), rng.choice(["d0", "d1", "d2", "d3", "d7", "a0"])]:
            out.insert(rng.randrange(len(out) + 1), [seg, "probe", 0, 0, x, 0])
    if rng.random() < 0.25:
        out.insert(rng.randrange(len(out) + 1), [rng.choice(["m", "m", "t1", "t2", "c4", "c7", "c8"]), "exit", 0, 0, 0, 0])
    return out


def life_run(binary, script, trace, scratch):
    """Returns ('' or what went wrong, counters)."""
    d = tempfile.mkdtemp(dir=scratch)
    with open(d + "/script", "w") as f:
        f.write("".join("%s %s %d %d %d %d\n" % tuple(o) for o in script))
    env = dict(os.environ)
    env.update(LIFE_SCRIPT=d + "/script", LIFE_DIR=d, LIFE_STAT=d + "/stat", ASAN_OPTIONS="detect_leaks=0:detect_odr_violation=0:strict_init_order=0:check_initialization_order=0", UBSAN_OPTIONS="print_stacktrace=0")
    env.pop("LIFE_TRACE", None)
    if trace:
        env["LIFE_TRACE"] = "1"
    try:
        r = subprocess.run([binary], env=env, stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, errors="replace", timeout=60)
        count = {}
        if os.path.exists(d + "/stat"):
            for line in open(d + "/stat"):
                k, v = line.split()
                count[k] = int(v)
        if r.returncode == 3:
            raise SystemExit("life: " + r.stderr[-300:])
        if r.returncode == 0 and count.get("end"):
            return "", count
        lines = [l for l in r.stderr.splitlines() if "LIFE FAIL" in l or "ERROR" in l or "runtime error" in l or "terminate" in l or "what()" in l]
        return "exit %d: %s" % (r.returncode, " / ".join(lines[:3]) if lines else (r.stderr[-300:] or "no message")), count
    except subprocess.TimeoutExpired:
        return "does not finish", {}
    finally:
        shutil.rmtree(d, ignore_errors=True)


def life_build(check, seed):
    """Returns [(name, binary)] or an error text."""
    out = check.BUILD + "/life-%d" % os.getpid()
    shutil.rmtree(out, ignore_errors=True)
    os.makedirs(out)
    san = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function", "-fno-sanitize-recover=undefined"]
    rng = random.Random(seed)
    variants, errs = [], []
    with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 2) as ex:
        objs = {}
        for mode, defs in (("release", ["-DNDEBUG"]), ("debug", [])):
            flags = ["-std=c++11", "-fPIC", "-g1", "-O1", "-w", "-I" + check.SRC, "-I" + check.HAR] + san + defs
            lib = sorted(check.lib_sources())
            objs[mode] = [ex.submit(check.compile_one, "clang++", flags, s) for s in [check.HAR + "/life.cpp", check.HAR + "/life2.cpp"] + lib]
        links = []
        for mode in objs:
            res = [f.result() for f in objs[mode]]
            errs += [e for o, e in res if o is None]
            if errs:
                continue
            user, lib = [o for o, _ in res[:2]], [o for o, _ in res[2:]]
            mixed = user + lib
            rng.shuffle(mixed)
            rng.shuffle(lib)
            orders = [("user's files first", user + lib), ("the library first", lib + user[::-1]), ("mixed order", mixed)]
            for i, (name, order) in enumerate(orders):
                b = out + "/%s%d" % (mode, i)
                links.append((mode + ", " + name, b, ["clang++"] + san + order + ["-o", b, "-lpthread", "-ldl"], None))
            b = out + "/%sS" % mode
            so = out + "/lib%s.so" % mode
            links.append((mode + ", shared library", b, ["clang++"] + san + user + [so, "-Wl,-rpath," + out, "-o", b, "-lpthread", "-ldl"], ["clang++", "-shared"] + san + lib + ["-o", so]))

        def link(l):
            for cmd in (l[3], l[2]):
                if cmd:
                    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
                    if r.returncode:
                        return r.stdout[-3000:]
            return ""
        for l, e in zip(links, ex.map(link, links)):
            if e:
                errs.append(e)
            variants.append((l[0], l[1]))
    return out, variants, errs


def whole_life(check, prop, p, thorough, seed, t0, a):
    os.makedirs(check.BUILD + "/obj", exist_ok=True)
    os.makedirs(check.BUILD + "/out", exist_ok=True)
    replay = check.BUILD + "/out/%s.replay" % prop
    scratch = tempfile.mkdtemp(prefix="life")
    out = None
    try:
        d = json.load(open(a.replay)) if a.replay else {}
        out, variants, errs = life_build(check, d.get("seed", seed))
        if errs:
            print("\n".join(errs))
            print("BUILD FAILED for " + prop)
            return 2
        binaries = dict(variants)
        if a.replay:
            e, _ = life_run(binaries[d["variant"]], d["script"], d["trace"], scratch)
            print(d["variant"], "->", e or "ok")
            return 1 if e else 0
        tb = time.time() - t0
        rng = random.Random(seed)
        n = int(a.cases or (60000 if thorough else 3000))
        cases = []
        for k in range(n):
            cases.append((variants[k % len(variants)][0], life_script(rng), rng.random() < 0.1))
        phases = {"early": 0, "main": 0, "late": 0, "errors": 0, "probes": 0}
        nontrivial, done, failed = set(), 0, None
        budget = 600 if thorough else 40
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 2) as ex:
            step = 128
            for start in range(0, n, step):
                part = cases[start:start + step]
                for c, (e, count) in zip(part, ex.map(lambda c: life_run(binaries[c[0]], c[1], c[2], scratch), part)):
                    done += 1
                    for k in phases:
                        phases[k] += count.get(k, 0)
                    if count.get("early", 0) >= 3 and count.get("late", 0) >= 3:
                        nontrivial.add(json.dumps(c))
                    if e and failed is None:
                        failed = (c, e)
                if failed or time.time() - t0 > budget + tb:
                    break
        if failed:
            (variant, script, trace), e = failed
            # shrink: drop runs of operations while it still fails
            stop = time.time() + 120
            size = max(1, len(script) // 2)
            while size:
                k = 0
                while k < len(script) and time.time() < stop:
                    cut = script[:k] + script[k + size:]
                    e2, _ = life_run(binaries[variant], cut, trace, scratch)
                    if e2:
                        script, e = cut, e2
                    else:
                        k += size
                size //= 2
            if trace:
                e2, _ = life_run(binaries[variant], script, False, scratch)
                if e2:
                    trace, e = False, e2
            with open(replay, "w") as f:
                json.dump({"seed": seed, "variant": variant, "trace": trace, "failure": e, "script": script}, f, indent=1)
            print("%s: %s: %s" % (variant, e, "; ".join(" ".join(map(str, o)) for o in script)))
        samples = ["%s: %s" % (c[0], "; ".join(" ".join(map(str, o)) for o in c[1][:12])) for c in cases[:4]]
        extra = {"planned": n, "variants": [v[0] for v in variants], "operations_by_phase": phases}
        check.write_evidence(prop, p, thorough, str(seed), done, len(nontrivial), "at least three operations ran before main and three after it", samples, extra, t0, bool(failed))
        print("%s: %d lives, %d non-trivial, operations %s, build %.1f s, run %.1f s" % (prop, done, len(nontrivial), phases, tb, time.time() - t0 - tb))
        return check.finish(prop, bool(failed), replay)
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
        if out:
            shutil.rmtree(out, ignore_errors=True)
