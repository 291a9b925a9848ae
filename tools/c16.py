"""C16: the same operations in every feature set and profile, compared transcript by transcript.

cfgprobe runs a fixed workload per section (typed, dynamic, headers, integers, wrappers, refusals,
I/O faults, conversions, format modules, derive) whose inputs depend only on the seed, and prints a
hash of all observations per case. Every build's transcript is compared with the first build's that
has the section. All 32 feature sets are also compiled."""
import concurrent.futures as cf, itertools, json, os, shutil, subprocess, time
import common as c

PROBE = os.path.join(c.VERIF, "cfgprobe")
FEATURES = ["time", "num-traits", "num-bigint", "bigdecimal", "dlhn_derive"]
ALL32 = [tuple(f for i, f in enumerate(FEATURES) if m >> i & 1) for m in range(32)]
FULL = tuple(FEATURES)
QUICK = [FULL, (), ("time",), ("num-traits", "num-bigint"), ("num-traits", "bigdecimal"),
         ("num-traits", "num-bigint", "bigdecimal"), ("time", "num-bigint", "dlhn_derive"), ("dlhn_derive",)]
LANES = 4


def name(fs, profile):
    return "%s [%s]" % (profile, " ".join(fs) or "no features")


def lane_dir(k):
    return os.path.join(c.TARGET, "cfg%d" % k)


def args(fs, profile, cmd):
    return [cmd, "--offline", "-q", "--features", ",".join(fs)] + (["--release"] if profile == "release" else [])


def lanes(jobs, f):
    """runs f(lane, job) with each lane having a target directory of its own"""
    out = {}

    def work(k):
        for j in jobs[k::LANES]:
            out[j] = f(k, j)
    with cf.ThreadPoolExecutor(LANES) as ex:
        for r in [ex.submit(work, k) for k in range(LANES)]:
            r.result()
    return out


def errors(out):
    return " | ".join(l for l in out.splitlines() if l.startswith(("error", "  -->")))[:600] or out[-400:]


def build(k, job, keep):
    fs, profile = job
    code, out = c.cargo(args(fs, profile, "build"), PROBE, target=lane_dir(k), timeout=700, CARGO_BUILD_JOBS="3")
    if code != 0:
        return (False, errors(out), None)
    b = os.path.join(keep, "probe-%s-%s" % ("_".join(fs) or "none", profile))
    shutil.copy(os.path.join(lane_dir(k), "release" if profile == "release" else "debug", "cfgprobe"), b)
    return (True, "", b)


def transcript(b, seed, scale, *one):
    try:
        p = subprocess.run([b, str(seed), str(scale)] + [str(x) for x in one], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, errors="replace", timeout=700)
    except subprocess.TimeoutExpired:
        return None, "does not end within 700 s"
    if p.returncode != 0 or not p.stdout.endswith("END\n"):
        return None, "ends with %d: %s" % (p.returncode, p.stderr[-200:])
    return p.stdout[:-4], ""


def parse(t):
    r = {}
    for l in t.splitlines():
        s, i, h, n = l.split(" ")
        r.setdefault(s, []).append((h, int(n)))
    return r


def first_difference(a, b):
    for x, y in itertools.zip_longest(a.splitlines(), b.splitlines(), fillvalue="(nothing)"):
        if x != y:
            return x, y
    return "", ""


def clip(s, n=300):
    return s if len(s) <= n else s[:n] + "…"


def examine(tier, seed, sets, check_sets, scale):
    keep = os.path.join(c.RUN, "c16-%d" % os.getpid())
    os.makedirs(keep, exist_ok=True)
    st = dict(builds=0, compiled_sets=0, sections={}, operations=0, compared=0, hashes=set(), samples=[])
    try:
        jobs = [(fs, p) for fs in sets for p in ("debug", "release")]
        built = lanes(jobs, lambda k, j: build(k, j, keep))
        ref = (FULL, "debug")
        if not built[ref][0]:
            raise c.NoVerdict("the probe does not build with all features: " + built[ref][1])
        for j in jobs:
            if not built[j][0]:
                return st, ("does not compile: %s: %s" % (name(*j), built[j][1]), dict(kind="compile", features=j[0], profile=j[1]))
        st["builds"] = len(jobs)
        if check_sets:
            r = lanes([(fs, "debug") for fs in check_sets],
                      lambda k, j: c.cargo(args(j[0], j[1], "check"), PROBE, target=lane_dir(k), timeout=700, CARGO_BUILD_JOBS="3"))
            for j, (code, out) in r.items():
                if code != 0:
                    return st, ("does not compile: %s: %s" % (name(*j), errors(out)), dict(kind="compile", features=j[0], profile=j[1]))
            st["compiled_sets"] = len(r)
        with cf.ThreadPoolExecutor(8) as ex:
            ts = dict(zip(jobs, ex.map(lambda j: transcript(built[j][2], seed, scale), jobs)))
        bad = [j for j in jobs if ts[j][0] is None]
        if bad:
            good = [j for j in jobs if ts[j][0] is not None]
            if not good:
                raise c.NoVerdict("the probe fails in every build: " + ts[bad[0]][1])
            return st, ("the same workload that runs in %s %s in %s" % (name(*good[0]), ts[bad[0]][1], name(*bad[0])),
                        dict(kind="run", seed=seed, scale=scale, a=good[0], b=bad[0]))
        first = {}
        for j in jobs:
            for s, rows in parse(ts[j][0]).items():
                if s not in first:
                    first[s] = (j, rows)
                    st["sections"][s] = dict(cases=len(rows), builds=1)
                    st["operations"] += sum(n for _, n in rows)
                    st["hashes"].update(h for h, _ in rows)
                    continue
                fj, frows = first[s]
                st["sections"][s]["builds"] += 1
                if rows == frows:
                    st["compared"] += sum(n for _, n in rows)
                    continue
                i = next((i for i, (x, y) in enumerate(zip(rows, frows)) if x != y), min(len(rows), len(frows)))
                a, _ = transcript(built[fj][2], seed, scale, s, i)
                b, _ = transcript(built[j][2], seed, scale, s, i)
                x, y = first_difference(a or "", b or "")
                return st, ("section %s, case %d: in %s: %s BUT in %s: %s" % (s, i, name(*fj), clip(x), name(*j), clip(y)),
                            dict(kind="diff", seed=seed, scale=scale, section=s, idx=i, a=fj, b=j))
        a, _ = transcript(built[ref][2], seed, scale, "plain", 0)
        st["samples"] = [clip(l, 200) for l in (a or "").splitlines()[:4]]
        return st, None
    finally:
        shutil.rmtree(keep, ignore_errors=True)


def check(tier, seed):
    t0 = time.time()
    os.makedirs(c.RUN, exist_ok=True)
    if tier == "quick":
        st, bad = examine(tier, seed, QUICK, [f for f in ALL32 if f not in QUICK], 500)
    else:
        st, bad = examine(tier, seed, [FULL] + [f for f in ALL32 if f != FULL], [], 4000)
    j = dict(property="C16", tier=tier, seed=seed, level="exploration",
             coverage=dict(evaluations=st["operations"] + st["compared"], distinct_nontrivial=len(st["hashes"]),
                           rule="A case is a sequence of operations whose observations (bytes, values, verdicts, bytes consumed) are compared between builds; distinct by the hash of its observations.",
                           samples=st["samples"] or ["none"], builds_run=st["builds"], feature_sets_compiled_besides=st["compiled_sets"],
                           operations_observed=st["operations"], operations_compared_with_another_build=st["compared"], sections=st["sections"]),
             assumptions=["x86-64 Linux; the dependencies' own features are those dlhn asks for"],
             wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
    with open(c.evidence("C16"), "w") as f:
        json.dump(j, f)
    if bad:
        c.violation("C16", *bad)
        return 1
    return 0


def replay(j):
    os.makedirs(c.RUN, exist_ok=True)
    if j["kind"] == "compile":
        code, out = c.cargo(args(tuple(j["features"]), j["profile"], "check"), PROBE, target=lane_dir(0), timeout=700)
        print(errors(out) if code else "compiles")
        bad = code != 0
    else:
        sets = [FULL] + [tuple(x[0]) for x in (j["a"], j["b"]) if tuple(x[0]) != FULL]
        st, r = examine("quick", j["seed"], list(dict.fromkeys(sets)), [], j["scale"])
        bad = r is not None
        if bad:
            print(r[0])
    if bad:
        print("VIOLATION property=C16 replay=-")
        return 1
    return 0
