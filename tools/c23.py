"""C23: memory safety, judged by sanitizers and Miri.

The monitors are built with AddressSanitizer, with MemorySanitizer and with ThreadSanitizer (the latter
two with an instrumented standard library) and run the workload of C23 (harness/src/checks/safety.rs);
the probe of C16 runs in Miri. Any of their reports is a violation, and so are a crash by a bad access, a
broken precondition of an unsafe function that the standard library notices, and an invalid value."""
import concurrent.futures as cf, json, os, re, signal, subprocess, sys, time
import common as c

T = "x86_64-unknown-linux-gnu"
DIR = os.path.join(c.TARGET, "san")
STD = ["-Zbuild-std=std,panic_unwind"]
# name: what cargo needs more, scale (quick, thorough), seconds
SAN = dict(
    address=([], (12, 6), "ASAN_OPTIONS", "detect_leaks=0:exitcode=99:allocator_may_return_null=1:detect_stack_use_after_return=1"),
    memory=(STD, (14, 6), "MSAN_OPTIONS", "exitcode=99:allocator_may_return_null=1"),
    thread=(STD, (12, 5), "TSAN_OPTIONS", "exitcode=99:halt_on_error=1:history_size=4:allocator_may_return_null=1"),
)
LIMIT = dict(quick=330, thorough=2400)
REPORT = re.compile(r"(?:ERROR|WARNING): (Address|Memory|Thread)Sanitizer: (.*)")
CRASH = {signal.SIGSEGV, signal.SIGBUS, signal.SIGILL}
FEATURES = "time,num-traits,num-bigint,bigdecimal,dlhn_derive"
PROBE = os.path.join(c.VERIF, "cfgprobe")


class Found(Exception):
    def __init__(self, what, detail):
        self.what, self.detail = what, detail


def build(san):
    code, out = c.cargo(["+nightly", "build", "--offline", "-q", "--target", T] + SAN[san][0], os.path.join(c.VERIF, "harness"),
                        target=os.path.join(DIR, san), RUSTFLAGS="--cfg only_safety -Zsanitizer=" + san)
    if code != 0:
        raise c.NoVerdict("the monitors do not build with the %s sanitizer:\n%s" % (san, out[-2000:]))


def excerpt(err):
    """the report's first lines that name something"""
    i = REPORT.search(err)
    ls = err[i.start():].splitlines() if i else err.splitlines()[-15:]
    keep = [ls[0]] if ls else []
    keep += [l.strip() for l in ls[1:60] if "/repo/" in l or "dlhn" in l or l.startswith("SUMMARY")]
    return " | ".join(keep)[:900]


def run(san, tier, seed):
    _, scale, var, opts = SAN[san]
    d = os.path.join(c.RUN, "C23-%s-%d" % (san, os.getpid()))
    os.makedirs(d, exist_ok=True)
    ev = os.path.join(d, "evidence.json")
    a = [os.path.join(DIR, san, T, "debug", "dlhnmon"), "run", "--prop", "C23", "--dir", d, "--tier", tier, "--seed", str(seed),
         "--scale", str(scale[tier != "quick"]), "--evidence", ev]
    p = subprocess.Popen(a, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace", start_new_session=True,
                         env=c.env(**{var: opts}))
    try:
        out, err = p.communicate(timeout=LIMIT[tier])
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        p.communicate()
        raise c.NoVerdict("with the %s sanitizer the workload does not end within %d s" % (san, LIMIT[tier]))
    detail = dict(sanitizer=san, tier=tier, seed=seed)
    m = REPORT.search(err)
    if m and "stack-overflow" not in m.group(2) and "out-of-memory" not in m.group(2):
        raise Found(excerpt(err), detail)
    if "unsafe precondition(s) violated" in err:
        raise Found("unsafe precondition violated: " + " | ".join(err.strip().splitlines()[-12:])[:900], detail)
    if p.returncode < 0 and -p.returncode in CRASH:
        raise Found("with the %s sanitizer the process dies of %s: %s" % (san, signal.Signals(-p.returncode).name, err[-300:]), detail)
    if p.returncode == 1 and "VIOLATION property=C23" in out:
        raise Found(out.split("VIOLATION property=")[0].strip()[-900:], detail)
    if p.returncode != 0:
        raise c.NoVerdict("with the %s sanitizer the workload ends with %d: %s" % (san, p.returncode, (out + err)[-800:]))
    return json.load(open(ev))["coverage"]


def miri_cmd(a, **kw):
    return (["cargo", "+nightly", "miri", "run", "--offline", "-q", "--features", FEATURES, "--"] + a,
            c.env(CARGO_TARGET_DIR=os.path.join(DIR, "miri"), XDG_CACHE_HOME=os.path.join(DIR, "cache"),
                  MIRIFLAGS="-Zmiri-disable-isolation -Zmiri-ignore-leaks", **kw))


def miri_build():
    cmd, e = miri_cmd(["0", "0", "none", "0"])
    p = subprocess.run(cmd, cwd=PROBE, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace", timeout=800)
    if p.returncode != 0 and "Undefined Behavior" not in p.stdout:
        raise c.NoVerdict("the probe does not build in Miri: " + p.stdout[-500:])


def miri(tier, seed):
    """operations that were interpreted"""
    n, secs = (4, 110) if tier == "quick" else (8, 900)

    def part(k):
        cmd, e = miri_cmd([str(seed), "4" if tier == "quick" else "400"], CFGPROBE_PART="%d/%d" % (k, n))
        p = subprocess.Popen(cmd, cwd=PROBE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                             start_new_session=True)
        try:
            out, err = p.communicate(timeout=secs)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            out, err = p.communicate()
        m = re.search(r"error: Undefined Behavior.*", err)
        if m:
            raise Found("Miri: " + m.group(0)[:300] + " " + " ".join(l.strip() for l in err.splitlines() if "-->" in l or "inside" in l)[:500],
                        dict(sanitizer="miri", tier=tier, seed=seed))
        ops = [l.split(" ") for l in out.splitlines()]
        return sum(int(l[3]) for l in ops if len(l) == 4 and l[3].isdigit())
    with cf.ThreadPoolExecutor(n) as ex:
        return sum(ex.map(part, range(n)))


def examine(tier, seed, only=None):
    os.makedirs(DIR, exist_ok=True)
    os.makedirs(c.RUN, exist_ok=True)
    st = dict(runs={}, miri=0)
    sans = [s for s in SAN if only in (None, s)]
    with cf.ThreadPoolExecutor(4) as ex:
        bs = [(s, ex.submit(build, s)) for s in sans]
        mf = ex.submit(lambda: (miri_build(), miri(tier, seed))[1]) if only in (None, "miri") else None
        found = lost = None
        for s, b in bs:
            try:
                b.result()
                if not found:
                    st["runs"][s] = run(s, tier, seed)
            except Found as e:
                found = e
            except c.NoVerdict as e:
                lost = e
        try:
            st["miri"] = mf.result() if mf else 0
        except Found as e:
            found = found or e
        except c.NoVerdict as e:
            lost = e
    if found:
        return st, (found.what, found.detail)
    if lost:
        raise lost
    return st, None


def check(tier, seed):
    t0 = time.time()
    st, bad = examine(tier, seed)
    runs = st["runs"]
    j = dict(property="C23", tier=tier, seed=seed, level="exploration",
             coverage=dict(evaluations=max(1, sum(r["evaluations"] for r in runs.values()) + st["miri"]),
                           distinct_nontrivial=max(1, max([r["distinct_nontrivial"] for r in runs.values()] or [1])),
                           rule="A case is an operation on random content, much of it through readers and writers that lie about what they did or user code that breaks its promises, run under each of the sanitizers; distinct by (operation, content).",
                           samples=["%s: %s" % (s, json.dumps(r["observed"])[:600]) for s, r in runs.items()] or ["none"],
                           sanitizers={s: dict(evaluations=r["evaluations"], sections=r["sections"], observed=r["observed"]) for s, r in runs.items()},
                           operations_in_miri=st["miri"]),
             assumptions=["AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri report what they are made to report"],
             wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
    with open(c.evidence("C23"), "w") as f:
        json.dump(j, f)
    if bad:
        c.violation("C23", *bad)
        return 1
    return 0


def replay(j):
    st, bad = examine(j["tier"], j["seed"], j["sanitizer"])
    if bad:
        print(bad[0])
        print("VIOLATION property=C23 replay=-")
        return 1
    return 0
