"""C22: the same operations on platforms of other word size and byte order, compared transcript by
transcript with x86-64.

The probe of C16 (cfgprobe) is built, standard library included, for 32-bit x86 (debug and release) and
runs natively on the C library of that platform; for big-endian platforms (s390x; thorough: 32-bit
powerpc as well) it runs a smaller part of the same workload in Miri, whose own verdicts (undefined
behaviour, leaks) count too. A case's inputs depend only on the seed, the section and its number."""
import concurrent.futures as cf, json, os, signal, subprocess, time
import common as c

PROBE = os.path.join(c.VERIF, "cfgprobe")
FEATURES = "time,num-traits,num-bigint,bigdecimal,dlhn_derive"
DIR = os.path.join(c.TARGET, "plat")
LIB32 = "/usr/lib32"
T32 = "i686-unknown-linux-gnu"


def clip(s, n=300):
    return s if len(s) <= n else s[:n] + "…"


def errors(out):
    return " | ".join(l for l in out.splitlines() if l.startswith(("error", "  -->")))[:600] or out[-400:]


def run(cmd, env, timeout=800):
    try:
        return subprocess.run(cmd, cwd=PROBE, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                              errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        return None


class Fails(Exception):
    """the platform's build or run fails"""


class Native:
    name = "x86-64"

    def __init__(self):
        self.bin = os.path.join(DIR, "native", "debug", "cfgprobe")

    def build(self):
        code, out = c.cargo(["+nightly", "build", "--offline", "-q", "--features", FEATURES], PROBE, target=os.path.join(DIR, "native"))
        if code != 0:
            raise Fails("does not compile: " + errors(out))

    def cmd(self, a):
        return [self.bin] + a, c.env(CFGPROBE_VERDICTS="1")

    def transcript(self, seed, scale, *one):
        cmd, e = self.cmd([str(seed), str(scale)] + [str(x) for x in one])
        p = run(cmd, e)
        if p is None:
            raise Fails("does not end within 800 s")
        if p.returncode != 0 or not p.stdout.endswith("END\n"):
            raise Fails("ends with %d: %s" % (p.returncode, p.stderr[-200:]))
        return p.stdout[:-4]


class X86(Native):
    def __init__(self, profile):
        self.profile = profile
        self.name = "32-bit x86 " + profile
        self.target = os.path.join(DIR, "x86-" + profile)
        self.bin = os.path.join(self.target, T32, profile, "cfgprobe")

    def build(self):
        lib = os.path.join(DIR, "lib32-" + self.profile)
        os.makedirs(lib, exist_ok=True)
        for f in ("libc.so.6", "libgcc_s.so.1", "libm.so.6", "librt.so.1", "libpthread.so.0", "libdl.so.2", "libutil.so.1"):
            l = os.path.join(lib, f.split(".so")[0] + ".so")
            if not os.path.islink(l):
                os.symlink(os.path.join(LIB32, f), l)
        start = os.path.join(lib, "start.o")
        p = subprocess.run(["gcc", "-m32", "-c", os.path.join(c.VERIF, "tools", "start32.s"), "-o", start], stderr=subprocess.PIPE, text=True)
        if p.returncode != 0:
            raise c.NoVerdict("the start code does not assemble: " + p.stderr[-300:])
        flags = "-Clink-arg=-nostartfiles -Clink-arg=%s -Clink-arg=-L%s -Clink-arg=-Wl,--dynamic-linker=%s/ld-linux.so.2" % (start, lib, LIB32)
        code, out = c.cargo(["+nightly", "build", "--offline", "-q", "-Zbuild-std=std,panic_unwind", "--target", T32, "--features", FEATURES]
                            + (["--release"] if self.profile == "release" else []), PROBE, target=self.target,
                            CARGO_TARGET_I686_UNKNOWN_LINUX_GNU_RUSTFLAGS=flags)
        if code != 0:
            raise Fails("does not compile: " + errors(out))

    def runs(self):
        """whether this machine runs 32-bit programs at all"""
        try:
            return subprocess.run([os.path.join(LIB32, "ld-linux.so.2"), "--version"], stdout=subprocess.DEVNULL).returncode == 0
        except OSError:
            return False


class Miri(Native):
    """Runs the workload in parts, each for a limited time: what it got through is compared."""
    def __init__(self, arch, text, parts, secs):
        self.arch, self.parts, self.secs = arch, parts, secs
        self.name = text + " in Miri"
        self.target = os.path.join(DIR, "miri-" + arch)

    def cmd(self, a, **kw):
        return (["cargo", "+nightly", "miri", "run", "--offline", "-q", "--target", self.arch + "-unknown-linux-gnu", "--features", FEATURES, "--"] + a,
                c.env(CARGO_TARGET_DIR=self.target, XDG_CACHE_HOME=os.path.join(DIR, "cache-" + self.arch),
                      MIRIFLAGS="-Zmiri-disable-isolation", CFGPROBE_VERDICTS="1", **kw))

    def build(self):
        cmd, e = self.cmd(["0", "0", "none", "0"])
        p = run(cmd, e)
        if p is None:
            raise c.NoVerdict("building for %s takes more than 800 s" % self.name)
        if p.returncode != 0 and "Undefined Behavior" not in p.stderr:
            raise Fails("does not compile: " + errors(p.stderr))

    def transcript(self, seed, scale, *one):
        n = 1 if one else self.parts

        def part(k):
            cmd, e = self.cmd([str(seed), str(scale)] + [str(x) for x in one], CFGPROBE_PART="%d/%d" % (k, n))
            p = subprocess.Popen(cmd, cwd=PROBE, env=e, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                                 start_new_session=True)
            try:
                out, err = p.communicate(timeout=700 if one else self.secs)
            except subprocess.TimeoutExpired:
                os.killpg(p.pid, signal.SIGKILL)
                out, err = p.communicate()
                if one:
                    raise c.NoVerdict("a case takes more than 700 s on %s" % self.name)
                return out[:out.rfind("\n") + 1].replace("END\n", "")
            if p.returncode != 0 or not out.endswith("END\n"):
                l = [l for l in err.splitlines() if l.startswith("error")]
                raise Fails("ends with %d: %s" % (p.returncode, l[0] if l else err[-200:]))
            return out[:-4]
        with cf.ThreadPoolExecutor(n) as ex:
            return "".join(ex.map(part, range(n)))


def rows(t):
    r = {}
    for l in t.splitlines():
        s, i, h, n = l.split(" ")
        r[s, int(i)] = (h, int(n))
    return r


def difference(a, b):
    import itertools
    for x, y in itertools.zip_longest(a.splitlines(), b.splitlines(), fillvalue="(nothing)"):
        if x != y:
            return x, y
    return "", ""


def plan(tier):
    """(platform, scale): a case more per unit of weight and scale"""
    x86 = [X86("debug"), X86("release")]
    if tier == "quick":
        return [(p, 400) for p in x86] + [(Miri("s390x", "big-endian s390x", 6, 120), 4)]
    return [(p, 4000) for p in x86] + [(Miri("s390x", "big-endian s390x", 8, 600), 400), (Miri("powerpc", "big-endian 32-bit powerpc", 8, 300), 400),
                                      (Miri("x86_64", "x86-64", 8, 300), 400)]


def examine(tier, seed, only=None, case=None):
    os.makedirs(DIR, exist_ok=True)
    ref = Native()
    jobs = [(p, s) for p, s in plan(tier) if only is None or p.name == only]
    if any(isinstance(p, X86) for p, _ in jobs) and not X86("debug").runs():
        jobs = [(p, s) for p, s in jobs if not isinstance(p, X86)] + [(Miri("i686", "32-bit x86", 6, 150), 4)]
    if only is not None:
        jobs = [(p, s) for p, s in jobs if p.name == only] or jobs
    st = dict(platforms={}, compared=0, hashes=set(), samples=[])

    def build(p):
        try:
            p.build()
            return None
        except Fails as e:
            return str(e)

    def transcript(p, scale, *one):
        try:
            return p.transcript(seed, scale, *one), None
        except Fails as e:
            return None, str(e)

    with cf.ThreadPoolExecutor(8) as ex:
        fr = ex.submit(build, ref)
        fs = []

        def whole(p, s):
            e = build(p)
            return (None, e) if e else transcript(p, s, *(case or ()))
        fs = [(p, s, ex.submit(whole, p, s)) for p, s in jobs if not isinstance(p, Miri) or tier == "quick"]
        if fr.result():
            raise c.NoVerdict("the probe on x86-64 " + fr.result())
        a, e = transcript(ref, max(s for _, s in jobs), *(case or ()))
        if e:
            raise c.NoVerdict("the probe on x86-64 " + e)
        res = [(p, f.result()) for p, _, f in fs]
    res += [(p, whole(p, s)) for p, s in jobs if isinstance(p, Miri) and tier != "quick"]
    for p, (t, e) in res:
        if e:
            return st, ("the workload that runs on x86-64 on %s %s" % (p.name, clip(e, 500)), dict(kind="run", seed=seed, tier=tier, platform=p.name, case=case))
        if case:
            if t != a:
                x, y = difference(a, t)
                return st, ("on x86-64: %s BUT on %s: %s" % (clip(x), p.name, clip(y)), dict(kind="diff", seed=seed, tier=tier, platform=p.name, case=case))
            continue
        ra, rt = rows(a), rows(t)
        if not rt:
            raise c.NoVerdict("no case on " + p.name)
        st["platforms"][p.name] = dict(cases=len(rt), operations=sum(n for _, n in rt.values()))
        for k, v in sorted(rt.items()):
            st["hashes"].add(v[0])
            st["compared"] += v[1]
            if ra.get(k) != v:
                scale = max(s for q, s in jobs if q is p)
                x, y = difference(transcript(ref, scale, *k)[0] or "", transcript(p, scale, *k)[0] or "")
                return st, ("section %s, case %d: on x86-64: %s BUT on %s: %s" % (k[0], k[1], clip(x), p.name, clip(y)),
                            dict(kind="diff", seed=seed, tier=tier, platform=p.name, case=list(k)))
        missing = [k for k in rows(a) if k not in rt] if p.name.startswith("32-bit x86 ") and "Miri" not in p.name else []
        if missing:
            return st, ("on %s there is no case %s %d" % (p.name, *missing[0]), dict(kind="run", seed=seed, tier=tier, platform=p.name, case=None))
    if not case:
        st["samples"] = [clip(l, 200) for l in (transcript(ref, 1, "plain", 0)[0] or "").splitlines()[:4]]
    return st, None


def check(tier, seed):
    t0 = time.time()
    os.makedirs(c.RUN, exist_ok=True)
    st, bad = examine(tier, seed)
    j = dict(property="C22", tier=tier, seed=seed, level="exploration",
             coverage=dict(evaluations=max(1, st["compared"]), distinct_nontrivial=max(1, len(st["hashes"])),
                           rule="A case is a sequence of operations whose observations (bytes, values, verdicts, bytes consumed) on a platform are compared with those on x86-64; distinct by the hash of its observations.",
                           samples=st["samples"] or ["none"], platforms=st["platforms"]),
             assumptions=["Miri executes s390x and powerpc programs as those machines would"],
             wall_s=round(time.time() - t0, 2), violations=1 if bad else 0)
    with open(c.evidence("C22"), "w") as f:
        json.dump(j, f)
    if bad:
        c.violation("C22", *bad)
        return 1
    return 0


def replay(j):
    os.makedirs(c.RUN, exist_ok=True)
    st, bad = examine(j["tier"], j["seed"], j["platform"], tuple(j["case"]) if j.get("case") else None)
    if bad:
        print(bad[0])
        print("VIOLATION property=C22 replay=-")
        return 1
    return 0
