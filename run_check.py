#!/usr/bin/env python3
"""run_check.py PROPERTY | --replay FILE | --build

Builds the monitors against /repo's working tree and runs one property's check.
Environment: VERIF_SEED (default 1), VERIF_TIER (quick or thorough).
Exit 0: held on everything observed. 1: violated (VIOLATION line on stdout). Other: no verdict."""
import json, os, signal, struct, subprocess, sys, time

VERIF = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(VERIF, "tools"))
import common as c

# how many times the basic number of cases the quick tier runs
QUICK_SCALE = dict(C01=6, C02=8, C03=10, C04=3, C05=12, C06=8, C07=8, C08=5, C09=12, C10=3,
                   C11=8, C12=12, C13=20, C14=60, C15=12, C18=5, C19=4, C20=2, C21=20, C24=20)
LIMIT = dict(quick=780, thorough=3 * 3600)


def run_bin(args, limit):
    """(how it ended, stdout): an exit code, -signal, or None when the time ran out"""
    p = subprocess.Popen([c.BIN] + args, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True,
                         errors="replace", start_new_session=True)
    try:
        out, err = p.communicate(timeout=limit)
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, signal.SIGKILL)
        out, err = p.communicate()
        return None, out, err
    return p.returncode, out, err


def active_cases(prop, d):
    names = open(os.path.join(d, prop + ".sections")).read().split("\n")
    b = open(os.path.join(d, prop + ".slots"), "rb").read()
    r = []
    for i in range(0, len(b), 64):
        on, sec, seed, idx = struct.unpack_from("<4Q", b, i)
        if on == 1 and sec < len(names):
            r.append((names[sec], seed, idx))
    return r


CRASH = {-signal.SIGABRT, -signal.SIGSEGV, -signal.SIGBUS, -signal.SIGILL, -signal.SIGFPE, -signal.SIGTRAP}
MEMORY = 77


def harness_check(prop, tier, seed):
    t0 = time.time()
    c.build()
    d = os.path.join(c.RUN, "%s-%d" % (prop, os.getpid()))
    os.makedirs(d, exist_ok=True)
    args = ["run", "--prop", prop, "--dir", d, "--tier", tier, "--seed", str(seed), "--evidence", c.evidence(prop)]
    if tier == "quick":
        args += ["--scale", str(QUICK_SCALE.get(prop, 1))]
    code, out, err = run_bin(args, LIMIT[tier])
    sys.stderr.write(err[-4000:])
    vio, rest = [], []
    for l in out.splitlines():
        (vio if l.startswith("VIOLATION ") else rest).append(l)
    extra = c.known_lines(prop, [l for l in rest if l.startswith("KNOWN-FINDING: ")])
    for l in rest:
        print(l)
    if code in (0, 1):
        for l in vio:
            print(l)
        if code == 1 and vio:
            return 1
        if code == 0:
            if extra:
                c.violation(prop, "unlisted finding: " + extra[0], dict(probe=extra[0]))
                return 1
            return 0
        return 3
    if code in CRASH or code == MEMORY:
        # the process died in one of the cases that were running: run each alone
        for section, cs, idx in active_cases(prop, d):
            a = ["run", "--prop", prop, "--dir", d, "--tier", tier, "--seed", str(seed), "--section", section,
                 "--case-seed", hex(cs), "--idx", str(idx)]
            if tier == "quick":
                a += ["--scale", str(QUICK_SCALE.get(prop, 1))]
            k, o, e = run_bin(a, 300)
            if k in CRASH or k == MEMORY:
                what = ("the process runs out of its memory budget" if k == MEMORY else
                        "the process dies of %s" % signal.Signals(-k).name)
                what = "%s in section %s, case %d: %s" % (what, section, idx, e.strip()[-300:])
                c.violation(prop, what, dict(section=section, case_seed=hex(cs), idx=idx, tier=tier))
                c.crash_evidence(prop, tier, seed, what, time.time() - t0)
                return 1
            if k == 1:
                for l in o.splitlines():
                    print(l)
                c.crash_evidence(prop, tier, seed, o[-500:], time.time() - t0)
                return 1
        print("process ended with %s, not reproduced by any of the cases that were running" % code)
        return 3
    print("no verdict: %s" % ("time limit" if code is None else "ended with %s" % code))
    return 4


def replay(path):
    j = json.load(open(path))
    prop = j["property"]
    if prop in ("C16", "C17", "C22", "C23"):
        return c.module(prop).replay(j)
    if "section" not in j:
        return main([prop])
    c.build()
    d = os.path.join(c.RUN, "%s-replay-%d" % (prop, os.getpid()))
    os.makedirs(d, exist_ok=True)
    tier = j.get("tier", "quick")
    a = ["run", "--prop", prop, "--dir", d, "--tier", tier, "--section", j["section"], "--case-seed", j["case_seed"],
         "--idx", str(j["idx"])]
    if tier == "quick":
        a += ["--scale", str(QUICK_SCALE.get(prop, 1))]
    code, out, err = run_bin(a, 600)
    sys.stdout.write(out)
    sys.stderr.write(err[-4000:])
    if code in CRASH or code == MEMORY:
        print("VIOLATION property=%s replay=%s" % (prop, path))
        return 1
    return code if code is not None else 4


def main(argv):
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in LIMIT:
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED", "1") or "1", 0)
    if argv[:1] == ["--build"]:
        c.build()
        return 0
    if argv[:1] == ["--replay"]:
        return replay(argv[1])
    prop = argv[0]
    if prop in ("C16", "C17", "C22", "C23"):
        return c.module(prop).check(tier, seed)
    return harness_check(prop, tier, seed)


if __name__ == "__main__":
    try:
        code = main(sys.argv[1:])
    except c.NoVerdict as e:
        print("no verdict: %s" % e)
        code = 2
    sys.stdout.flush()
    sys.exit(code)
