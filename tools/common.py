"""What the checks share: building, known findings, violations, evidence."""
import hashlib, importlib, json, os, subprocess

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
TARGET = os.path.join(VERIF, "target")
RUN = os.path.join(VERIF, "run")
BIN = os.path.join(TARGET, "debug", "dlhnmon")


class NoVerdict(Exception):
    pass


def env(**kw):
    e = dict(os.environ)
    e.update(CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", **kw)
    for k in ("RUSTFLAGS", "CARGO_ENCODED_RUSTFLAGS", "RUSTC_WRAPPER"):
        if k not in kw:
            e.pop(k, None)
    return e


def cargo(args, cwd, target=TARGET, timeout=800, **kw):
    """(exit code, output)"""
    try:
        p = subprocess.run(["cargo"] + args, cwd=cwd, env=env(CARGO_TARGET_DIR=target, **kw), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, errors="replace", timeout=timeout)
    except subprocess.TimeoutExpired:
        raise NoVerdict("cargo %s takes more than %d s" % (args[0], timeout))
    return p.returncode, p.stdout


def build():
    code, out = cargo(["build", "--offline", "-q"], os.path.join(VERIF, "harness"))
    if code != 0:
        raise NoVerdict("the monitors do not build:\n" + out[-3000:])
    os.makedirs(RUN, exist_ok=True)


def evidence(prop):
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    return os.path.join(VERIF, "evidence", prop + ".json")


def listed():
    r = []
    for l in open(os.path.join(VERIF, "known-findings.txt")):
        l = l.strip()
        if l.startswith("KNOWN-FINDING: "):
            r.append(l)
    return r


def known_lines(prop, lines):
    """those of the lines that the known-findings file does not list"""
    k = listed()
    return [l for l in lines if l not in k]


def violation(prop, what, detail):
    d = os.path.join(RUN, "replays")
    os.makedirs(d, exist_ok=True)
    j = dict(property=prop, what=what, **detail)
    h = hashlib.sha1(json.dumps(j, sort_keys=True).encode()).hexdigest()[:12]
    path = os.path.join(d, "%s-%s.json" % (prop, h))
    j["replay_cmd"] = "python3 %s/run_check.py --replay %s" % (VERIF, path)
    with open(path, "w") as f:
        json.dump(j, f)
    print(" ".join(what.split())[:1500])
    print("VIOLATION property=%s replay=%s" % (prop, path))
    return path


def crash_evidence(prop, tier, seed, what, wall):
    j = dict(property=prop, tier=tier, seed=seed, level="exploration",
             coverage=dict(evaluations=1, distinct_nontrivial=1,
                           rule="the run was cut short by the process dying; this is the case that kills it when run alone",
                           samples=[what]),
             wall_s=wall, violations=1)
    with open(evidence(prop), "w") as f:
        json.dump(j, f)


def module(prop):
    return importlib.import_module(prop.lower())
