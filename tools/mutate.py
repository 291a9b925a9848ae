#!/usr/bin/env python3
"""mutate.py LIST | TEST DIR LANES | CHECK DIR LANES: mutation campaign, to find what no check notices.

LIST writes one small edit per line of JSON; TEST keeps those that compile and pass the repository's
tests; CHECK runs every quick check on each survivor, in copies, until one reports it. What is left
is either an edit without effect or a gap. Not used by any check."""
import json, os, random, re, shutil, subprocess, sys, threading, queue

REPO, VERIF = os.environ.get("MUT_BASE", "/repo"), "/verif"
ENV = dict(os.environ, HOME="/root", CARGO_NET_OFFLINE="true", CARGO_TERM_COLOR="never", RUSTC_WRAPPER="",
           PROTOC="/usr/bin/protoc", CARGO_PROFILE_DEV_DEBUG="line-tables-only",
           RUSTUP_TOOLCHAIN="stable-x86_64-unknown-linux-gnu")
ENV.pop("CARGO_TARGET_DIR", None)

SWAPS = [("==", "!="), ("!=", "=="), (" < ", " <= "), (" < ", " >= "), (" <= ", " < "), (" > ", " >= "), (" >= ", " > "),
         (" && ", " || "), (" || ", " && "), (" + ", " - "), (" - ", " + "), ("<<", ">>"), (">>", "<<"), (" | ", " & "),
         (" & ", " | "), (" ^ ", " | "), ("true", "false"), ("false", "true"), (".is_some()", ".is_none()"),
         (".is_none()", ".is_some()"), (".all(", ".any("), (".any(", ".all("), ("read_exact", "read"), ("write_all", "write"),
         ("to_le_bytes", "to_be_bytes"), ("from_le_bytes", "from_be_bytes"), ("is_negative", "is_positive"),
         ("checked_add", "wrapping_add_"), (".first(", ".last("), (".last(", ".first("), ("..=", ".."), (" += ", " = "), (" += ", " -= "),
         (".len()", ".len() + 1"), (".len()", ".len() - 1"), ("Some(", "None.or(Some("), ("if !", "if "), ("if ", "if !"),
         ("as u16", "as u8 as u16"), ("as u32", "as u16 as u32"), ("as u64", "as u32 as u64"), ("as usize", "as u16 as usize"),
         ("as usize", "as u32 as usize"), ("as i32", "as i16 as i32"), ("as i64", "as i32 as i64"), ("u8::MAX", "i8::MAX as u8"),
         ("u16", "u32"), ("u32", "u16"), ("u64", "u32"), ("i16", "i32"), ("i32", "i16"), ("i64", "i32"), ("f32", "f64"), ("usize", "u16"),
         ("f64", "f32"), ("?;", ".ok();"), ("break", "continue"), ("unwrap_or(", "unwrap_or_default_("), (" * ", " + "), (" % ", " / "), (" / ", " * ")]


def sources():
    r = []
    for d in ("dlhn/src", "dlhn_derive/src"):
        for root, _, fs in os.walk(os.path.join(REPO, d)):
            r += [os.path.relpath(os.path.join(root, f), REPO) for f in fs if f.endswith(".rs")]
    return sorted(f for f in r if "leb128" not in f and f != "dlhn_derive/src/prefix_varint.rs")


def mutants():
    out, seen = [], set()
    for f in sources():
        lines = open(os.path.join(REPO, f)).read().split("\n")
        end = next((i for i, l in enumerate(lines) if l.strip() == "#[cfg(test)]"), len(lines))
        for i, l in enumerate(lines[:end]):
            s = l.strip()
            if not s or s.startswith(("//", "use ", "#", "pub use", "mod ", "pub mod")):
                continue

            def add(new):
                if new != l and (f, i, new) not in seen:
                    seen.add((f, i, new))
                    out.append(dict(id=len(out), file=f, line=i, old=l, new=new))
            for a, b in SWAPS:
                p = l.find(a)
                while p >= 0:
                    edge = not (a[0].isalnum() and p > 0 and (l[p - 1].isalnum() or l[p - 1] == "_"))
                    if edge:
                        add(l[:p] + b + l[p + len(a):])
                    p = l.find(a, p + 1)
            for m in re.finditer(r"(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*)(?![\w.])", l):
                v = int(m.group(1).replace("_", ""), 0)
                for n in (v + 1, v - 1, v * 2):
                    if n >= 0 and n != v:
                        add(l[:m.start()] + str(n) + l[m.end():])
            if s.endswith(";") and not s.startswith(("let ", "type ", "const ", "return")):
                add(re.match(r"\s*", l).group(0) + "// " + s)
            if s.endswith(",") and "=>" in s:
                add(re.match(r"\s*", l).group(0) + "// " + s)
            if s.endswith(",") and "=>" in s and i + 1 < end and "=>" in lines[i + 1] and lines[i + 1].strip().endswith(","):
                a, b = l.split("=>", 1), lines[i + 1].split("=>", 1)
                add(a[0] + "=>" + b[1])
    return out


def apply(root, m):
    p = os.path.join(root, m["file"])
    lines = open(os.path.join(REPO, m["file"])).read().split("\n")
    assert lines[m["line"]] == m["old"]
    lines[m["line"]] = m["new"]
    open(p, "w").write("\n".join(lines))


def undo(root, m):
    shutil.copy(os.path.join(REPO, m["file"]), os.path.join(root, m["file"]))


def pool(jobs, lanes, setup, work, out):
    done = {json.loads(l)["id"] for l in open(out)} if os.path.exists(out) else set()
    q = queue.Queue()
    for j in jobs:
        if j["id"] not in done:
            q.put(j)
    lock = threading.Lock()

    def lane(k):
        root = setup(k)
        while True:
            try:
                j = q.get_nowait()
            except queue.Empty:
                return
            r = work(root, j)
            with lock:
                open(out, "a").write(json.dumps(dict(j, **r)) + "\n")
    ts = [threading.Thread(target=lane, args=(k,)) for k in range(lanes)]
    [t.start() for t in ts]
    [t.join() for t in ts]


def run(cmd, cwd, timeout, env=ENV):
    p = subprocess.Popen(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors="replace",
                         start_new_session=True)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "timeout"


def test_setup(k):
    root = "/tmp/mut/t%d" % k
    if not os.path.exists(root):
        subprocess.check_call(["cp", "-a", REPO, root])
    return root


def test(root, m):
    apply(root, m)
    try:
        c, o = run(["cargo", "test", "--workspace", "--no-run", "--offline", "-q"], root, 200, dict(ENV, CARGO_BUILD_JOBS="2"))
        if c != 0:
            return dict(test="nobuild")
        c, o = run(["bash", "-c", "ulimit -v 8000000; exec cargo test --workspace --offline -q -- --test-threads 4"], root, 60)
        return dict(test="survives" if c == 0 else "killed")
    finally:
        undo(root, m)


def check_setup(k):
    root = "/tmp/mut/c%d" % k
    if not os.path.exists(root):
        os.makedirs(root)
        subprocess.check_call(["git", "clone", "-q", REPO, root + "/repo"])
        subprocess.check_call(["git", "clone", "-q", VERIF, root + "/verif"])
        for f in subprocess.check_output(["grep", "-rlE", '"/(repo|verif)', root + "/verif", "--include=*.py", "--include=*.toml", "--include=*.rs",
                                          "--exclude-dir=seeded"], text=True).split():
            t = open(f).read().replace('"/repo', '"%s/repo' % root).replace('"/verif', '"%s/verif' % root)
            # survey at the basic number of cases
            t = re.sub(r'(\["--scale", ).*?\]\n', r'\1"1"]\n', t) if f.endswith("run_check.py") else t
            open(f, "w").write(t)
        shutil.copytree(VERIF + "/target", root + "/verif/target", ignore=shutil.ignore_patterns("incremental"))
    return root


ORDER = {"prefix_varint": "C03 C02", "zigzag": "C03", "header/": "C10 C05 C06", "body/": "C10 C07 C08 C06", "de.rs": "C10 C11 C14 C18", "ser.rs": "C10 C02 C14",
         "big": "C12 C02", "date": "C13", "derive": "C06 C17"}
ALL = ["C%02d" % i for i in (3, 2, 5, 6, 7, 9, 10, 11, 12, 13, 14, 1, 8, 4, 15, 18)]  # C16 and C17 take a build of their own


def check(root, m):
    first = []
    for k, v in ORDER.items():
        if k in m["file"]:
            first += v.split()
    order = first + [p for p in ALL if p not in first]
    apply(root + "/repo", m)
    odd = []
    try:
        for p in dict.fromkeys(order):
            c, o = run(["python3", "run_check.py", p], root + "/verif", 900, dict(ENV, VERIF_SEED="1", VERIF_TIER="quick"))
            if c == 1 and "VIOLATION" in o:
                return dict(caught=p, odd=odd, why=[l for l in o.splitlines() if "C0" not in l][:1])
            if c != 0:
                odd.append([p, c, o[-300:]])
        return dict(caught=None, odd=odd)
    finally:
        undo(root + "/repo", m)


if __name__ == "__main__":
    what = sys.argv[1]
    if what == "LIST":
        for m in mutants():
            print(json.dumps(m))
    else:
        d, lanes = sys.argv[2], int(sys.argv[3])
        if what == "TEST":
            ms = [json.loads(l) for l in open(d + "/list.json")]
            random.Random(1).shuffle(ms)
            pool(ms, lanes, test_setup, test, d + "/tested.json")
        else:
            ms = [json.loads(l) for l in open(d + "/tested.json")]
            pool([m for m in ms if m["test"] == "survives"], lanes, check_setup, check, d + "/checked.json")
