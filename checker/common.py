"""Shared machinery: building the harness, recording sessions, running TLC."""
import json, os, re, subprocess, sys, time, shutil, tempfile
from concurrent.futures import ThreadPoolExecutor

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(ROOT, "spec")
WORK = os.path.join(ROOT, "work")
HARNESS = os.path.join(ROOT, "harness")
TARGET = os.environ.get("VH_TARGET", os.path.join(WORK, "target"))
JARS = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"


class ToolError(Exception):
    pass


def note(*a):
    print(*a, file=sys.stderr, flush=True)


def build_small():
    """the library without allocator and without unsafe code; None when it does not build that way"""
    t = os.path.join(TARGET, "min")
    cmd = f". /opt/vp/env.sh 2>/dev/null; cd {HARNESS} && cargo build --offline --quiet --no-default-features --features paranoid --target-dir {t}"
    r = subprocess.run(["bash", "-c", cmd], env=dict(os.environ, CARGO_NET_OFFLINE="true"),
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        note("does not build without std:\n" + r.stdout[-1500:])
        return None
    return os.path.join(t, "debug", "vharness")


def build():
    env = dict(os.environ, CARGO_NET_OFFLINE="true")
    r = None
    for p in ("/opt/vp/env.sh",):
        cmd = f". {p} 2>/dev/null; cd {HARNESS} && cargo build --offline --quiet --target-dir {TARGET}"
        r = subprocess.run(["bash", "-c", cmd], env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise ToolError("the harness does not build against /repo:\n" + r.stdout[-4000:])
    return os.path.join(TARGET, "debug", "vharness")


# ---------------------------------------------------------------- recording
def run_harness(binary, args, out, timeout=600):
    """0, or a description of how the process died."""
    try:
        r = subprocess.run([binary] + args + ["--out", out], stdout=subprocess.PIPE, stderr=subprocess.PIPE,
                           text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        return "timeout"
    if r.returncode == 3:
        raise ToolError("harness error: " + r.stderr[-2000:])
    if r.returncode != 0:
        return f"died with {r.returncode}: " + r.stderr[-300:]
    return ""


def gen(binary, focus, seed, n, out, start=0, extra=()):
    """Record n random sessions. Returns a list of (session number, how it died)."""
    size = max(1, (n + 7) // 8)
    parts = []
    for k in range(start, start + n, size):
        parts.append((k, min(size, start + n - k), f"{out}.{k}"))

    def one(p):
        k, m, f = p
        a = ["gen", "--focus", focus, "--seed", str(seed), "--sessions", str(m), "--from", str(k)] + list(extra)
        d = run_harness(binary, a, f)
        if not d:
            return [f], []
        if m == 1:
            return [], [(k, d)]
        h = m // 2
        r1 = one((k, h, f + "a"))
        if r1[1]:               # one dead session is enough
            return r1
        r2 = one((k + h, m - h, f + "b"))
        return r1[0] + r2[0], r1[1] + r2[1]

    with ThreadPoolExecutor(8) as ex:
        res = list(ex.map(one, parts))
    files = [f for r in res for f in r[0]]
    dead = [d for r in res for d in r[1]]
    with open(out, "w") as o:
        for f in files:
            with open(f) as i:
                shutil.copyfileobj(i, o)
            os.remove(f)
    return dead


def group(src, dst):
    n = ev = 0
    cur = []
    with open(src) as f, open(dst, "w") as o:
        for line in f:
            line = line.strip()
            if not line:
                continue
            if line.startswith('{"ev":"start"') and cur:
                o.write("[" + ",".join(cur) + "]\n")
                n += 1
                cur = []
            cur.append(line)
            ev += 1
        if cur:
            o.write("[" + ",".join(cur) + "]\n")
            n += 1
    return n, ev


# ---------------------------------------------------------------- TLC
class Tlc:
    def __init__(self, out, rc):
        self.out, self.rc = out, rc
        m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
        self.generated, self.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
        self.finished = "Model checking completed" in out
        self.error = None
        e = re.search(r"^Error: (.*)$", out, re.M)
        if e:
            i = e.start()
            self.error = out[i:i + 3000]


def tlc(module, cfg, env=None, workers=8, heap="6g", timeout=840, args=(), tag="m", depthfirst=False):
    md = tempfile.mkdtemp(prefix="tlc-", dir=WORK)
    cmd = ["java", f"-Xmx{heap}", "-Xss512m", f"-Djava.io.tmpdir={md}", "-XX:+UseParallelGC", "-cp", JARS, "tlc2.TLC", "-workers", str(workers), "-metadir", md,
           "-noGenerateSpecTE", "-config", cfg, *args, module]
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return Tlc(r.stdout, r.returncode)
    except subprocess.TimeoutExpired as e:
        o = e.stdout or b""
        t = Tlc(o.decode() if isinstance(o, bytes) else o, -1)
        t.error = t.error or "timeout"
        return t
    finally:
        shutil.rmtree(md, ignore_errors=True)


MISMATCH = re.compile(r'"MISMATCH (\S+) (\d+) (\S+) (\S+)((?: \S+)*)"')


def validate(grouped, events, tag="t", timeout=840):
    """Check recorded sessions against Trace.tla.
    Returns (mismatches [(session, pos, fam, aspect, flags)], accepted events)."""
    bad = []
    path = grouped
    skipped = 0
    for attempt in range(6):
        t = tlc("Trace.tla", "Trace.cfg", env={"TRACE": path}, timeout=timeout)
        seen = set()
        for m in MISMATCH.finditer(t.out):
            seen.add((m.group(1), int(m.group(2)), m.group(3), m.group(4), tuple(m.group(5).split())))
        if t.finished and not t.error:
            bad += sorted(seen)
            if not bad and t.distinct != events:
                raise ToolError(f"trace validation covered {t.distinct} of {events} events")
            return bad, t.distinct
        # the specification cannot make sense of a session: find it, put it aside, go on
        s = re.findall(r"/\\ sess = (\d+)", t.out)
        p = re.findall(r"/\\ pos = (\d+)", t.out)
        if not s:
            raise ToolError("TLC failed on recorded sessions:\n" + t.out[-3000:])
        if os.environ.get("VDEBUG"):
            note(t.out[-6000:])
        k = int(s[-1])
        with open(path) as f:
            lines = f.read().splitlines()
        x = json.loads(lines[k - 1])
        bad.append((x[0]["id"], int(p[-1]) + 1, "any", "shape", ()))
        del lines[k - 1]
        events -= len(x)
        path = grouped + f".cut{attempt}"
        with open(path, "w") as f:
            f.write("\n".join(lines) + "\n")
    return bad, t.distinct


# ---------------------------------------------------------------- replay
def to_script(sess):
    """a replay script for a recorded session"""
    a = sess[0]
    steps, results = [], []
    for e in sess[1:]:
        if e["in"]:
            steps.append({"t": "b", "v": e["in"]})
        k = e["ev"]
        if k in ("stop", "irq"):
            steps.append({"t": k, "rs": e["rs"]})
        elif k == "ret":
            steps.append({"t": "ret"})
        elif k in ("readerr", "waiterrt", "waiterrc", "irqerr"):
            v = e["eid"]
            n = 0
            for x in v:
                n = n * 256 + x
            steps.append({"t": k, "eid": n})
    for e in sess:
        asked = set()
        for c in e["calls"]:
            if c["f"] in ("current_active_pid", "list_active_threads"):
                if c["f"] in asked:
                    continue
                asked.add(c["f"])
            results.append({"f": c["f"], "k": c["k"], "v": c["v"]})
    b = lambda x: 1 if x else 0
    return {"id": a["id"], "uw": a["uw"], "cfg": a["cfg"], "tv": a["tv"], "cv": a["cv"], "blocking": b(a["blocking"]),
            "fs": b(a["fs"]), "owned": b(a["owned"]), "cap": a["cap"], "bv": a["bv"], "xml": a["xml"],
            "threads": a["threads"], "wf": a["wf"], "ff": a["ff"], "sf": a["sf"], "steps": steps, "results": results}


def load_sessions(path, ids=None):
    out = {}
    with open(path) as f:
        for line in f:
            m = re.search(r'"id":"([^"]+)"', line)
            if ids is None or (m and m.group(1) in ids):
                s = json.loads(line)
                out[s[0]["id"]] = s
    return out


def txt(b):
    return "".join(chr(x) if 32 <= x < 127 else "\\x%02x" % x for x in b)


def show_event(e):
    r = [f"{e['ev']} in={txt(e['in'])} out={txt(e['out'])} state={e['st']} why={e['why']} err={e['err']}{e['ed']} flushed={e['fl']}"]
    if e["rs"]["k"] != "None":
        r.append(f"  reason {e['rs']}")
    if e.get("msg"):
        r.append("  " + e["msg"])
    for c in e["calls"]:
        r.append(f"  {c['f']}({c['a']}) -> {c['k']} {c['v']}")
    return r
