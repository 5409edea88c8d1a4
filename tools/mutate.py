#!/usr/bin/env python3
"""Mutation campaign: small syntactic changes to scratch copies of /repo, each judged by the specification.

mutate.py OUT.jsonl [--n 200] [--seed 1] [--jobs 3] [--files REGEX] [--sessions 100] [--foci all|P01,..] [--no-tests]
A development aid: no check uses it. Works in /tmp/mut only."""
import sys, os, re, json, random, subprocess, shutil, threading, queue
sys.path.insert(0, os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "checker"))
import common as C, owners

A = sys.argv[1:]
def opt(n, d):
    return A[A.index(n) + 1] if n in A else d
OUT = A[0]
N, SEED, JOBS = int(opt("--n", 200)), int(opt("--seed", 1)), int(opt("--jobs", 3))
FILES, SESS = opt("--files", "^src/"), int(opt("--sessions", 100))
FOCI = opt("--foci", "all")
FOCI = ["P%02d" % i for i in range(1, 28) if i not in (25,)] if FOCI == "all" else FOCI.split(",")
BASE = "/tmp/mut"

SKIP = re.compile(r"^\s*(//|#\[|use |pub use |mod |pub mod |\*|/\*|trace!|error!|warn!|info!|debug!|log::|crate::__dead|assert|extern|macro_rules)")
OPS = [
    (r" == ", " != "), (r" != ", " == "), (r" < ", " <= "), (r" <= ", " < "), (r" > ", " >= "), (r" >= ", " > "),
    (r" && ", " || "), (r" \|\| ", " && "), (r" \+ ", " - "), (r" - ", " + "), (r"\btrue\b", "false"), (r"\bfalse\b", "true"),
    (r"\.is_some\(\)", ".is_none()"), (r"\.is_none\(\)", ".is_some()"), (r"\.min\(", ".max("), (r" \+= ", " -= "), (r" -= ", " += "),
    (r"\bif (?!let)(.*) \{", r"if !(\1) {"), (r" >> ", " << "), (r" << ", " >> "), (r" \| ", " & "), (r" & ", " | "), (r" \* ", " + "),
    (r"\.\.=", ".."), (r"from_be_bytes", "from_le_bytes"), (r"to_be_bytes", "to_le_bytes"), (r"\.starts_with\(", ".ends_with("),
    (r"\bbreak\b", "continue"), (r"\bcontinue\b", "break"), (r"Some\((\w+)\)(\?*)([,;)]|$)", r"None\2\3"), (r"\.next\(\)\?", ".last()?"),
    (r"splitn_mut\((\d)", lambda m: "splitn_mut(%d" % (int(m[1]) + 1)), (r"\.ok\(\)\?", ".unwrap_or_default()"),
    (r"\bEntry\b", "Return"), (r"\bBegin\b", "End"), (r"Idle", "Running"), (r"WithId\(tid\)", "All"), (r"current_mem_tid", "current_resume_tid"),
    (r"self\.\w+ = [^;]*;", ";"), (r"Handled\b", "NeedsOk"), (r"NeedsOk\b", "Handled"), (r"\bErr\((Error::\w+)\)", "Ok(HandlerStatus::Handled)"),
    (r"\.map_err\(Error::TargetError\)\?", ".handle_error()?"), (r"\.handle_error\(\)\?", ".map_err(Error::TargetError)?"),
]

def literals(line):
    for m in re.finditer(r"(?<![\w.\"'])(0x[0-9a-fA-F]+|\d+)(?![\w.\"'])(?:(u8|u16|u32|u64|usize)\b)?", line):
        v = int(m[1], 0)
        for w in {v + 1, v - 1 if v else v + 2}:
            yield line[:m.start(1)] + str(w) + line[m.end(1):]
    for m in re.finditer(r"b'(\\?.)'", line):
        yield line[:m.start()] + ("b'Q'" if m[1] != "Q" else "b'z'") + line[m.end():]
    for m in re.finditer(r"\"([^\"\\{}]+)\"", line):
        s = m[1]
        for t in {s[:-1], s + "q"}:
            yield line[:m.start(1)] + t + line[m.end(1):]

def mutants():
    r = []
    fs = subprocess.run(["git", "-C", "/repo", "ls-files"], capture_output=True, text=True).stdout.split()
    for f in fs:
        if not re.search(FILES, f) or not f.endswith(".rs") or "/tests" in f or f.startswith("examples"):
            continue
        L = open("/repo/" + f).read().split("\n")
        test = len(L)
        for i, l in enumerate(L):
            if "#[cfg(test)]" in l and i + 1 < len(L) and ("mod " in L[i + 1] or "mod " in l):
                test = i
                break
        for i in range(test):
            l = L[i]
            if SKIP.match(l) or not l.strip():
                continue
            code = l.split(" // ")[0]
            seen = set()
            for a, b in OPS:
                for m in re.finditer(a, code):
                    n = code[:m.start()] + re.sub(a, b, m[0], count=1) + code[m.end():]
                    seen.add(n)
            seen.update(literals(code))
            if re.match(r"^\s*[\w.:]+(\(.*\)|!.*|\s*[-+]?= .*)\??;$", code) and not re.match(r"^\s*(let|return|type|const|static)\b", code):
                seen.add(re.match(r"^\s*", code)[0] + "{}")
            if re.match(r"^\s*return .*;$", code):
                seen.add(re.match(r"^\s*", code)[0] + ";")
            seen.discard(code)
            for n in sorted(seen):
                r.append((f, i, l, n))
    return r

def setup(k):
    d = f"{BASE}/w{k}"
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    subprocess.run(["git", "clone", "-q", "/repo", d + "/repo"], check=True)
    if os.path.exists("/repo/Cargo.lock"):
        shutil.copy("/repo/Cargo.lock", d + "/repo/Cargo.lock")
    shutil.copytree(C.HARNESS, d + "/harness")
    p = d + "/harness/Cargo.toml"
    t = open(p).read().replace('"/repo', f'"{d}/repo')
    open(p, "w").write(t)
    return d

ENV = "export CARGO_NET_OFFLINE=true; . /opt/vp/env.sh 2>/dev/null; "
def sh(cmd, timeout):
    try:
        r = subprocess.run(["bash", "-c", ENV + cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout)
        return r.returncode, r.stdout
    except subprocess.TimeoutExpired:
        return 124, "timeout"

def evaluate(d, m):
    f, i, old, new = m
    p = f"{d}/repo/{f}"
    orig = open(p).read()
    L = orig.split("\n")
    L[i] = new
    open(p, "w").write("\n".join(L))
    res = {"file": f, "line": i + 1, "old": old.strip(), "new": new.strip()}
    try:
        env = f"export CARGO_TARGET_DIR={d}/target RUSTFLAGS='-Awarnings'; "
        rc, o = sh(env + f"cd {d}/harness && cargo build --offline --quiet", 300)
        if rc:
            res["r"] = "nocompile"
            return res
        b = d + "/target/debug/vharness"
        if f.startswith("gdbstub_arch"):
            C.run_harness(b, ["arch", "--seed", "1", "--n", "40"], d + "/a.nd")
            t = C.tlc("ArchTrace.tla", "ArchTrace.cfg", env={"TRACE": d + "/a.nd"}, workers=3)
            bad = sorted({x.groups()[:4] for x in C.MISMATCH.finditer(t.out)})
            bad = [x for x in bad if not x[3].startswith("size:66:8") and not x[3].startswith("size:67:8")]
            res["bad"] = bad[:5]
            if bad:
                res["r"] = "caught"
                res["props"] = ["P25"]
                return res
        else:
            nd, gs = d + "/x.nd", d + "/x.s"
            open(nd, "w").close()
            dead = []
            for p_ in FOCI:
                q = d + "/y.nd"
                x = C.run_harness(b, ["gen", "--focus", p_, "--seed", str(SEED), "--sessions", str(SESS), "--from", "0"], q, timeout=60)
                if x:
                    dead.append(x)
                    break
                with open(nd, "a") as o, open(q) as s:
                    shutil.copyfileobj(s, o)
            if dead:
                res.update(r="caught", props=["P16"], bad=dead)
                return res
            n, ev = C.group(nd, gs)
            try:
                bad, _ = C.validate(gs, ev)
            except C.ToolError as e:
                res.update(r="toolerror", bad=str(e)[-600:])
                return res
            if bad:
                kinds = sorted({(x[2], x[3], " ".join(x[4])) for x in bad})
                props = [q for q in owners.OWN if any(owners.owned(q, x[2], x[3], x[4]) for x in bad)]
                res.update(r="caught", n=len({x[0] for x in bad}), kinds=kinds[:6], props=props)
                return res
        if "--no-tests" in A:
            res["r"] = "survived?"
            return res
        rc, o = sh(env + f"export CARGO_TARGET_DIR={d}/ttarget; cd {d}/repo && cargo test --workspace --features=std --offline", 400)
        res["r"] = "survived" if rc == 0 else "tests"
        return res
    finally:
        open(p, "w").write(orig)

def main():
    ms = mutants()
    random.Random(SEED).shuffle(ms)
    only = opt("--lines", None)
    done = set()
    if os.path.exists(OUT):
        for l in open(OUT):
            x = json.loads(l)
            done.add((x["file"], x["line"], x["new"]))
    ms = [m for m in ms if (m[0], m[1] + 1, m[3].strip()) not in done][:N]
    print(len(ms), "mutants", flush=True)
    q = queue.Queue()
    for m in ms:
        q.put(m)
    lock = threading.Lock()
    def work(k):
        d = setup(k)
        while True:
            try:
                m = q.get_nowait()
            except queue.Empty:
                break
            try:
                r = evaluate(d, m)
            except Exception as e:
                r = {"file": m[0], "line": m[1] + 1, "old": m[2], "new": m[3], "r": "exc", "e": repr(e)[:500]}
            with lock:
                with open(OUT, "a") as o:
                    o.write(json.dumps(r) + "\n")
        shutil.rmtree(d, ignore_errors=True)
    ts = [threading.Thread(target=work, args=(k,)) for k in range(JOBS)]
    [t.start() for t in ts]
    [t.join() for t in ts]

main()
