#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]: decide one property of /repo's current working tree.

exit 0: it held on everything explored; exit 1 and a VIOLATION line: it is broken; exit 2: no answer."""
import json, os, random, re, sys, time, shutil
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import common as C
import owners
import plans


class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.violations = []        # (description, replay file)
        self.states = self.transitions = self.traces = self.events = 0
        self.models = []
        self.samples = []
        self.parts = []
        self.dir = os.path.join(C.WORK, "run", prop)
        shutil.rmtree(self.dir, ignore_errors=True)
        os.makedirs(self.dir, exist_ok=True)
        self.bin = None
        self.known = []

    def path(self, n):
        return os.path.join(self.dir, n)

    # ------------------------------------------------------------ results
    def replay_file(self, name, script, what):
        d = os.path.join(C.WORK, "replays")
        os.makedirs(d, exist_ok=True)
        f = os.path.join(d, f"{self.prop}-{name}.ndjson")
        with open(f, "w") as o:
            o.write(json.dumps(script) + "\n")
        with open(f + ".txt", "w") as o:
            o.write(what + "\n")
        return f

    def violation(self, name, script, what):
        f = self.replay_file(name, script, what)
        self.violations.append((what, f))
        print(f"VIOLATION property={self.prop} replay={f}", flush=True)
        C.note(what)

    # ------------------------------------------------------------ recorded sessions
    def judge(self, grouped, events, own, label, limit=3):
        """validate; report what breaks this property; returns all mismatches"""
        bad, ok = C.validate(grouped, events)
        self.states += ok
        self.transitions += max(0, ok - self.lines(grouped))
        mine = [b for b in bad if own(b)]
        if bad and not mine:
            C.note(f"{label}: {len(bad)} mismatches that concern other properties, e.g. {bad[:2]}")
        if mine:
            ids = {b[0] for b in mine[:200]}
            ss = C.load_sessions(grouped, ids)
            done = 0
            for sid, pos, fam, aspect, flags in mine:
                if sid not in ss or done >= limit:
                    continue
                s = ss.pop(sid)
                done += 1
                what = [f"{label}: session {sid}, event {pos}: a step of kind '{fam}' differs from the specification in '{aspect}' {flags}"]
                for e in s[max(1, pos - 3):pos]:
                    what += C.show_event(e)
                self.violation(sid, C.to_script(s[:pos]), "\n".join(what))
        return bad

    def lines(self, f):
        with open(f, "rb") as i:
            return sum(1 for _ in i)

    def own(self, b):
        return owners.owned(self.prop, b[2], b[3], b[4])

    def sessions(self, focus, n, own=None, extra=(), label=None, start=0):
        label = label or f"random {focus}"
        nd, gs = self.path(f"{focus}.nd"), self.path(f"{focus}.s")
        dead = C.gen(self.bin, focus, self.seed, n, nd, start=start, extra=extra)
        for k, why in dead[:3]:
            self.violation(f"{focus}-{self.seed}-{k}", {"gen": {"focus": focus, "seed": self.seed, "from": k, "sessions": 1}},
                           f"{label}: the process running session {k} {why}")
        ns, ev = C.group(nd, gs)
        if ns == 0:
            return []
        bad = self.judge(gs, ev, own or self.own, label)
        self.traces += ns
        self.events += ev
        self.parts.append({"what": label, "sessions": ns, "events": ev, "mismatches": len(bad)})
        if not self.samples:
            self.sample(gs)
        os.remove(nd)
        return bad

    def sample(self, gs, n=2):
        with open(gs) as f:
            for i, line in enumerate(f):
                s = json.loads(line)
                if len(s) > 5:
                    self.samples.append({"session": s[0]["id"], "events": sum([C.show_event(e) for e in s[1:6]], [])})
                if len(self.samples) >= n:
                    break

    def small(self, focus, n, start=0):
        """random sessions with the library built without an allocator and without unsafe code"""
        b = C.build_small()
        if b is None:
            self.parts.append({"what": "without std", "sessions": 0, "note": "does not build"})
            return
        keep, self.bin = self.bin, b
        try:
            self.sessions(focus, n, start=start, label=f"random {focus} (no alloc, no unsafe)")
        finally:
            self.bin = keep

    def replay(self, name, scripts, own=None, label=None):
        """run scripts (list of dicts) through the real code and validate"""
        label = label or f"replay {name}"
        sc = self.path(f"{name}.scripts")
        nd, gs = self.path(f"{name}.nd"), self.path(f"{name}.s")
        ok = []
        size = max(1, (len(scripts) + 7) // 8)
        chunks = [scripts[i:i + size] for i in range(0, len(scripts), size)]

        def one(a):
            i, ch = a
            f, o = f"{sc}.{i}", f"{nd}.{i}"
            with open(f, "w") as h:
                for s in ch:
                    h.write(json.dumps(s) + "\n")
            d = C.run_harness(self.bin, ["replay", "--script", f], o)
            if d:
                for k, s in enumerate(ch):          # find the one that kills it
                    with open(f, "w") as h:
                        h.write(json.dumps(s) + "\n")
                    d2 = C.run_harness(self.bin, ["replay", "--script", f], f"{o}.{k}")
                    if d2:
                        return None, (s, d2)
                raise C.ToolError("harness died: " + d)
            return o, None
        with C.ThreadPoolExecutor(8) as ex:
            res = list(ex.map(one, enumerate(chunks)))
        with open(nd, "w") as o:
            for f, dead in res:
                if dead:
                    self.violation(dead[0].get("id", name), dead[0], f"{label}: the process {dead[1]}")
                else:
                    with open(f) as i:
                        shutil.copyfileobj(i, o)
                    os.remove(f)
        ns, ev = C.group(nd, gs)
        bad = self.judge(gs, ev, own or self.own, label) if ns else []
        self.traces += ns
        self.events += ev
        self.parts.append({"what": label, "sessions": ns, "events": ev, "mismatches": len(bad)})
        return gs, bad

    # ------------------------------------------------------------ architecture definitions
    def arch(self, seed, n):
        """record what gdbstub_arch does, compare with the tables in Arch.tla"""
        f = self.path("arch.nd")
        dead = C.run_harness(self.bin, ["arch", "--seed", str(seed), "--n", str(n)], f)
        if dead:
            self.violation("arch", {"arch": {"seed": seed, "n": n}}, f"the process recording the architectures {dead}")
            return
        t = C.tlc("ArchTrace.tla", "ArchTrace.cfg", env={"TRACE": f})
        if not t.finished or t.error:
            raise C.ToolError(f"TLC on recorded architectures: {t.error or t.out[-3000:]}")
        bad = sorted({m.groups()[:4] for m in C.MISMATCH.finditer(t.out)})
        kf = os.path.join(C.ROOT, "known", "P25.json")
        known = {}
        if os.path.exists(kf):
            with open(kf) as i:
                known = {(k["arch"], k["aspect"]): k for k in json.load(i)}
        new = []
        for sid, _, fam, aspect in bad:
            k = known.get((sid.split("-")[0], aspect))
            if k is None:
                new.append((sid, fam, aspect))
            elif aspect not in self.known:
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)
                self.known.append(aspect)
        if new:
            obs = {}
            with open(f) as i:
                for line in i:
                    o = json.loads(line)
                    obs[o["id"]] = o
            for sid, fam, aspect in new[:5]:
                self.violation(sid + "-" + aspect.replace(":", "-"), obs[sid], f"{sid}: '{fam}' differs from Arch.tla in '{aspect}'")
        self.states += t.distinct
        self.traces += t.distinct
        self.events += t.distinct
        self.parts.append({"what": f"architectures, seed {seed}", "observations": t.distinct, "mismatches": len(bad)})
        if not self.samples:
            with open(f) as i:
                self.samples.append({"observation": json.loads(i.readline())})

    # ------------------------------------------------------------ connections
    def pipe(self, sample, deep=False):
        """check the model of byte-stream connections; run its behaviours on every kind of connection, and compare"""
        with C.ThreadPoolExecutor(4) as ex:
            ts = list(ex.map(lambda k: C.tlc("MC_Pipe.tla", "MC_Pipe.cfg", workers=1, heap="3g", timeout=2400,
                                             env={"SHARD": str(k), "SHARDS": "4", "DEEP": "1" if deep else "0"}), range(4)))
        scripts = []
        m = {"model": "MC_Pipe", "deep": deep, "states": 0, "transitions": 0}
        for t in ts:
            if t.error or not t.finished:
                raise C.ToolError(f"MC_Pipe: {t.error or t.out[-2000:]}")
            m["states"] += t.distinct
            m["transitions"] += t.generated
            scripts += sorted(re.findall(r'^"PIPE (.*)"$', t.out, re.M))
        m["scripts"] = len(scripts)
        rng = random.Random(self.seed)
        by = {}
        for s in scripts:
            j = json.loads(s.replace('\\"', '"'))
            by.setdefault(j["via"], []).append(j)
        pick = []
        for v in sorted(by):        # every kind of connection alike
            pick += rng.sample(by[v], min(len(by[v]), sample // len(by)))
        for i, j in enumerate(pick):
            j["id"] = f"pipe-{i}"
        rng.shuffle(pick)
        m["replayed"] = len(pick)
        self.models.append(m)
        parts = []
        for k in range(8):
            f = self.path(f"pipe.{k}")
            with open(f, "w") as o:
                o.writelines(json.dumps(j) + "\n" for j in pick[k::8])
            parts.append(f)
        with C.ThreadPoolExecutor(8) as ex:
            dead = [d for d in ex.map(lambda f: C.run_harness(self.bin, ["pipe", "--script", f], f + ".nd"), parts) if d]
        if dead:
            raise C.ToolError("connections: " + dead[0])
        obs = self.path("pipe.nd")
        with open(obs, "w") as o:
            for f in parts:
                with open(f + ".nd") as i:
                    shutil.copyfileobj(i, o)
        t = C.tlc("PipeTrace.tla", "PipeTrace.cfg", env={"TRACE": obs})
        if not t.finished or t.error:
            raise C.ToolError(f"TLC on recorded connections: {t.error or t.out[-3000:]}")
        bad = sorted({x.groups()[:4] for x in C.MISMATCH.finditer(t.out)})
        if bad:
            with open(obs) as i:
                said = {json.loads(l)["id"]: l for l in i}
            byid = {j["id"]: j for j in pick}
            for sid, pos, op, res in bad[:3]:
                self.violation(sid, byid[sid], f"connection {byid[sid]['via']}: operation {pos} ({op}, {res}) differs from Pipe.tla\n{said[sid]}")
        self.states += m["states"] + t.distinct
        self.transitions += m["transitions"]
        self.traces += len(pick)
        self.events += sum(len(j["ops"]) for j in pick)
        self.parts.append({"what": "connections", "scripts": len(pick), "mismatches": len(bad)})
        self.samples += pick[:2]

    # ------------------------------------------------------------ tables of named constants
    def tables(self, kinds):
        """compare the named protocol constants with the tables in Tables.tla"""
        f = self.path("tables.nd")
        dead = C.run_harness(self.bin, ["tables"], f)
        if dead:
            raise C.ToolError("tables: " + dead)
        t = C.tlc("Tables.tla", "Tables.cfg", env={"TRACE": f}, workers=1, heap="1g")
        if not t.finished or t.error:
            raise C.ToolError(f"TLC on the tables: {t.error or t.out[-3000:]}")
        bad = sorted({(m.group(3), m.group(4)) for m in C.MISMATCH.finditer(t.out) if m.group(3) in kinds})
        for k, name in bad[:5]:
            self.violation(f"{k}-{name}", {"tables": {"table": k, "name": name}}, f"the constant {name} of {k} differs from Tables.tla")
        self.states += t.distinct
        self.parts.append({"what": "tables of constants: " + ", ".join(kinds), "mismatches": len(bad)})

    # ------------------------------------------------------------ bounded models
    def model(self, name, sample=None, deep=False, timeout=2400, own=None, adapt=None, shards=4, faults=0):
        """check the properties of a bounded model with TLC; replay its transitions in the real code

        adapt: a list of (label, function that changes a script, which mismatches count); one replay for each"""
        def one(k):
            env = {"TOURS": "1", "SHARD": str(k), "SHARDS": str(shards), "DEEP": "1" if deep else "0"}
            return C.tlc(name + ".tla", "MC.cfg", env=env, workers=1, heap="3g", timeout=timeout)
        with C.ThreadPoolExecutor(shards) as ex:
            ts = list(ex.map(one, range(shards)))
        scripts = []
        m = {"model": name, "deep": deep, "states": 0, "transitions": 0}
        for k, t in enumerate(ts):
            if t.error and "no initial state" not in t.out.lower() or not t.finished:
                what = "the specification itself breaks a property" if "is violated" in (t.error or "") else "TLC"
                raise C.ToolError(f"{what} in {name}: {t.error or t.out[-2000:]}")
            m["states"] += t.distinct
            m["transitions"] += t.generated
            scripts += plans.read_tours(t.out, f"{name}-{k}")
        self.states += m["states"]
        self.transitions += m["transitions"]
        if not scripts:
            raise C.ToolError(f"{name} produced no tours")
        m["scripts"] = len(scripts)
        if sample and len(scripts) > sample:
            scripts = random.Random(self.seed).sample(scripts, sample)
        m["replayed"] = len(scripts)
        self.models.append(m)
        if faults:
            gs, bad = self.replay(name, scripts, own, label=f"transitions of {name}")
            return bad + self.cut_off(name, scripts, gs, faults, own)
        if not adapt:
            return self.replay(name, scripts, own, label=f"transitions of {name}")[1]
        for label, change, mine in adapt:
            rng = random.Random(self.seed)
            for s in scripts:
                change(s, rng)
            self.replay(name, scripts, mine, label=f"transitions of {name} {label}")

    def cut_off(self, name, scripts, gs, per, own):
        """the same scripts with a connection that stops accepting bytes in the middle of what an event wrote"""
        by = {s["id"]: s for s in scripts}
        rng = random.Random(self.seed)
        cut = []
        for sid, events in C.load_sessions(gs).items():
            before = 0
            for e in events[1:]:
                n = len(e["out"])
                for k in rng.sample(range(1, n + 1), min(per, n)):
                    cut.append(dict(by[sid], id=f"{sid}.w{before + k}", wf=before + k))
                before += n
        for k, s in enumerate(scripts):
            cut.append(dict(s, id=f"{s['id']}.f", ff=rng.randint(1, len(s["steps"]) + 2)))
        return self.replay(name + "-cut", cut, own, label=f"transitions of {name}, writes or flushes fail")[1]

    # ------------------------------------------------------------ known findings
    def known_findings(self):
        f = os.path.join(C.ROOT, "known", f"{self.prop}.json")
        if not os.path.exists(f):
            return
        with open(f) as i:
            ks = [k for k in json.load(i) if "script" in k]
        if not ks:
            return
        gs, _ = self.replay("known", [k["script"] for k in ks], label="known findings")
        ss = C.load_sessions(gs)
        for k in ks:
            s = ss.get(k["script"]["id"])
            if s and any(k["shows"] in C.txt(e["out"]) for e in s[1:]):
                print(f"KNOWN-FINDING: property={self.prop} {k['what']}", flush=True)
                self.known.append(k["script"]["id"])

    def evidence(self):
        ev = {
            "property": self.prop, "tier": self.tier, "seed": self.seed, "level": "model_checking",
            "coverage": {
                "states": self.states, "transitions": self.transitions,
                "traces_validated_against_impl": self.traces, "events_validated": self.events,
                "models": self.models, "recordings": self.parts, "known_findings_seen": self.known,
                "samples": self.samples or [{"note": "no session"}],
                "exhaustive": False,
            },
            "assumptions": plans.ASSUMPTIONS,
            "wall_s": round(time.time() - self.t0, 1),
            "violations": len(self.violations),
        }
        os.makedirs(os.path.join(C.ROOT, "evidence"), exist_ok=True)
        with open(os.path.join(C.ROOT, "evidence", f"{self.prop}.json"), "w") as o:
            json.dump(ev, o, indent=1)
            o.write("\n")


def main():
    a = sys.argv[1:]
    prop = a[0]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--tier" in a:
        tier = a[a.index("--tier") + 1]
    seed = int(os.environ.get("VERIF_SEED", "1"))
    os.makedirs(C.WORK, exist_ok=True)
    run = Run(prop, tier, seed)
    try:
        run.bin = C.build()
        plans.PLANS[prop](run)
        run.known_findings()
    except C.ToolError as e:
        C.note("no answer:", e)
        if run.violations:
            run.evidence()
            return 1
        return 2
    run.evidence()
    C.note(f"{prop} {tier}: {run.traces} sessions, {run.events} events, {len(run.models)} models, "
           f"{len(run.violations)} violations, {time.time() - run.t0:.1f} s")
    shutil.rmtree(run.dir, ignore_errors=True)
    return 1 if run.violations else 0


if __name__ == "__main__":
    sys.exit(main())
