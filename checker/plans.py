"""What each check explores."""
import json, random, re

ASSUMPTIONS = [
    "the mock target's answers (including sizes, errors and trait-object adapters) stand for any target's",
    "the harness records calls, bytes, states and errors faithfully (kept simple; shared by all checks)",
    "TLC evaluates the specification correctly",
]


def read_tours(out, cfg):
    """The transitions TLC printed, as scripts for the harness.

    TOUR lines: g configuration, s steps from the initial state, r the target's answers, n how many of them
    were used before the last step, l: the last step did not change the state.  Transitions which lead back to the
    same state are strung together behind the shortest way to that state; a way that is part of a longer one is dropped."""
    conf, loops, ways = {}, {}, {}
    for m in re.finditer(r'^"(CONFIG|TOUR) (.*)"$', out, re.M):
        j = json.loads(m.group(2).replace('\\"', '"').replace('\\\\', '\\'))
        if m.group(1) == "CONFIG":
            conf[j["g"]] = j["c"]
            continue
        s, r, n = j["s"], j["r"], j["n"]
        if j["l"]:
            k = (j["g"], json.dumps(s[:-1]), json.dumps(r[:n]))
            loops.setdefault(k, []).append((s[-1], r[n:]))
        else:
            ways[(j["g"], json.dumps(s), json.dumps(r))] = (j["g"], json.dumps(s[:-1]), json.dumps(r[:n]))
    inner = set(ways.values()) | set(loops)
    res = []
    for k in ways:
        if k not in inner:
            res.append((k, []))
    for k, ls in loops.items():
        ls = sorted(ls, key=str)
        random.Random(len(ls)).shuffle(ls)      # so that a step which secretly changed something is followed by ones which show it
        for i in range(0, len(ls), 12):
            res.append((k, ls[i:i + 12]))
    scripts = []
    for i, ((g, s, r), ls) in enumerate(sorted(res, key=lambda x: (x[0][0], x[0][1], x[0][2]))):
        c = dict(conf[g])
        c["cfg"] = c.pop("f")
        c.update(id=f"{cfg}-{i}", steps=json.loads(s) + [x for x, _ in ls], results=json.loads(r) + sum([y for _, y in ls], []))
        scripts.append(c)
    return scripts


def standard(prop, models=(), quick=1200, thorough=40000):
    """models: (name, transitions replayed by the quick check (None: all))"""
    def plan(run):
        if prop in TABLES:
            run.tables(TABLES[prop])
        if run.tier == "quick":
            for name, n in models:
                run.model(name, sample=n, faults=FAULTS.get(prop, (0, 0))[0])
            run.sessions(prop, quick)
            if prop in SMALL:
                run.small(prop, 500, start=10 ** 6)
            return
        for name, n in models:
            if not run.violations:
                f = FAULTS.get(prop, (0, 0))[1]
                run.model(name, deep=True, sample=DEEP_SAMPLE // (10 if f else 1), faults=f)
        done = 0
        while done < thorough and not run.violations:
            run.sessions(prop, 4000, start=done)
            done += 4000
        if not run.violations:
            run.sessions("all", 4000)
        if not run.violations:
            run.small(prop, 3000, start=10 ** 6)
    return plan


def same(s, rng):
    pass


def adapted(s, rng):
    if s["uw"] == 8:
        s["tv"] = rng.randint(0, 2)
        s["cv"] = rng.choice([1, 2] if s.get("blocking") else [1, 2, 3, 4])


def adapters(run):
    """P23: a mismatch counts when the same session without adapters conforms"""
    quick = run.tier == "quick"
    for name, sample in (("MC_All", None), ("MC_Life", 2500)):
        if run.violations:
            return
        # first the direct sessions: what goes wrong here is not the adapters' fault
        known = set()

        def direct(b):
            known.add((b[0], b[1]))
            return False
        run.model(name, sample=sample if quick else DEEP_SAMPLE // 2, deep=not quick,
                  adapt=[("direct", same, direct), ("through adapters", adapted, lambda b: (b[0], b[1]) not in known)])
    n, step = (1200, 1200) if quick else (24000, 4000)
    done = 0
    while done < n and not run.violations:
        m = min(step, n - done)
        direct = run.sessions("P23", m, own=lambda b: False, extra=["--direct"], start=done, label="direct")
        known = {(b[0], b[1]) for b in direct}
        run.sessions("P23", m, own=lambda b: (b[0], b[1]) not in known, start=done, label="adapters")
        done += m


def arch(run):
    if run.tier == "quick":
        run.arch(run.seed, 40)
    else:
        for k in range(30):
            if not run.violations:
                run.arch(run.seed * 1000 + k, 150)


def pipe(run):
    if run.tier == "quick":
        run.pipe(3300)
    else:
        run.pipe(40000, deep=True)


DEEP_SAMPLE = 60000
# properties whose quick check also runs the library built without an allocator and without unsafe code
SMALL = ("P01", "P10", "P16", "P26")
# in how many places the bytes written by each event are cut off (quick, thorough)
FAULTS = {"P15": (2, 6)}
# tables of named constants (Tables.tla)
TABLES = {"P07": ["signals"], "P18": ["errnos", "flags", "modes", "ioerrors"]}
# the bounded models each property is checked on, and how many of their scripts the quick check replays
MODELS = {
    "P01": [("MC_Frame", 8000), ("MC_Life", 1500), ("MC_Big", None)],
    "P02": [("MC_Life", 4000), ("MC_Frame", 3000)],
    "P03": [("MC_Rle", None), ("MC_All", None), ("MC_Big", None)],
    "P04": [("MC_All", None), ("MC_Life", 4000)],
    "P05": [("MC_Life", None)],
    "P06": [("MC_Life", None)],
    "P07": [("MC_Stops", 9000)],
    "P08": [("MC_Threads", 8000)],
    "P09": [("MC_Vcont", 10000)],
    "P10": [("MC_Mem", None), ("MC_Big", None)],
    "P11": [("MC_Regs", None)],
    "P12": [("MC_Bp", None)],
    "P13": [("MC_Neg", None)],
    "P14": [("MC_Unimpl", None), ("MC_Bp", 1500)],
    "P15": [("MC_All", None), ("MC_TpUp", 400), ("MC_Monitor", 150), ("MC_Misc", 150), ("MC_Proc", 150), ("MC_Rle", 100)],
    "P16": [("MC_Args", None), ("MC_Frame", 2000), ("MC_Big", None)],
    "P17": [("MC_Xfer", None), ("MC_Big", None)],
    "P18": [("MC_HostIo", None), ("MC_Big", None)],
    "P19": [("MC_Proc", None), ("MC_Big", None)],
    "P20": [("MC_TpDef", None), ("MC_Big", None)],
    "P21": [("MC_TpUp", None)],
    "P22": [("MC_Threads", 8000), ("MC_Big", None)],
    "P24": [("MC_Block", None), ("MC_Life", 2000)],
    "P26": [("MC_Monitor", None), ("MC_Big", None)],
    "P27": [("MC_Misc", None), ("MC_Big", None)],
}
PLANS = {p: standard(p, m) for p, m in MODELS.items()}
PLANS["P23"] = adapters
PLANS["P25"] = arch
PLANS["P28"] = pipe
