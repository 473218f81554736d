"""Shared machinery: build the driver from /repo, run scenarios against it, judge traces with TLC."""
import json, os, re, shutil, subprocess, sys, tempfile, time, random

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
TARGET = os.path.join(VERIF, "target")
JAR = "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar"
NPROC = os.cpu_count() or 4


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


class Work:
    """Scratch directory, removed on exit."""
    def __init__(self):
        base = os.path.join(VERIF, "work")
        os.makedirs(base, exist_ok=True)
        self.dir = tempfile.mkdtemp(prefix="run.", dir=base)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def __enter__(self):
        return self

    def __exit__(self, *a):
        shutil.rmtree(self.dir, ignore_errors=True)


# ------------------------------------------------------------------ building
ALLF = ("faithful", "query_strings", "cookies", "url_variables", "raw_headers", "extended_queries", "json")
DEFAULTF = ALLF[:5]


def features_of(variant):
    """which of the library's optional features a build has"""
    if variant == "bare":
        return set()
    if variant == "default":
        return set(DEFAULTF)
    if variant.startswith("no_"):
        return set(ALLF) - set(variant[3:].split("+"))
    if variant.startswith("only_"):
        return set(variant[5:].split("+"))
    return set(ALLF)


def build(variant="full"):
    """cargo build of the driver against /repo's current tree; returns the binary."""
    own = variant in ("full", "use_openssl", "use_rustls")
    target = os.path.join(TARGET, variant if own else "features")
    env = dict(os.environ, CARGO_TARGET_DIR=target, CARGO_NET_OFFLINE="true")
    cmd = ["cargo", "build", "--offline", "--features", variant if own else " ".join(sorted(features_of(variant)))]
    t = time.time()
    for attempt in (1, 2):
        p = subprocess.run(cmd, cwd=HARNESS, env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
        if p.returncode == 0:
            break
    else:
        log(p.stdout[-4000:])
        raise ToolError("the driver does not build against /repo (%s)" % variant)
    log("built %s in %.1fs" % (variant, time.time() - t))
    made = os.path.join(target, "debug", "octane-drive")
    if own:
        return made
    kept = made + "." + variant
    shutil.copy2(made, kept)
    return kept


# ------------------------------------------------------------------ scenarios
DEF = dict(app=[], view=[], conns=[], steps=[], files=[], gens=[], clock=[18000, 0], afaults=[], fchunk=0,
           manual=False, workers=2, tls=False)
DEFCONN = dict(bytes=[], tail=[], reads=[], writes=[], loose=False)
DEFOP = dict(a=[], b=[], n=0, m=0)


def bts(x):
    if isinstance(x, str):
        x = x.encode()
    return list(x)


def op(o, a=b"", b=b"", n=0, m=0, c=b""):
    return dict(o=o, a=bts(a), b=bts(b), n=n, m=m, c=bts(c))


def route(k, p, h, prog=None, flow="stop"):
    return dict(k=k, p=bts(p), h=h, prog=prog if prog is not None else [op("send", "h%d" % h)], flow=flow, routes=[])


def mount(routes):
    return dict(k="mount", p=[], h=0, prog=[], flow="next", routes=routes)


def conn(b, **kw):
    return dict(DEFCONN, bytes=bts(b), **kw)


def scenario(**kw):
    s = dict(DEF)
    s.update(kw)
    return s


def play(i=1, half=False):
    st = [dict(do="open", c=i), dict(do="send", c=i)]
    if half:
        st.append(dict(do="half", c=i))
    return st + [dict(do="finish", c=i)]


def single(app, raw, half=False, view=(), **kw):
    ck = {k: kw.pop(k) for k in list(kw) if k in ("reads", "writes", "tail", "loose", "rfault", "wfault", "rcvbuf", "tls", "tlsv", "alpn", "sni", "resume", "addr")}
    steps = kw.pop("steps", None) or play(1, half)
    if ck.get("tls"):
        kw["tls"] = True
    return scenario(app=app, view=list(view), conns=[conn(raw, **ck)], steps=steps, **kw)


def run_scenarios(binary, scs, work, tmo=None, shards=NPROC, wall=600, maxtmo=None):
    """Runs the scenarios on `shards` driver processes; returns traces aligned with scs."""
    for i, s in enumerate(scs):
        s["id"] = i
    shards = max(1, min(shards, len(scs)))
    procs = []
    base = 11000
    for j in range(shards):
        part = scs[j::shards]
        d = work.path("drv.%d.%d" % (os.getpid(), j))
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, "in"), "w") as f:
            for s in part:
                f.write(json.dumps(s, separators=(",", ":")) + "\n")
        env = dict(os.environ, DRIVE_DIR=d, DRIVE_PORT=str(base + 2000 * j), DRIVE_TLS=os.path.join(HARNESS, "tls"))
        if tmo:
            env["DRIVE_TMO"] = str(tmo)
        if maxtmo:
            env["DRIVE_MAXTMO"] = str(maxtmo)
        procs.append((d, part, env, None))
    out = {}
    deadline = time.time() + wall
    running = []
    for d, part, env, _ in procs:
        running.append((d, part, env, spawn(binary, d, env), 0))
    while running:
        d, part, env, p, tries = running.pop(0)
        try:
            p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            raise ToolError("driver exceeded %ds" % wall)
        done = []
        with open(os.path.join(d, "out")) as f:
            for line in f:
                if line.endswith("\n"):
                    done.append(json.loads(line))
        for t in done:
            out[t["id"]] = t
        if p.returncode != 0 or len(done) < len(part):
            # the process died: the scenario it was running is reported as crashed, the rest is resumed
            rest = [s for s in part if s["id"] not in out]
            if not rest:
                continue
            crashed = rest[0]
            log("driver died (%s) in scenario %s" % (p.returncode, crashed["id"]))
            out[crashed["id"]] = dict(id=crashed["id"], regs=[], events=[], err="crash", crash=True)
            rest = rest[1:]
            if rest:
                with open(os.path.join(d, "in"), "w") as f:
                    for s in rest:
                        f.write(json.dumps(s, separators=(",", ":")) + "\n")
                running.append((d, rest, env, spawn(binary, d, env), tries + 1))
    for d, *_ in procs:
        shutil.rmtree(d, ignore_errors=True)
    return [out[i] for i in range(len(scs))]


def spawn(binary, d, env):
    return subprocess.Popen([binary, os.path.join(d, "in"), os.path.join(d, "out")], env=env, cwd=d,
                            stdout=subprocess.DEVNULL,
                            stderr=None if os.environ.get("DRIVE_PANICS") else subprocess.DEVNULL)


# ------------------------------------------------------------------ TLC
def tlc(module, cfg, work, env=None, args=(), workers=NPROC, timeout=800, heap="6g", ok=(0,)):
    meta = tempfile.mkdtemp(prefix="tlc.", dir=work.dir)
    cmd = ["java", "-Xss256m", "-Xmx" + heap, "-XX:+UseParallelGC", "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC", "-workers", str(workers),
           "-metadir", meta, "-noGenerateSpecTE", "-config", cfg] + list(args) + [module]
    try:
        p = subprocess.run(cmd, cwd=SPEC, env=dict(os.environ, **(env or {})), stdout=subprocess.PIPE,
                           stderr=subprocess.STDOUT, text=True, timeout=timeout)
    except subprocess.TimeoutExpired:
        raise ToolError("TLC on %s exceeded %ds" % (module, timeout))
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    if p.returncode not in ok:
        log(p.stdout[-6000:])
        raise ToolError("TLC failed on %s (%d)" % (module, p.returncode))
    return p.stdout


def generate(module, work, simulate=0, seed=1, **env):
    """Behaviours a generator specification prints, as JSON values; also the states TLC visited."""
    args = ["-simulate", "num=%d" % simulate, "-seed", str(seed), "-depth", "100"] if simulate else []
    out = tlc(module + ".tla", module + ".cfg", work, env={k.upper(): str(v) for k, v in env.items()}, args=args,
              workers=1 if simulate else NPROC)
    got = [json.loads(json.loads(line)) for line in out.splitlines() if line.startswith('"') and line.endswith('"')]
    got = [json.loads(x) for x in sorted({json.dumps(x, sort_keys=True) for x in got})]
    if simulate and len(got) > simulate:
        got = random.Random(seed).sample(got, simulate)     # TLC prints every successor it considered
    return got, states(out)


def states(out):
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found", out)
    return (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)


BAD = re.compile(r'<<\s*"BAD",\s*(-?\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', re.S)
CALL_EVENTS_DROPPED = ("recv", "eof", "enter", "aerr")


def tlc_cases(module, cases, work, want, par=None):
    """Hands the cases to TLC (several TLC processes side by side) and returns {case id: tags} and the states visited."""
    par = par or (4 if len(cases) >= 400 else 1)
    # balance by size
    order = sorted(range(len(cases)), key=lambda i: -want(cases[i]))
    groups = [order[j::par] for j in range(par)]
    procs = []
    for j, g in enumerate(groups):
        if not g:
            continue
        f = work.path("cases.%d.ndjson" % j)
        with open(f, "w") as fh:
            for i in g:
                fh.write(json.dumps(cases[i], separators=(",", ":")) + "\n")
        meta = tempfile.mkdtemp(prefix="tlc.", dir=work.dir)
        o = open(work.path("tlc.%d.out" % j), "w+")
        cmd = ["java", "-Xss512m", "-Xmx5g", "-XX:+UseParallelGC", "-XX:ParallelGCThreads=2", "-Djava.io.tmpdir=" + meta, "-cp", JAR, "tlc2.TLC", "-workers",
               str(max(1, NPROC // par)), "-metadir", meta, "-noGenerateSpecTE", "-config", module + ".cfg", module + ".tla"]
        procs.append((subprocess.Popen(cmd, cwd=SPEC, env=dict(os.environ, CASES=f), stdout=o, stderr=subprocess.STDOUT), o, f, meta, g))
    bad, total = {}, 0
    for pr, o, f, meta, g in procs:
        try:
            pr.wait(timeout=1800)
        except subprocess.TimeoutExpired:
            for q in procs:
                q[0].kill()
            raise ToolError("TLC on %s took too long" % module)
        o.seek(0)
        out = o.read()
        o.close()
        os.unlink(f)
        shutil.rmtree(meta, ignore_errors=True)
        if pr.returncode != 0:
            log(out[-6000:])
            raise ToolError("TLC failed on %s (%d)" % (module, pr.returncode))
        gen, dist = states(out)
        w = sum(want(cases[i]) for i in g)
        if dist != w:
            log(out[-3000:])
            raise ToolError("TLC consumed %d of %d trace states" % (dist, w))
        total += dist
        found = BAD.findall(out)
        if out.count('"BAD"') != len(found):
            raise ToolError("could not parse TLC's verdicts")
        for cid, _, tags in found:
            bad.setdefault(int(cid), set()).update(re.findall(r'"([^"]+)"', tags))
    return bad, total


def judge(scs, traces, work):
    """Validates traces against Trace.tla. Returns {case index: set(tags)} and the number of states TLC visited."""
    cases = []
    if scs and scs[0].get("kind") == "config":
        for i, (s, t) in enumerate(zip(scs, traces)):
            if not t.get("crash"):
                cases.append(dict(id=i, ops=s["ops"], events=t["events"]))
        bad, total = tlc_cases("ConfigTrace", cases, work, lambda c: len(c["events"]) + 1) if cases else ({}, 0)
        bad.update({i: {"K_app", "K_cfg"} for i, t in enumerate(traces) if t.get("crash")})
        return bad, total
    for i, (s, t) in enumerate(zip(scs, traces)):
        if t.get("skipped"):
            continue
        sc = {k: s[k] for k in ("app", "files", "clock", "manual")}
        sc["conns"] = [{"bytes": c["bytes"], "tail": c["tail"], "loose": c["loose"]} for c in s["conns"]]
        ev = [e for e in t["events"] if e["e"] not in CALL_EVENTS_DROPPED]
        cases.append(dict(id=i, sc=sc, events=ev, regs=t["regs"], err=t["err"] or ""))
    if not cases:
        return {}, 0
    bad, total = tlc_cases("Trace", cases, work, lambda c: len(c["events"]) + 2)
    for i, t in enumerate(traces):
        if t.get("crash"):
            bad.setdefault(i, set()).add("X_crash")
    return bad, total


def side(trace, c):
    calls = [e for e in trace["events"] if e["e"] == "call" and e["c"] == c]
    done = [e for e in trace["events"] if e["e"] == "done" and e["c"] == c]
    return dict(calls=calls, done=done)


def judge_twins(twins, work):
    """twins: list of (trace a, trace b, [(ca, cb)]). Returns {index: tags}, states."""
    cases = []
    for i, (a, b, pairs) in enumerate(twins):
        if a.get("skipped") or b.get("skipped"):
            continue
        cases.append(dict(id=i, pairs=[dict(a=side(a, x), b=side(b, y)) for x, y in pairs]))
    if not cases:
        return {}, 0
    return tlc_cases("Twin", cases, work, lambda c: 2)
