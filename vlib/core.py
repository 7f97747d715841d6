"""Shared machinery of the checks: building the drivers, running scripts, trace checking."""
import hashlib, json, os, re, subprocess, sys, time, shutil, random, tempfile, concurrent.futures as cf

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BUILD = os.path.join(VERIF, "build")
SPEC = os.path.join(VERIF, "spec")
HARNESS = os.path.join(VERIF, "harness")
SHIM = os.path.join(VERIF, "shim")
SEED = int(os.environ.get("VERIF_SEED", "1"))
TIER = os.environ.get("VERIF_TIER", "quick")
THOROUGH = TIER == "thorough"


os.makedirs(BUILD, exist_ok=True)


class ToolError(Exception):
    pass


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, env=None, timeout=600, cwd=None, stdin=None):
    e = dict(os.environ)
    e.update(env or {})
    return subprocess.run(cmd, env=e, cwd=cwd, timeout=timeout, stdin=stdin,
                          stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace")


# ------------------------------------------------------------------ building

def build(bins, profiles=("debug", "release"), hooked=False, features=(), vars={}):
    """Build drivers from the current tree of /repo. Returns {(bin, profile): path}."""
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, ".lock"), "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    tdir = os.path.join(BUILD, "hooked" if hooked else "plain")
    env = dict(vars, CARGO_TARGET_DIR=tdir, CARGO_NET_OFFLINE="true")
    features = list(features) + (["hooked"] if hooked else [])
    if hooked:
        env["RUSTFLAGS"] = build_shim()
        env["CARGO_ENCODED_RUSTFLAGS"] = ""
        del env["CARGO_ENCODED_RUSTFLAGS"]
    else:
        env["RUSTFLAGS"] = ""

    def one(profile):
        cmd = ["cargo", "build", "--offline", "-q"]
        for b in bins:
            cmd += ["--bin", b]
        if profile == "release":
            cmd.append("--release")
        if features:
            cmd += ["--features", ",".join(features)]
        e = dict(env)
        # The two profiles build side by side.
        e["CARGO_TARGET_DIR"] = tdir + "-" + profile
        r = sh(cmd, env=e, cwd=HARNESS, timeout=850)
        if r.returncode != 0:
            raise ToolError("build failed:\n" + r.stderr[-4000:])

    with cf.ThreadPoolExecutor(2) as ex:
        list(ex.map(one, profiles))
    lock.close()
    return {(b, p): os.path.join(tdir + "-" + p, p, b) for b in bins for p in profiles}


def compiler_messages(bin, features, vars):
    """What the compiler says about a driver that need not compile."""
    lock = open(os.path.join(BUILD, ".lock"), "w")
    import fcntl
    fcntl.flock(lock, fcntl.LOCK_EX)
    env = dict(vars, CARGO_TARGET_DIR=os.path.join(BUILD, "plain-debug"), CARGO_NET_OFFLINE="true", RUSTFLAGS="")
    r = sh(["cargo", "check", "--offline", "-q", "--message-format=json", "--bin", bin, "--features", ",".join(features)],
           env=env, cwd=HARNESS, timeout=850)
    lock.close()
    res, ok = [], False
    for l in r.stdout.split("\n"):
        if l.startswith("{"):
            m = json.loads(l)
            if m.get("reason") == "compiler-message":
                if m["target"]["name"] == bin:
                    res.append(m["message"])
                elif m["message"]["level"] == "error":
                    raise ToolError("build failed:\n" + (m["message"].get("rendered") or "")[-4000:])
            elif m.get("reason") == "build-finished":
                ok = m["success"]
    if not ok and not any(m["level"] == "error" for m in res):
        raise ToolError("build failed:\n" + r.stderr[-4000:])
    return res


def build_shim():
    h = hashlib.sha1()
    for f in ("core.rs", "std.rs"):
        h.update(open(os.path.join(SHIM, f), "rb").read())
    # What was built against other replacements must not be used with these.
    out = os.path.join(BUILD, "shim-" + h.hexdigest()[:12])
    os.makedirs(out, exist_ok=True)
    for name, src, ext in (("lokky_verif_core", "core.rs", []),
                           ("lokky_verif_std", "std.rs",
                            ["--extern", "lokky_verif_core=" + os.path.join(out, "liblokky_verif_core.rlib")])):
        lib = os.path.join(out, "lib%s.rlib" % name)
        srcp = os.path.join(SHIM, src)
        if os.path.exists(lib):
            continue
        r = sh(["rustc", "--edition", "2021", "--crate-type", "rlib", "--crate-name", name, "-O",
                "--out-dir", out, srcp] + ext)
        if r.returncode != 0:
            raise ToolError("shim: " + r.stderr[-3000:])
    return ("--cfg lokky_verif --extern lokky_verif_core={0}/liblokky_verif_core.rlib "
            "--extern lokky_verif_std={0}/liblokky_verif_std.rlib -L dependency={0}").format(out)


# ------------------------------------------------------------------ running scripts

class Trace:
    """One recorded trace: header (dict), events (JSON text), the script it came from."""
    __slots__ = ("head", "ev", "script", "profile", "crash")

    def __init__(self, head, script, profile):
        self.head, self.script, self.profile = head, script, profile
        self.ev, self.crash = [], None


def valid_event(line):
    if not line.startswith('{"op":'):
        return False
    try:
        json.loads(line)
        return True
    except ValueError:
        return False


HANGS = 16   # histories that may fail to end before no further ones are run


def run_chunk(path, scripts, profile, crash_event, args=(), timeout=120, max_crashes=30, hangs=None):
    """Run scripts with a driver. A script during which the process dies ends with a crash event."""
    traces = []
    at = 0
    crashes = 0
    text = "".join(s.rstrip("\n") + "\n.\n" for s in scripts)
    with tempfile.TemporaryFile("w+") as f:
        f.write(text)
        f.flush()
        while at < len(scripts) and crashes < max_crashes and (hangs is None or len(hangs) < HANGS):
            f.seek(0)
            try:
                r = sh([path, str(at)] + list(args), stdin=f, timeout=timeout)
                out, rc = r.stdout, r.returncode
                err = r.stderr
            except subprocess.TimeoutExpired as ex:
                out = (ex.stdout or b"").decode("utf8", "replace") if isinstance(ex.stdout, bytes) else (ex.stdout or "")
                rc, err = -99, "timeout"
            cur = None
            idx = at
            lines = out.split("\n")
            if lines and lines[-1] != "":
                lines.pop()  # incomplete line
            for line in lines:
                if line.startswith("T "):
                    cur = Trace(line[2:], scripts[idx], profile)
                    traces.append(cur)
                elif line == "E":
                    cur = None
                    idx += 1
                elif cur is not None and cur.crash is None:
                    if valid_event(line):
                        cur.ev.append(line)
                    elif line.startswith("{") or line.strip():
                        # The memory of the driver itself is corrupt.
                        cur.crash = "garbage"
                        ev = crash_event(cur, "garbage")
                        if ev is not None:
                            cur.ev.append(ev)
            if rc == 0 and cur is None and idx == len(scripts):
                break
            # The process died in script idx.
            if idx >= len(scripts):
                break
            if rc in (101, 2) and cur is None and "unknown configuration" in err:
                raise ToolError(err[-500:])
            crashes += 1
            if hangs is not None and rc in (-14, -27, -99, 4):
                hangs.append(idx)
            if cur is None:
                cur = Trace(None, scripts[idx], profile)
                traces.append(cur)
            if cur.crash is None:
                cur.crash = "rc=%s" % rc
                ev = crash_event(cur, "rc=%d" % rc)
                if ev is not None:
                    cur.ev.append(ev)
            at = idx + 1
    return traces


def run_scripts(bins, name, scripts, crash_event, profiles=("debug", "release"), jobs=8, args=(), timeout=120):
    out = []
    tasks = []
    n = max(1, min(200, (len(scripts) + jobs - 1) // jobs))
    for p in profiles:
        for i in range(0, len(scripts), n):
            tasks.append((bins[(name, p)], scripts[i:i + n], p))
    hangs = []
    with cf.ThreadPoolExecutor(jobs) as ex:
        for r in ex.map(lambda t: run_chunk(t[0], t[1], t[2], crash_event, args, timeout, 30, hangs), tasks):
            out.extend(r)
    return out


# ------------------------------------------------------------------ TLC

def tlc(module, cfg=None, env=None, workers=8, timeout=800, mem="6g", extra=(), cwd=SPEC, short=True):
    meta = tempfile.mkdtemp(prefix="tlc", dir=BUILD)
    jar = "/opt/veriftools/tla/tla2tools.jar"
    cp = ":".join([jar] + [os.path.join("/opt/veriftools/tla", f) for f in os.listdir("/opt/veriftools/tla")
                           if f.endswith(".jar") and f != "tla2tools.jar"])
    cmd = ["java", "-Xss64m", "-Xmx" + mem, "-XX:+UseParallelGC"] + (["-XX:TieredStopAtLevel=1"] if short else []) + ["-XX:ParallelGCThreads=%d" % workers, "-cp", cp, "tlc2.TLC", "-metadir", meta, "-workers", str(workers),
           "-noGenerateSpecTE", "-config", (cfg or module + ".cfg")] + list(extra) + [module + ".tla"]
    t = time.time()
    try:
        r = sh(cmd, env=env, cwd=cwd, timeout=timeout)
    finally:
        shutil.rmtree(meta, ignore_errors=True)
    out = r.stdout
    m = re.findall(r"(\d+) states generated, (\d+) distinct states found, (\d+) states left on queue", out.replace(",", ""))
    m = re.findall(r"([\d,]+) states generated,? ([\d,]+) distinct states found,? ([\d,]+) states left", out) or m
    st = tuple(int(x.replace(",", "")) for x in m[-1]) if m else (0, 0, -1)
    return dict(out=out, rc=r.returncode, generated=st[0], distinct=st[1], left=st[2], time=time.time() - t,
                err=r.stderr)


def split_bad(out):
    """All printed tuples starting with BAD; each may span lines."""
    res = []
    for m in re.finditer(r'<<\s*"BAD",\s*(\d+),\s*(\d+),\s*\{([^}]*)\}\s*>>', out):
        res.append((int(m.group(1)), int(m.group(2)), re.findall(r'"([^"]+)"', m.group(3))))
    return res


def check_traces(module, traces, timeout=800, keep=None, env=None, procs=4):
    """Check traces with TLC. Returns (list of (trace, event index, aspects), stats).

    Each trace is one behaviour of the trace specification. As the trace specification never
    disables a step (it judges each and continues from what was observed), the number of distinct
    states must be one per event and one per trace: a smaller number means TLC did not get through.
    """
    traces = [t for t in traces if t.head is not None]
    if not traces:
        return [], dict(states=0, transitions=0, traces=0, events=0, time=0)
    t0 = time.time()
    # What was recorded alike (in the other profile, mostly) needs to be judged only once.
    total = len(traces)
    same = {}
    for t in traces:
        same.setdefault((t.head, tuple(t.ev)), t)
    traces = list(same.values())
    del same
    nev = sum(len(t.ev) for t in traces)
    parts = max(1, min(procs, nev // 5000, len(traces)), -(-nev // 120000))
    chunks = [traces[i::parts] for i in range(parts)]
    d = tempfile.mkdtemp(prefix="tr", dir=BUILD)

    def one(i):
        """Judge one chunk. A trace that the specification cannot even evaluate is no behaviour of it:
        it is reported as such and left out (a few times, then that is enough)."""
        path = os.path.join(d, "traces%d.ndjson" % i)
        mine, bads, states, tries = chunks[i], {}, 0, 0
        while True:
            n = 0
            with open(path, "w") as f:
                for t in mine:
                    f.write(t.head)
                    f.write(',"ev":[')
                    f.write(",".join(t.ev))
                    f.write("]}\n")
                    n += len(t.ev)
            e = {"TRACES": path}
            e.update(env or {})
            r = tlc(module, env=e, workers=2 if parts > 3 else 8 // parts, timeout=timeout, mem="4g", short=nev < 150000)
            if keep:
                with open(keep, "a" if i else "w") as g, open(path) as f:
                    g.write(f.read())
            os.remove(path)
            for (t, l, a) in split_bad(r["out"]):
                bads[(id(mine[t - 1]), l)] = (mine[t - 1], l, a)
            if r["rc"] == 0 and r["left"] == 0:
                want = n + len(mine)
                if r["distinct"] != want:
                    raise ToolError("TLC on %s: %d distinct states, expected %d" % (module, r["distinct"], want))
                return list(bads.values()), states + r["distinct"]
            open(os.path.join(BUILD, "tlc.out"), "w").write(r["out"])
            at = r["out"].find("Error:")
            k = r["out"].find("The behavior up to this point is", at)
            tid = re.findall(r"(?m)^/\\ tid = (\d+)", r["out"][k:]) if k > 0 else []
            step = re.findall(r"(?m)^/\\ l = (\d+)", r["out"][k:]) if k > 0 else []
            if not tid or not step:
                raise ToolError("TLC on %s: rc=%s\n%s\n%s" % (module, r["rc"], r["out"][max(0, at):max(0, at) + 3000], r["err"][-500:]))
            t = mine[int(tid[-1]) - 1]
            l = min(int(step[-1]) + 1, len(t.ev))
            bads[(id(t), l)] = (t, l, ["unjudged"])
            mine = [y for y in mine if y is not t]
            tries += 1
            if tries >= 4 or not mine:
                return list(bads.values()), states + r["distinct"]

    try:
        with cf.ThreadPoolExecutor(procs) as ex:
            res = list(ex.map(one, range(parts)))
    finally:
        shutil.rmtree(d, ignore_errors=True)
    bad = [b for r in res for b in r[0]]
    return bad, dict(states=sum(r[1] for r in res), transitions=nev, traces=total, distinct=len(traces), events=nev,
                     time=time.time() - t0)


# ------------------------------------------------------------------ histories from the models

def model_scripts(module, consts, workers=4, timeout=600, mem="6g"):
    """Explore a model with TLC and return (lines printed for its transitions, stats).

    Any violated invariant of the model is an error of the machinery, not of the code under test.
    """
    cfg = tempfile.NamedTemporaryFile("w", suffix=".cfg", dir=BUILD, delete=False)
    with open(os.path.join(SPEC, module + ".cfg")) as f:
        text = f.read()
    for k, v in consts.items():
        text, n = re.subn(r"(?m)^(\s*%s\s*(?:=|<-)\s*).*$" % re.escape(k), lambda m: m.group(1) + v, text)
        if n != 1:
            raise ToolError("no constant %s in %s.cfg" % (k, module))
    cfg.write(text)
    cfg.close()
    try:
        r = tlc(module, cfg=cfg.name, workers=workers, timeout=timeout, mem=mem, short=not THOROUGH)
    finally:
        os.unlink(cfg.name)
    if r["rc"] != 0 or r["left"] != 0:
        out = "\n".join(l for l in r["out"].split("\n") if not l.startswith('"'))
        raise ToolError("model %s: rc=%s\n%s\n%s" % (module, r["rc"], out[-4000:], r["err"][-500:]))
    lines = [l[1:-1] for l in r["out"].split("\n") if l.startswith('"') and l.endswith('"')]
    return lines, dict(states=r["distinct"], transitions=r["generated"], time=r["time"])
