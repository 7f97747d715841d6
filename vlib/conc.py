"""Scripts for the driver of Arc and Urc shared between threads."""
import json, random, re

MEM = {"early", "twice", "lost", "leak", "free", "uaf", "crash", "garbage"}
OWN = {"arc": "C16", "urc": "C20"}
EXC = {"arc": "C17", "urc": "C21"}
CNT = {"arc": "C17", "urc": "C22"}
ORD = {"arc": "C18", "urc": "C23"}
END = {"arc": "C19", "urc": "C23"}
EXOPS = {"getmut", "mm", "unwrap"}
HANDOVER = {"env", "open", "det", "unbox", "att"}


def crash_event(tr, why):
    if tr.head is None:
        return None
    if tr.ev:
        last = json.loads(tr.ev[-1])
        if last["op"] == "stuck":
            return None
    pre = json.loads(tr.head + "}")
    return json.dumps(dict(op="crash", t=0))


def props(tr, l, aspects):
    head = json.loads(tr.head + "}")
    fam = head["fam"]
    e = json.loads(tr.ev[l - 1])
    # The operation during which it happened.
    f = e.get("f")
    if f is None:
        for x in reversed(tr.ev[:l - 1]):
            x = json.loads(x)
            if x.get("t") == e.get("t") and x["op"] in ("call", "ret"):
                f = x["f"] if x["op"] == "call" else None
                break
    res = {}

    def put(p, a):
        res.setdefault(p, set()).add(a)

    for a in aspects:
        if a == "hb":
            put(ORD[fam], a)
        elif a == "stuck":
            put(END[fam], a)
        elif a in ("excl", "isolate", "unwrap"):
            put(EXC[fam], a)
        elif a in ("count", "group", "sole", "fence"):
            put(CNT[fam], a)
        else:
            put(OWN[fam], a)
            if f in EXOPS:
                put(EXC[fam], a)
            if fam == "urc" and f in HANDOVER:
                put("C22", a)
    # The schedule that showed it.
    lines = tr.script.split("\n")
    h = lines[0].split(" ")
    h[3] = "p:" + ",".join(map(str, head["pre"]))
    tr.script = "\n".join([" ".join(h)] + lines[1:])
    return res


class Gen:
    """Programs for a few threads. Tracks roughly which handles are where, so that most steps do something."""

    def __init__(self, rng, fam, focus):
        self.r, self.fam, self.focus = rng, fam, focus
        self.nh = 0
        self.ops = []

    def new(self):
        self.nh += 1
        return self.nh

    def emit(self, t, op, h=0, n=0, to=None):
        s = "%s %s" % (t, op)
        if h:
            s += " h=%d" % h
        if n:
            s += " n=%d" % n
        if to is not None:
            s += " t=%d" % to
        self.ops.append(s)

    def setup(self):
        r = self.r
        threads = 2 if r.random() < (.8 if self.focus != "wide" else .3) else 3
        hold = {t: [] for t in range(1, threads + 1)}     # (handle, kind)
        objs = 1 if r.random() < .85 else 2
        for _ in range(objs):
            a = self.new()
            self.emit("m", "new", n=a)
            if self.fam == "arc":
                mine = [(a, "s")]
                for _ in range(r.choices([0, 1, 2, 3], [2, 4, 3, 1])[0]):
                    k = r.choices(["clone", "down", "env"], [4, 4, 1])[0]
                    n = self.new()
                    self.emit("m", k, h=a, n=n)
                    mine.append((n, {"clone": "s", "down": "w", "env": "e"}[k]))
                r.shuffle(mine)
                for h, k in mine:
                    t = r.randint(1, threads)
                    self.emit("m", "give", h=h, to=t)
                    hold[t].append((h, k))
            else:
                home = r.randint(1, threads)
                mine = [(a, "s")]
                for _ in range(r.choices([0, 1, 2], [4, 3, 2])[0]):
                    k = r.choices(["clone", "down"], [2, 4])[0]
                    n = self.new()
                    self.emit("m", k, h=a, n=n)
                    mine.append((n, "s" if k == "clone" else "w"))
                for h, k in mine:
                    hold[home].append((h, k))
                for _ in range(r.choices([0, 1, 2], [1, 4, 2])[0]):
                    n = self.new()
                    self.emit("m", "env", h=a, n=n)
                    t = r.randint(1, threads)
                    self.emit("m", "give", h=n, to=t)
                    hold[t].append((n, "e"))
                # The handles of one group stay together.
                drops = [x for x in mine if r.random() < .15]
                for h, k in mine:
                    if (h, k) in drops:
                        self.emit("m", "drop", h=h)
                        hold[home].remove((h, k))
                    else:
                        self.emit("m", "give", h=h, to=home)
        return threads, hold

    def program(self, t, hold, threads):
        r = self.r
        mine = list(hold[t])
        for _ in range(r.choices([0, 1, 2, 3, 4], [1, 3, 4, 3, 1])[0]):
            if not mine or r.random() < .06:
                self.emit(t, "recv")
                continue
            h, k = r.choice(mine)
            f = self.focus
            if self.fam == "arc":
                if k == "s":
                    w = dict(read=3, clone=2, down=3, getmut=3, mm=3, unwrap=3, drop=4, sc=1, wc=1, env=.5, send=.5)
                    if f == "excl":
                        w.update(getmut=6, mm=6, unwrap=6, drop=6)
                    if f == "count":
                        w.update(sc=6, wc=6)
                elif k == "w":
                    w = dict(drop=4, send=1)
                elif k == "e":
                    w = dict(open=4, drop=1, send=1)
                else:
                    w = dict(drop=1)
            else:
                if k == "s":
                    w = dict(read=3, clone=2, down=2.5, env=2, getmut=3, mm=3, unwrap=3, drop=4, sole=1, fsc=.5, fwc=.5, det=1.5)
                    if f == "excl":
                        w.update(getmut=6, mm=6, unwrap=6, drop=6)
                    if f == "count":
                        w.update(sole=6, fsc=3, fwc=3, det=4, env=4)
                elif k == "w":
                    w = dict(drop=1)
                elif k == "e":
                    w = dict(open=5, drop=1, send=1)
                elif k == "f":
                    w = dict(unbox=4, drop=1, fsc=.5, fwc=.5)
                elif k == "v":
                    w = dict(att=4, drop=1, send=2, fsc=.5)
                else:
                    w = dict(drop=1)
            op = r.choices(list(w), list(w.values()))[0]
            if op in ("clone", "down", "env"):
                n = self.new()
                self.emit(t, op, h=h, n=n)
                mine.append((n, {"clone": "s", "down": "w", "env": "e"}[op]))
            elif op == "send":
                self.emit(t, "send", h=h, to=r.choice([x for x in range(1, threads + 1) if x != t]))
                mine.remove((h, k))
            else:
                self.emit(t, op, h=h)
                if op == "drop":
                    mine.remove((h, k))
                nk = {"open": "s", "det": "f", "unbox": "v", "att": "s", "unwrap": "V"}.get(op)
                if nk:
                    mine[mine.index((h, k))] = (h, nk)

    def run(self):
        threads, hold = self.setup()
        for t in range(1, threads + 1):
            self.program(t, hold, threads)
        return threads, self.ops


def random_scripts(seed, count, fam, focus, runs):
    out = []
    for i in range(count):
        rng = random.Random("conc-%s-%s-%s-%d" % (fam, focus, seed, i))
        n, ops = Gen(rng, fam, focus).run()
        out.append("S %s %d d:2:%d:%d\n%s" % (fam, n, runs, rng.randint(1, 10 ** 6), "\n".join(ops)))
    return out


# per property: family, focus -> (random programs, schedules of each), small programs run under all schedules,
# operations of which one should be there
EX = {"getmut", "mm", "unwrap"}
PLAN = {
    "C16": ("arc", {"any": (250, 8), "wide": (150, 8)}, 500, None),
    "C17": ("arc", {"excl": (250, 8), "count": (150, 8)}, 500, EX | {"sc", "wc"}),
    "C18": ("arc", {"any": (200, 8), "excl": (200, 8)}, 500, None),
    "C19": ("arc", {"any": (200, 8), "excl": (200, 8)}, 500, EX | {"down"}),
    "C20": ("urc", {"any": (250, 8), "wide": (100, 8)}, 500, None),
    "C21": ("urc", {"excl": (250, 8), "any": (100, 8)}, 500, EX),
    "C22": ("urc", {"count": (350, 8)}, 500, {"sole", "fsc", "fwc", "det", "env", "unbox", "att", "send"}),
    "C23": ("urc", {"any": (200, 8), "excl": (200, 8)}, 500, None),
}


class Conc:
    name, driver, module, model = "conc", "conc", "TraceConc", None
    hooked = True
    crash_event = staticmethod(crash_event)
    props = staticmethod(props)
    profiles = ("debug", "release")

    @staticmethod
    def covers(prop):
        return prop in PLAN

    @staticmethod
    def random(prop, seed, scale):
        fam, plan, _, _ = PLAN[prop]
        out = []
        for f, (n, k) in plan.items():
            out += random_scripts(seed, max(1, int(n * scale)), fam, f, k)
        return out

    @staticmethod
    def model_runs(prop, seed, thorough):
        fam = '"%s"' % PLAN[prop][0]
        return [dict(_module="MCProg", Fam=fam, PerThread="3" if thorough else "2", Total="4" if thorough else "3"),
                # The protocol itself, under every interleaving.
                dict(_module="MCConc", Fam=fam, PerThread="3" if thorough else "2",
                     Total="4" if thorough else "3" if PLAN[prop][0] == "urc" else "2")]

    @staticmethod
    def from_model(prop, lines, seed, scale):
        fam, _, n, need = PLAN[prop]
        rng = random.Random("concm-%s-%s" % (prop, seed))
        progs = []
        for x in lines:
            if not x.startswith("SC|"):
                continue
            _, k, text = x.split("|", 2)
            # What the threads do, without what was prepared for them.
            ops = [y.split(" ")[1] for y in text.split(";") if y and y[0] != "m"]
            if need is None or need & set(ops):
                progs.append((k, text))
        rng.shuffle(progs)
        return ["S %s %s d:2:400:%d\n%s" % (fam, k, i, "\n".join(text.strip(";").split(";")))
                for i, (k, text) in enumerate(progs[:int(n * scale)])]
