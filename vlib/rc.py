"""Scripts for the rc driver (Rc, Arc, Urc in one thread, Box)."""
import json, random

TYPES = ["t8", "t8", "t64", "big", "zst", "pod"]
NSLOT = 6


def event_fields(line):
    p = line.split()
    kv = dict(x.split("=", 1) for x in p[1:])
    return dict(op=p[0], t=list(kv.get("t", "")), **{k: int(kv.get(k, 0)) for k in ("a", "b", "m", "v", "n", "pk")})


def crash_event(tr, why):
    """The event of the step during which the process died."""
    ops = [l for l in tr.script.split("\n")[1:] if l.strip()] + ["end"]
    if tr.head is None:
        return None
    f = event_fields(ops[min(len(tr.ev), len(ops) - 1)])
    f.update(res="crash", inj=0, af=0, num=[], an=["crash"], dr=[], cr=[], lg=[], zd=0, zc=0, rq=[], sl=[])
    return json.dumps(f)


# What random histories are made of: operation -> weight, per focus.
BASE = dict(new=8, val=2, wrap=2, clone=10, down=7, up=6, wclone=2, wnull=1, drop=14, give=5, take=3, getmut=5,
            unwrap=4, makemut=5, ptreq=2, cmp=1, env=4, recv=4, fence=3, unfence=3, box=2, unbox=2, frombox=2,
            wrapbox=1, twrap=1, pwrap=1, enter=1, leave=1, gmu=1, uninit=1, view=1)
BASE["def"] = 1
COUNTS = [0, 1, 2, 7, 100, 126, 127, 128, 254, 255, 256, 257, 300, 32767, 65534, 65535, 65536, 70000]
FOCUS = {
    "life": {},
    "excl": dict(getmut=14, unwrap=10, makemut=14, give=2),
    "own": dict(give=14, take=6, down=10, drop=16),
    "env": dict(env=14, recv=10, fence=12, unfence=10, down=8),
    "box": dict(box=20, unbox=10, frombox=10, wrapbox=8, drop=10, give=6, cmp=5),
    "cmp": dict(cmp=25, new=12, box=6),
    "many": dict(many=25),
    "view": dict(view=40, gmu=6, uninit=8, boxit=4, boxhash=1, getmut=6, new=10, box=8, **{"def": 8}),
    "oom": dict(uninit=4, **{"def": 4}, new=12, wrap=8, val=8, makemut=12, env=8, unfence=8, fence=8, box=6, frombox=6, wrapbox=4, twrap=6, pwrap=4),
    "route": dict(enter=6, leave=4, new=12, box=8, makemut=8),
}


class Gen:
    """A random history. Tracks slots well enough that most operations apply."""

    def __init__(self, rng, fam, focus):
        self.r, self.fam, self.focus = rng, fam, focus
        self.w = dict(BASE)
        self.w.update(FOCUS[focus])
        self.k = ["-"] * NSLOT
        self.kids = 0
        self.depth = 0
        self.out = []

    def pick(self, kinds):
        c = [i for i in range(NSLOT) if self.k[i] in kinds]
        return self.r.choice(c) if c else None

    def free(self):
        return self.pick("-")

    def step(self):
        r, fam = self.r, self.fam
        op = r.choices(list(self.w), list(self.w.values()))[0]
        val = r.choice([1, 2, 2, 3, 5])
        a = b = None
        extra = ""
        if op in ("new", "val", "box", "wnull", "def", "uninit"):
            a = self.free()
            if a is None or (op == "wnull" and fam != "r") or (op in ("def", "uninit") and fam == "r"):
                return
            self.k[a] = dict(new="S", val="V", box="B", wnull="W", uninit="V", **{"def": "S"})[op]
            extra = " v=%d" % val if op != "wnull" else " m=%d" % r.randrange(2)
            if op in ("box", "uninit"):
                extra += " m=%d" % r.randrange(3 if op == "box" else 2)
            if op == "box":
                extra += r.choice(["", "", " s=p", " s=c"])
        elif op == "view":
            a = self.pick("SSBW" if fam == "r" else "SSB")
            if a is None:
                return
        elif op == "many":
            m = r.choice([0, 0, 1, 1, 2, 3, 4])
            a = self.pick("W" if m == 3 else "S")
            if a is None or (m == 3 and fam != "r") or (m == 4 and fam == "r"):
                return
            extra = " m=%d n=%d" % (m, r.choice([n for n in COUNTS if n <= 300]) if m == 4 or r.random() < 0.7 else r.choice(COUNTS))
        elif op == "gmu":
            a = self.pick("S")
            if a is None or fam == "r":
                return
            extra = " v=%d" % r.choice([4, 6, 7, 8])
        elif op in ("boxit", "boxhash"):
            self.out.append("%s n=%d t=%s" % (op, r.randrange(6), "".join(r.choice("nnbbNBlh") for _ in range(r.randrange(1, 9)))))
            return
        elif op in ("wrap", "twrap", "pwrap", "wrapbox"):
            a = self.pick("V")
            if a is None or (fam == "r" and op in ("twrap", "pwrap")):
                return
            self.k[a] = "B" if op == "wrapbox" else "S"
            if op == "wrap" and r.random() < 0.3:
                extra = " m=1"
        elif op in ("clone", "down", "env"):
            a, b = self.pick("S"), self.free()
            if a is None or b is None or (op == "env" and fam == "r"):
                return
            self.k[b] = dict(clone="S", down="W", env="E")[op]
        elif op in ("up", "wclone"):
            a, b = self.pick("W"), self.free()
            if a is None or b is None or fam != "r":
                return
            self.k[b] = "S" if op == "up" else "W"   # may be none
        elif op == "drop":
            a = self.pick("SWFEBV")
            if a is None:
                return
            self.k[a] = "-"
        elif op == "give":
            a, b = self.pick("SSBV"), self.pick("SWW")
            if a is None or b is None or a == b:
                return
            self.k[b] = "-"
            self.kids += 1
        elif op == "take":
            a, b = self.pick("SSBV"), self.free()
            if a is None or b is None:
                return
            if self.kids:
                self.kids -= 1
                self.k[b] = r.choice("SW")
        elif op in ("getmut", "makemut", "unwrap", "fence"):
            a = self.pick("S" if op != "getmut" else "SSSBV")
            if a is None or (op == "fence" and fam != "u"):
                return
            extra = " v=%d" % r.choice([4, 6, 7, 8]) if op in ("getmut", "makemut") else ""
            if op == "getmut":
                extra += " m=%d" % r.randrange(3)
            if op == "makemut" and self.r.random() < 0.15:
                extra += " pk=1"
            if op == "unwrap" and r.random() < 0.5:
                self.k[a] = "V"
            if op == "fence" and r.random() < 0.6:
                self.k[a] = "F"
        elif op == "unfence":
            a = self.pick("F")
            if a is None:
                return
            self.k[a] = "S"
        elif op == "recv":
            a = self.pick("E")
            if a is None:
                return
            self.k[a] = "S"
        elif op in ("unbox", "frombox"):
            a = self.pick("B")
            if a is None or (op == "frombox" and fam != "r"):
                return
            self.k[a] = "V" if op == "unbox" else "S"
        elif op in ("ptreq", "cmp"):
            kinds = r.choice(["S", "S", "S", "W" if op == "ptreq" else "B"])
            a, b = self.pick(kinds), self.pick(kinds)
            if a is None or b is None:
                return
        elif op == "enter":
            if self.depth >= 3:
                return
            self.depth += 1
            self.out.append("enter")
            return
        elif op == "leave":
            if self.depth == 0:
                return
            self.depth -= 1
            self.out.append("leave")
            return
        if self.focus == "oom" and op in ("new", "def", "uninit", "box", "wrap", "twrap", "pwrap", "wrapbox", "makemut", "env",
                                          "unfence", "frombox") and r.random() < 0.4:
            extra += " fk=%d" % r.choice([1, 1, 2])
            if r.random() < 0.3:
                extra += " fa=1"
        self.out.append(op + " a=%d" % a + (" b=%d" % b if b is not None else "") + extra)


def random_scripts(seed, n, focus, fams):
    rng = random.Random("rc-%s-%s-%s" % (seed, focus, fams))
    out = []
    for i in range(n):
        fam = fams[i % len(fams)]
        g = Gen(rng, fam, focus)
        ln = rng.choice([6, 10, 16, 24, 40])
        while len(g.out) < ln:
            g.step()
        g.out += ["leave"] * g.depth
        out.append("S r%s%d %s %s\n%s" % (focus, i, fam, rng.choice(TYPES), "\n".join(g.out)))
    return out


# property -> families, focus -> number of random histories; "model": histories taken from MCRc
PLAN = {
    "C14": ("r", dict(many=60, life=500, own=500, oom=120, model=2500)),
    "C15": ("r", dict(many=60, excl=700, box=100, oom=80, model=2500)),
    "C16": ("a", dict(many=60, life=400, own=300, oom=150, model=2000)),
    "C17": ("a", dict(many=60, excl=600, oom=80, model=2000)),
    "C20": ("u", dict(many=60, life=400, own=400, env=200, oom=250, model=2000)),
    "C21": ("u", dict(many=60, excl=600, env=150, oom=100, model=2000)),
    "C22": ("u", dict(many=60, env=600, life=200, oom=120, model=2000)),
    "C24": ("rau", dict(box=700, oom=100, model=1200)),
    "C25": ("rau", dict(cmp=300)),
    "C08": ("rau", dict(life=150, route=100, oom=100, box=100, model=600)),
    "C09": ("rau", dict(oom=500)),
    "C10": ("rau", dict(route=300)),
    "C26": ("rau", dict(view=600, model=1500)),
}

DROPS = {"drop", "seen", "double_drop", "dead_read", "garbage"}
MEMORY = {"double_free", "foreign_free", "wrong_allocator", "wrong_layout", "out_of_bounds", "zero_size",
          "write_after_free", "bad_storage", "misaligned", "bad_release", "zero_request", "kept", "gone", "place"}
EXCL = {"getmut", "unwrap", "makemut"}
BOXING = {"box", "unbox", "frombox", "wrapbox"}
HANDOVER = {"env", "recv", "fence", "unfence"}


def props(tr, l, aspects):
    """Which properties do the failed aspects of event l of a trace break?"""
    e = json.loads(tr.ev[l - 1])
    fam = json.loads(tr.head + "}")["fam"]
    before = {x["i"]: x["k"] for x in json.loads(tr.ev[l - 2])["sl"]} if l > 1 else {}
    L = {"r": "C14", "a": "C16", "u": "C20"}[fam]
    X = {"r": "C15", "a": "C17", "u": "C21"}[fam]
    op, af = e["op"], e["af"] > 0
    kinds = set(before.values()) if op == "end" else {before.get(e["a"], "-")}
    box = op in BOXING or "B" in kinds
    hand = fam == "u" and (op in HANDOVER or kinds & {"F", "E"})
    excl = op in EXCL and not (op == "getmut" and "S" not in kinds)
    res = {}

    def put(p, a):
        res.setdefault(p, set()).add(a)

    for a in aspects:
        if a == "route":
            put("C10", a)
            continue
        if op in ("view", "uninit", "boxit", "boxhash", "def", "gmu") or a == "view":
            put("C26", a)
        if a in ("cmp",):
            put("C25", a)
            continue
        if a == "sole":
            put("C22", a)
            continue
        if a == "alone":
            put(X, a)
            continue
        if a == "cnt":
            put({"r": "C14", "a": "C17", "u": "C22"}[fam], a)
            if excl:
                put(X, a)
            continue
        if a in MEMORY or a == "crash":
            put("C08", a)
        if af:
            put("C09", a)
        if box:
            put("C24", a)
        if hand:
            put("C22", a)
        if excl:
            put(X, a)
        if a in DROPS or a in MEMORY or a in ("crash", "hang", "inconsistent"):
            put(L, a)
        elif not (box or hand or excl or af):
            put(L, a)
    return res


class Rc:
    name, driver, module, model = "rc", "rc", "TraceRc", "MCRc"
    crash_event = staticmethod(crash_event)
    props = staticmethod(props)
    profiles = ("debug", "release")

    @staticmethod
    def covers(prop):
        return prop in PLAN

    @staticmethod
    def random(prop, seed, scale):
        fams, plan = PLAN[prop]
        out = []
        for f, n in plan.items():
            if f != "model":
                out += random_scripts(seed, max(1, int(n * scale)), f, fams)
        return out

    @staticmethod
    def model_runs(prop, seed, thorough):
        fams, plan = PLAN[prop]
        if "model" not in plan:
            return []
        extra = ['{}', '{"val", "box"}', '{"val", "wnull"}' if fams == "r" else '{"val"}']
        if prop == "C24":
            extra = ['{"box"}', '{"val", "box"}', '{"box"}']
        if prop == "C26":
            extra = ['{"view", "box"}', '{"view", "wnull"}' if seed % 3 == 1 else '{"view"}', '{"view"}']
            fams = fams if thorough else fams[(seed + 2) % 3]
            if "wnull" in extra[seed % 3]:
                fams = "r"
        fs = "{%s}" % ", ".join('"%s"' % f for f in (fams if thorough or len(fams) == 1 else fams[seed % len(fams)]))
        depth = {True: (9 if len(fams) == 1 else 8), False: 7}[thorough]
        if prop == "C26" and thorough:
            return [dict(Fams='{"%s"}' % f, Depth="6", Extra=x, NS="3") for f, x in
                    (("r", '{"view", "wnull"}'), ("r", '{"view", "box"}'), ("a", '{"view", "box"}'), ("u", '{"view"}'))]
        if not thorough and (extra[seed % 3] != '{}' or fams == 'u'):
            depth = 6
        runs = [dict(Fams=fs, Depth=str(depth), Extra=extra[seed % 3], NS="3")]
        if thorough:
            runs = [dict(Fams=fs, Depth=str(depth), Extra="{}", NS="3"),
                    dict(Fams=fs, Depth=str(depth - 1), Extra=extra[1], NS="3"),
                    dict(Fams=fs, Depth=str(depth - 1), Extra=extra[2], NS="4")]
        return runs

    @staticmethod
    def from_model(prop, lines, seed, scale):
        rng = random.Random("rcm-%s-%s" % (prop, seed))
        n = int(PLAN[prop][1].get("model", 0) * scale)
        lines = [x for x in lines if x.startswith("SC|")]
        if prop == "C26":
            lines = [x for x in lines if x.rsplit(";", 1)[1].split()[0] in ("view", "def", "uninit", "gmu", "getmut", "makemut")]
        rng.shuffle(lines)
        out = []
        for i, x in enumerate(lines[:n]):
            _, fam, h = x.split("|", 2)
            ops = [o + rng.choice(["", " s=p", " s=c"]) if o.startswith("box ") else o for o in h.strip(";").split(";")]
            out.append("S m%d %s %s\n%s" % (i, fam, rng.choice(TYPES), "\n".join(ops)))
        return out
