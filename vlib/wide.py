"""Scripts for contents of any size."""
import json, random

KINDS = ["vec", "sv4", "sv300", "sv70000", "str"]
# Where counts and sizes kept in too few bits, or special paths for large contents, would show.
SIZES = [1, 3, 4, 5, 255, 256, 257, 299, 300, 301, 511, 513, 1023, 1025, 4095, 4097, 65535, 65536, 65537, 69999, 70000, 70001, 140000]
FIELDS = ("i", "j", "n", "m")
SEQ_ONLY = {"drain", "into", "srem", "dedup"}


def crash_event(tr, why):
    if tr.head is None:
        return None
    ops = [l for l in tr.script.split("\n")[1:] if l.strip()] + ["end"]
    p = ops[min(len(tr.ev), len(ops) - 1)].split()
    f = dict(op=p[0], i=0, j=0, n=1, m=0)
    f.update((k, int(v)) for k, v in (x.split("=") for x in p[1:]))
    f.update(a=[], b=[], y1=[], y2=[], gone=[], twice=0, mem=0, blocks=0, num=[], len=0, cap=0, res="crash")
    return json.dumps(f)


def line(op, **kw):
    return " ".join([op] + ["%s=%d" % (k, v) for k, v in kw.items() if v])


class Gen:
    def __init__(self, rng, kind):
        self.r, self.kind = rng, kind
        self.text = kind == "str"
        self.nx, self.copies, self.big = 1, 0, 0
        self.out = []

    def size(self):
        r = self.r
        n = r.choice(SIZES) if r.random() < .7 else int(2 ** r.uniform(0, 17))
        return max(1, n)

    def pos(self):
        r = self.r
        x = r.random()
        return r.choice([0, 1, 254, 255, 256, 65535, 65536, 65537]) if x < .5 else r.randrange(1 << 18)

    def step(self):
        r = self.r
        ops = dict(ext=5, push=2, rw=2, trunc=2, clear=.4, split=2, append=3, swap=2, ins=2, rem=2, pop=2, retain=2,
                   clone=1.6, exts=1, shrink=.7, shrto=1.2, room=2, new=.6, cmp=2)
        if self.text:
            ops.update(insb=1.5, recode=2.5)
        else:
            ops.update(drain=5, into=1.2, srem=2, dedup=2, place=2)
        ops = self.ops or ops
        op = r.choices(list(ops), list(ops.values()))[0]
        if op in ("clone", "exts", "insb") and (self.copies >= 3 or self.nx > 1 << 21):
            return
        if op in ("ext", "push", "rw", "room"):
            n = self.size()
            if self.nx + n > 900000:
                return
            self.nx += n
            self.out.append(line(op, n=n, m=r.randrange(4) if op == "room" else 0))
        elif op in ("clone", "exts", "insb"):
            self.copies += 1
            if not self.text:
                self.nx *= 2
            self.out.append(line(op, i=self.pos() if op == "insb" else 0, n=r.randrange(5) if op != "insb" else 0))
            if op == "clone" and r.random() < .7:
                # Equal, or different in one place.
                x = r.choice(["", "rem", "ins"] if self.text else ["", "rem", "ins", "srem"])
                if x:
                    if r.random() < .5:
                        self.out.append("swap")
                    self.out.append(line(x, i=self.pos()))
                    self.nx += 1
                self.out.append("cmp")
        elif op == "new":
            self.out.append(line(op, n=self.size(), m=r.randrange(3)))
        elif op == "shrto":
            self.out.append(line(op, n=self.pos()))
        elif op == "trunc":
            self.out.append(line(op, n=self.pos()))
        elif op == "drain":
            self.out.append(line(op, i=self.pos(), j=self.pos(), n=r.choice([0, 0, 1, self.pos()]), m=r.choice([0, 0, 1, self.pos()])))
        elif op == "into":
            self.out.append(line(op, n=r.choice([0, 1, self.pos()]), m=r.choice([0, 1, self.pos()])))
        elif op == "pop":
            self.out.append(line(op, n=r.choice([1, 2, 300, 70000])))
        elif op == "retain":
            lo = r.randrange(self.nx + 1) if r.random() < .7 else 0
            self.out.append(line(op, i=lo, j=lo + self.size()))
        elif op == "dedup":
            self.out.append(line(op, n=max(1, self.nx // r.randint(2, 12))))
        elif op in ("place", "recode"):
            self.out.append(line(op, n=r.randrange(5 if op == "place" else 4)))
        else:
            self.out.append(line(op, i=self.pos(), n=r.randrange(3) if op == "split" else 0)
                            if op in ("split", "ins", "rem", "srem") else op)

    def run(self, prop):
        self.out.append(line("ext", n=self.r.choice(SIZES)))
        self.nx += 140000
        if prop == "C25":
            for i in range(2):
                self.ops = dict(clone=1)
                self.step()
                self.ops = dict(ext=3, push=1, append=1, room=1)
                self.step()
        self.ops = None
        for _ in range(self.r.randint(4, 14)):
            self.step()
        return self.out


def random_scripts(seed, count, kinds, prop=None):
    out = []
    for i in range(count):
        r = random.Random("wide-%s-%d" % (seed, i))
        k = kinds[i % len(kinds)]
        out.append("S w%d %s\n%s" % (i, k, "\n".join(Gen(r, k).run(prop))))
    return out


SV = ["sv4", "sv300", "sv70000"]
PLAN = {"C01": (["vec"], 250), "C02": (SV, 350), "C04": (["vec"] + SV, 200), "C05": (["vec"] + SV, 200),
        "C08": (["vec"] + SV + ["str"], 150), "C12": (["str"], 150), "C13": (["str"], 60), "C07": (["vec"] + SV + ["str"], 120), "C25": (["vec"] + SV + ["str"], 120)}


def props(tr, l, aspects):
    kind = tr.script.split()[2]
    ev = json.loads(tr.ev[l - 1])
    main = "C12" if kind == "str" else "C01" if kind == "vec" else "C02"
    res = {}
    for a in aspects:
        if a == "order":
            res.setdefault("C25", set()).add(a)
            res.setdefault(main, set()).add(a)
        elif a == "memory":
            res.setdefault("C08", set()).add(a)
        elif a == "capacity":
            res.setdefault("C07", set()).add(a)
            res.setdefault(main, set()).add(a)
        elif a in ("gone", "twice"):
            res.setdefault("C04", set()).add(a)
        elif a == "yield" and ev["op"] in ("drain", "into"):
            res.setdefault("C05", set()).add(a)
        else:
            res.setdefault(main, set()).add(a)
            if a == "crash" and main != "C12":
                res.setdefault("C04", set()).add(a)
            if ev["op"] in ("drain", "into"):
                res.setdefault("C05", set()).add(a)
            if ev["op"] == "recode":
                res.setdefault("C13", set()).add(a)
    return res


class Wide:
    name, driver, module, model = "wide", "wide", "TraceWide", "MCWide"
    crash_event = staticmethod(crash_event)
    props = staticmethod(props)
    profiles = ("debug", "release")
    once = True

    @staticmethod
    def covers(prop):
        return prop in PLAN

    @staticmethod
    def random(prop, seed, scale):
        kinds, n = PLAN[prop]
        return random_scripts(seed, int(n * scale), kinds, prop)

    @staticmethod
    def model_runs(prop, seed, thorough):
        return [dict(Depth="4" if thorough else "3")]

    @staticmethod
    def from_model(prop, lines, seed, scale):
        """Short histories of the model with every count multiplied."""
        kinds, n = PLAN[prop]
        rng = random.Random("widem-%s-%s" % (prop, seed))
        hist = [x.split("|", 1)[1].strip(";").split(";") for x in lines if x.startswith("SC|")]
        rng.shuffle(hist)
        out = []
        for h in hist:
            k = kinds[len(out) % len(kinds)]
            if k == "str" and any(x.split()[0] in SEQ_ONLY for x in h):
                continue
            by = rng.choice([1, 100, 128, 255, 256, 257, 22000, 32768, 65535, 65536])
            off = rng.choice([0, 0, 0, 1, 2])
            ops = []
            h = h + ["cmp"]
            for x in h:
                p = x.split()
                if p[0] in ("new", "room"):
                    ops.append("%s n=%d m=%d" % (p[0], int(p[3][2:]) * by, rng.randrange(3)))
                    continue
                ops.append(p[0] + "".join(" %s=%d" % (f, int(v) * by + (off if f in "ij" and int(v) else 0))
                                          for f, v in (q.split("=") for q in p[1:]) if int(v)))
            out.append("S m%d %s\n%s" % (len(out), k, "\n".join(ops)))
            if len(out) >= n * scale:
                break
        return out
