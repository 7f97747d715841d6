"""Scripts for the scopes driver."""
import json, random

SIZES = ["0", "1", "8", "16", "big", "al", "heap"]
RES = ["i", "w", "s", "u"]


def parse(line):
    p = line.split()
    return p[0], dict(x.split("=", 1) for x in p[1:])


def event_fields(line):
    op, kv = parse(line)
    return dict(op=op, k=int(kv.get("k", 0)), id=int(kv.get("id", 0)), i=kv.get("i", "n"), d=kv.get("d", "n"),
                c=int(kv.get("c", 0)), v=int(kv.get("v", 0)))


def crash_event(tr, why):
    if tr.head is None:
        return None
    lines = tr.script.split("\n")
    n = int(lines[0].split()[2])
    ops = [l for l in lines[1:] if l.strip()] + ["quit k=%d" % k for k in range(n)]
    f = event_fields(ops[min(len(tr.ev), len(ops) - 1)])
    f.update(res="crash", lg=[], num=[])
    return json.dumps(f)


def amid(r, caught):
    """In a destructor, while a panic unwinds the stack."""
    return " u=1" if caught and r.random() < .3 else ""


class Gen:
    def __init__(self, rng, focus):
        self.r, self.focus = rng, focus
        self.n = 1 if rng.random() < .4 else rng.choice([2, 3])
        self.st = [[] for _ in range(self.n)]     # per thread: (c, d)
        self.ids = 1
        self.out = []

    def unwind(self, k):
        s = self.st[k]
        while s:
            if s.pop()[0]:
                return

    def step(self):
        r = self.r
        k = r.randrange(self.n)
        s = self.st[k]
        deep = 6 if self.focus == "deep" else 4
        x = r.random()
        if (x < .4 and len(s) < deep or not s and x < .6):
            i = r.choices("npsxy", [6, 3, 3, 1, 1])[0]
            d = r.choices("npsx", [4, 3, 3, 1.5])[0]
            c = int(r.random() < .35)
            # Some identifiers that are not in use; scopes without size have their own by type.
            used = {f[2] for t in self.st for f in t}
            free = [j for j in range(1, 19) if j not in used]
            if not free:
                return
            id = r.choice(free)
            self.out.append("spawn k=%d id=%d z=%s i=%s d=%s c=%d r=%s%s"
                            % (k, id, r.choice(SIZES), i, d, c, r.choice(RES), amid(r, c)))
            if i in "xy":
                if not c:
                    self.unwind(k)
            else:
                s.append((c, d, id))
        elif x < .55:
            self.out.append("probe k=%d" % k)
        elif x < .62:
            self.out.append("bump k=%d" % k)
        elif x < .68:
            self.out.append("env k=%d id=%d v=%d" % (k, 19, r.randint(0, 1)))
        elif x < .9 and s:
            self.out.append("ret k=%d v=%d" % (k, r.randint(0, 90)))
            f = s.pop()
            if f[1] == "x" and not f[0]:
                self.unwind(k)
        elif s or r.random() < .2:
            self.out.append("panic k=%d v=%d" % (k, r.randint(0, 90)))
            self.unwind(k)

    def run(self):
        for _ in range(self.r.randint(6, 40)):
            self.step()
        if self.r.random() < .05:
            self.out.append("mk")
        return self.n, self.out


def random_scripts(seed, count, focus):
    out = []
    for i in range(count):
        n, ops = Gen(random.Random("scope-%s-%s-%d" % (focus, seed, i)), focus).run()
        out.append("S %s%d %d\n%s" % (focus, i, n, "\n".join(ops)))
    return out


PLAN = {"C11": dict(nest=800, deep=400, model=5000), "C10": dict(nest=150)}


def props(tr, l, aspects):
    res = {}
    for a in aspects:
        if a == "markers":
            res.setdefault("C10", set()).add(a)
        else:
            res.setdefault("C11", set()).add(a)
            if a == "served":
                res.setdefault("C10", set()).add(a)
    return res


class Scopes:
    name, driver, module, model = "scopes", "scopes", "TraceScope", "MCScope"
    crash_event = staticmethod(crash_event)
    props = staticmethod(props)
    profiles = ("debug", "release")

    @staticmethod
    def covers(prop):
        return prop in PLAN

    @staticmethod
    def random(prop, seed, scale):
        out = []
        for f, n in PLAN[prop].items():
            if f != "model":
                out += random_scripts(seed, max(1, int(n * scale)), f)
        if prop == "C10":
            out.append("S mk 1\nmk\nmk")
        return out

    @staticmethod
    def model_runs(prop, seed, thorough):
        if "model" not in PLAN[prop]:
            return []
        return [dict(Depth0="3" if thorough else "2", Depth1="1")]

    @staticmethod
    def from_model(prop, lines, seed, scale):
        rng = random.Random("scopem-%s-%s" % (prop, seed))
        hist = [x.split("|", 1)[1].strip(";").split(";") for x in lines if x.startswith("SC|")]
        rng.shuffle(hist)
        out = []
        for i, h in enumerate(hist[:int(PLAN[prop]["model"] * scale)]):
            ops = []
            for x in h:
                if x.startswith("spawn"):
                    x += " z=%s r=%s%s" % (rng.choice(SIZES), rng.choice(RES), amid(rng, "c=1" in x))
                ops.append(x)
            out.append("S m%d 2\n%s" % (i, "\n".join(ops)))
        return out
