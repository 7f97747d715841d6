"""Scripts for the text driver (String)."""
import json, random

NSLOT = 4
POOL = [97, 98, 99, 65, 90, 0x7A, 32, 0, 127, 128, 0xE9, 0x3A9, 0x7FF, 0x800, 0x20AC, 0xD7FF, 0xE000, 0xFFFD, 0xFFFF,
        0x10000, 0x1D11E, 0x1F600, 0xFFFFF, 0x10FFFF]
# characters that software likes to treat specially
ODD = [9, 10, 13, 0x1B, 0x22, 0x27, 0x5C, 0x85, 0xA0, 0xAD, 0xDF, 0x130, 0x131, 0x300, 0x200B, 0x200D, 0x202E, 0x2028, 0xFE0F,
       0xFEFF, 0xFFF9, 0xFFFE, 0xFB01, 0x3000, 0xD55C, 0x1FFFE, 0xE0001, 0xF0000]
LEADS = [0, 0x41, 0x7F, 0x80, 0x8F, 0x90, 0x9F, 0xA0, 0xBF, 0xC0, 0xC1, 0xC2, 0xDF, 0xE0, 0xE1, 0xEC, 0xED, 0xEE, 0xEF,
         0xF0, 0xF1, 0xF3, 0xF4, 0xF5, 0xF7, 0xF8, 0xFC, 0xFE, 0xFF]
BADSEQ = [[0xC0, 0x80], [0xC1, 0xBF], [0xE0, 0x80, 0x80], [0xE0, 0x9F, 0xBF], [0xED, 0xA0, 0x80], [0xED, 0xBF, 0xBF],
          [0xF0, 0x80, 0x80, 0x80], [0xF0, 0x8F, 0xBF, 0xBF], [0xF4, 0x90, 0x80, 0x80], [0xF5, 0x80, 0x80, 0x80],
          [0xEF, 0xBB, 0xBF], [0x80], [0xBF, 0x80], [0xC2], [0xE2, 0x82], [0xF0, 0x9D, 0x84], [0xF8, 0x88, 0x80, 0x80, 0x80], [0xFF]]
UNITS = [0, 0x41, 0x7F, 0xE9, 0x7FF, 0x800, 0xD7FF, 0xD800, 0xD834, 0xDBFF, 0xDC00, 0xDD1E, 0xDFFF, 0xE000, 0xFFFF,
         0xFEFF, 0xFFFE, 10, 0xD83D, 0xDE00]


def num(s):
    v = (1 << 64) - 1 - int(s[1:]) if s.startswith("H") else int(s)
    return 2000000000 if v > 1 << 30 else v


def parse(line):
    p = line.split()
    return p[0], dict(x.split("=", 1) for x in p[1:])


def nums(s):
    return [] if s in ("", "-") else [int(x) for x in s.split(",")]


def event_fields(line):
    op, kv = parse(line)
    f = dict(op=op, **{k: num(kv.get(k, "0")) for k in ("a", "b", "n", "m", "c", "pk")})
    f["s"] = kv.get("s", "")
    f["t"], f["u"] = nums(kv.get("t", "-")), nums(kv.get("u", "-"))
    f["x"] = [nums(y) for y in kv["x"].split("/")] if kv.get("x") else []
    return f


def crash_event(tr, why):
    ops = [l for l in tr.script.split("\n")[1:] if l.strip()] + ["end"]
    if tr.head is None:
        return None
    f = event_fields(ops[min(len(tr.ev), len(ops) - 1)])
    f.update(res="crash", inj=0, af=0, why=0, txt=[], num=[], an=["crash"], dr=[], cr=[], lg=[], zd=0, zc=0, rq=[], sl=[])
    return json.dumps(f)


def enc16(t):
    out = []
    for c in t:
        if c < 0x10000:
            out.append(c)
        else:
            out += [0xD800 + (c - 0x10000 >> 10), 0xDC00 + (c - 0x10000 & 0x3FF)]
    return out


def enc8(t):
    return list("".join(map(chr, t)).encode("utf8"))


BASE = dict(ctor=4, lit=7, utf8=2, utf8u=1, utf16=2, push=10, pop=7, pushs=8, clear=1, remove=8, ins=10, inss=8, trunc=6,
            splitoff=6, retain=5, clone=4, ext=8, idx=8, idxm=5, cmp=3, reserve=2, reservex=1, treserve=2, treservex=1,
            shrink=2, shrinkf=2, drop=4, enter=1, leave=1)
FOCUS = {
    "edit": {},
    "long": dict(utf8=6, utf16=6),
    "decode": dict(utf8=50, utf16=40, lit=14, ext=14, drop=24, clear=2),
    "build": dict(lit=30, ext=30, pushs=14, clone=8, drop=20),
    "cap": dict(ctor=14, reserve=14, reservex=10, treserve=14, treservex=10, shrink=12, shrinkf=8, drop=10),
    "oom": dict(ctor=14, lit=10, reserve=8, reservex=6, treserve=8, treservex=8, shrink=8, shrinkf=6, drop=10, clone=8),
    "inj": dict(retain=30, ext=20, lit=15, drop=10),
    "route": dict(ctor=16, enter=6, leave=4, ext=14, shrink=6, shrinkf=6, drop=8),
    "cmp": dict(cmp=40, lit=16, clone=10, drop=8, shrinkf=5, reserve=5),
    "look": dict(idx=40, idxm=25, lit=16, pushs=12, shrinkf=4, drop=6),
}


class Gen:
    """A random history. Follows the texts so that positions are meaningful."""

    def __init__(self, rng, focus):
        self.r, self.focus = rng, focus
        self.w = dict(BASE)
        self.w.update(FOCUS[focus])
        self.s = [None] * NSLOT
        self.depth = 0
        self.out = []

    def ch(self):
        r = self.r
        x = r.random()
        if x < .12:
            return r.choice(ODD)
        if x < .2:
            c = r.choice([r.randrange(0x800), r.randrange(0x10000), r.randrange(0x110000)])
            return c if not 0xD800 <= c < 0xE000 else 0xFEFF
        return r.choice(POOL[:6]) if x < .45 else r.choice(POOL)

    def tx(self, most=4):
        if self.focus == "long" and self.r.random() < .3:
            n = self.r.choice([63, 64, 65, 127, 128, 129, 200, 255, 256, 257, 300])
            return [self.r.choice(POOL[:4]) if i < n - 3 else self.ch() for i in range(n)] if self.r.random() < .7 else [self.ch() for _ in range(n // 3)]
        if self.r.random() < .05:
            most = 40
        return [self.ch() for _ in range(self.r.randint(0, most))]

    def txs(self):
        return [self.tx(3) for _ in range(self.r.randint(0, 3))]

    @staticmethod
    def l(t):
        return ",".join(map(str, t)) if t else "-"

    def pos(self, i):
        r = self.r
        t = self.s[i]
        cuts = [0]
        for c in t:
            cuts.append(cuts[-1] + len(chr(c).encode("utf8")))
        x = r.random()
        if x < .7:
            return str(r.choice(cuts))
        if x < .9:
            return str(r.randint(0, cuts[-1] + 1))
        return r.choice(["H0", "H1", str(cuts[-1] + 1), str(cuts[-1])])

    def at(self, i, n):
        """Number of characters before byte n, or None."""
        n = num(n)
        k = 0
        for j, c in enumerate(self.s[i]):
            if k == n:
                return j
            k += len(chr(c).encode("utf8"))
        return len(self.s[i]) if k == n else None

    def bad8(self):
        r = self.r
        u = enc8(self.tx(3))
        for _ in range(r.choice([0, 1, 1, 1, 2])):
            x = r.random()
            if x < .3:
                p = r.randint(0, len(u))
                u[p:p] = r.choice(BADSEQ)
            elif x < .5 and u:
                u[r.randrange(len(u))] = r.choice(LEADS)
            elif x < .65 and u:
                del u[r.randrange(len(u))]
            elif x < .8 and u:
                del u[r.randrange(len(u)):]
            elif x < .9:
                u.insert(r.randint(0, len(u)), r.choice(LEADS))
            else:
                u = [r.choice(LEADS) for _ in range(r.randint(1, 5))]
        return u

    def bad16(self):
        r = self.r
        u = enc16(self.tx(3))
        for _ in range(r.choice([0, 1, 1, 2])):
            x = r.random()
            if x < .4:
                u.insert(r.randint(0, len(u)), r.choice(UNITS))
            elif x < .6 and u:
                del u[r.randrange(len(u))]
            elif x < .8 and len(u) > 1:
                p = r.randrange(len(u) - 1)
                u[p], u[p + 1] = u[p + 1], u[p]
            else:
                u = [r.choice(UNITS) for _ in range(r.randint(1, 4))]
        return u

    def step(self):
        r, s = self.r, self.s
        op = r.choices(list(self.w), list(self.w.values()))[0]
        free = [i for i in range(NSLOT) if s[i] is None]
        used = [i for i in range(NSLOT) if s[i] is not None]
        tail = ""
        if self.focus == "oom" and r.random() < .45:
            tail = " fk=%d" % r.choice([1, 1, 1, 2, 3])
            if r.random() < .3:
                tail += " fa=1"
        if self.focus == "inj" and op in ("retain", "ext", "lit") and r.random() < .7:
            tail = " pk=%d" % r.randint(1, 5)
        if tail:
            after = None
        making = op in ("ctor", "lit", "utf8", "utf8u", "utf16")
        if op in ("enter", "leave"):
            if op == "enter" and self.depth < 3:
                self.depth += 1
                return self.out.append("enter")
            if op == "leave" and self.depth:
                self.depth -= 1
                return self.out.append("leave")
            return
        if making:
            if not free:
                return
            a = r.choice(free)
        else:
            if not used:
                return
            a = r.choice(used)
        new, line = None, ""
        if op == "ctor":
            k = r.choice(["new", "def", "cap", "mark", "capm", "tcap", "tcapm"])
            n = r.choice(["0", "1", "3", "8", "17"])
            if r.random() < (.15 if self.focus == "cap" else .03):
                n = r.choice(["H0", "H7", "9223372036854775808", "9223372036854775807"])
            line = "ctor a=%d s=%s n=%s m=%d" % (a, k, n, r.randint(0, 2))
            new = None if num(n) >= 2e9 and "cap" in k else []
            if new is None:
                self.out.append(line + tail)
                return
        elif op == "lit":
            k = r.choice(["from", "char", "parse", "copy", "iterc", "iterrc", "iters", "iterS", "iterc0", "iterS0"])
            if k == "copy":
                if not used:
                    return
                b = r.choice(used)
                new = list(s[b])
                line = "lit a=%d s=copy b=%d" % (a, b)
            elif k == "char":
                c = self.ch()
                new = [c]
                line = "lit a=%d s=char c=%d" % (a, c)
            elif k.rstrip("0") in ("iters", "iterS"):
                x = self.txs()
                new = sum(x, [])
                line = "lit a=%d s=%s" % (a, k) + (" x=" + "/".join(map(self.l, x)) if x else "")
            else:
                new = self.tx(6)
                line = "lit a=%d s=%s t=%s" % (a, k, self.l(new))
        elif op == "utf8":
            u = self.bad8()
            line = "utf8 a=%d m=%d u=%s" % (a, r.choice([0, 0, 1, 2]), self.l(u))
            try:
                new = [ord(c) for c in bytes(u).decode("utf8")]
            except UnicodeDecodeError:
                self.out.append(line + tail)
                return
        elif op == "utf16":
            u = self.bad16()
            line = "utf16 a=%d u=%s" % (a, self.l(u))
            try:
                new = [ord(c) for c in b"".join(x.to_bytes(2, "little") for x in u).decode("utf-16-le")]
            except UnicodeDecodeError:
                self.out.append(line + tail)
                return
        elif op == "utf8u":
            new = self.tx()
            line = "utf8u a=%d t=%s" % (a, self.l(new))
        else:
            t = s[a]
            new = list(t)
            if op == "push":
                c = self.ch()
                new.append(c)
                line = "push a=%d c=%d%s" % (a, c, r.choice(["", "", " s=w"]))
            elif op == "pop":
                new = new[:-1]
                line = "pop a=%d" % a
            elif op == "pushs":
                x = self.tx()
                k = r.choice(["", "", "add", "adda", "wr", "wf"])
                if tail and k == "add":
                    k = ""
                new += x
                line = "pushs a=%d t=%s%s" % (a, self.l(x), " s=" + k if k else "")
            elif op == "clear":
                new = []
                line = "clear a=%d" % a
            elif op in ("remove", "trunc", "splitoff", "ins", "inss"):
                n = self.pos(a)
                p = self.at(a, n)
                line = "%s a=%d n=%s" % (op, a, n)
                if op == "remove":
                    if p is not None and p < len(new):
                        del new[p]
                elif op == "trunc":
                    if p is not None:
                        new = new[:p]
                elif op == "splitoff":
                    if not free:
                        return
                    b = r.choice(free)
                    line += " b=%d" % b
                    if p is not None and not tail:
                        s[b] = new[p:]
                        new = new[:p]
                elif op == "ins":
                    c = self.ch()
                    line += " c=%d" % c
                    if p is not None:
                        new.insert(p, c)
                else:
                    x = self.tx()
                    line += " t=" + self.l(x)
                    if p is not None:
                        new[p:p] = x
            elif op == "retain":
                m = r.randint(0, 65535) if r.random() < .7 else r.choice([0, 65535, 2, 65533])
                new = [c for c in t if m >> c % 16 & 1]
                line = "retain a=%d m=%d" % (a, m)
            elif op == "clone":
                if not free:
                    return
                b = r.choice(free)
                line = "clone a=%d b=%d" % (a, b)
                if not tail:
                    s[b] = list(t)
            elif op == "ext":
                k = r.choice(["c", "rc", "s", "S", "c0", "rc0", "S0"])
                if k.rstrip("0") in ("s", "S"):
                    x = self.txs()
                    new += sum(x, [])
                    line = "ext a=%d s=%s" % (a, k) + (" x=" + "/".join(map(self.l, x)) if x else "")
                else:
                    x = self.tx()
                    new += x
                    line = "ext a=%d s=%s t=%s" % (a, k, self.l(x))
            elif op in ("idx", "idxm"):
                k = r.choice(["r", "ri", "rf", "rt", "rti", "f", "as", "ref", "bor", "x"])
                n, m = self.pos(a), self.pos(a)
                if r.random() < .7 and num(n) > num(m):
                    n, m = m, n
                if k in ("ri", "rti") and r.random() < .7 and num(m) not in (0, 2000000000):
                    m = str(num(m) - 1)
                line = "%s a=%d s=%s n=%s m=%s" % (op, a, k if k != "x" else "dr", n, m)
            elif op == "cmp":
                line = "cmp a=%d b=%d" % (a, r.choice(used))
            elif op in ("reserve", "reservex", "treserve", "treservex"):
                n = r.choice(["0", "1", "2", "5", "16"])
                if r.random() < (.2 if self.focus == "cap" else .05):
                    n = r.choice(["H0", "H1", "9223372036854775807", "9223372036854775800"])
                line = "%s a=%d n=%s" % (op, a, n)
            elif op == "shrink":
                line = "shrink a=%d n=%s" % (a, r.choice(["0", "1", "4", "9", "H0"]))
            elif op == "shrinkf":
                line = "shrinkf a=%d" % a
            elif op == "drop":
                line = "drop a=%d" % a
                new = None
        self.out.append(line + tail)
        if tail and making:
            return        # may not have come into being
        if tail and op == "ext":
            new = s[a]    # some beginning of it
        self.s[a] = new

    def run(self):
        for _ in range(self.r.choice([0, 1, 2])):
            w, self.w = self.w, dict(lit=1)
            self.step()
            self.w = w
        n = self.r.randint(4, 26)
        for _ in range(n):
            self.step()
        return self.out


def random_scripts(seed, count, focus):
    out = []
    for i in range(count):
        r = random.Random("text-%s-%s-%d" % (focus, seed, i))
        out.append("S %s%d\n%s" % (focus, i, "\n".join(Gen(r, focus).run())))
    return out


PLAN = {
    "C06": dict(inj=150),
    "C07": dict(long=40, cap=350),
    "C08": dict(long=30, edit=150, oom=100),
    "C09": dict(oom=400),
    "C10": dict(route=300),
    "C12": dict(long=80, edit=900, inj=200, build=150, model=4000),
    "C13": dict(long=60, decode=700, build=400, model=2500, utf=1),
    "C25": dict(long=40, cmp=350),
    "C26": dict(long=40, look=400),
}

CONTENT = {"text", "ret", "res", "utf8", "inconsistent", "crash", "hang"}
MEMORY = {"double_free", "foreign_free", "wrong_allocator", "wrong_layout", "out_of_bounds", "zero_size",
          "write_after_free", "bad_storage", "misaligned", "bad_release", "zero_request", "block_kept", "block_gone",
          "crash"}
BUILDING = {"utf8", "utf8u", "utf16", "lit", "ext"}


def props(tr, l, aspects):
    e = json.loads(tr.ev[l - 1])
    op, af, inj = e["op"], e["af"] > 0, e["inj"] == 1
    afe = af or any(json.loads(x)["af"] > 0 for x in tr.ev[:l])
    res = {}

    def put(p, a):
        res.setdefault(p, set()).add(a)

    for a in aspects:
        if a in CONTENT:
            if af:
                put("C09", a)
            if inj:
                put("C06", a)
            if op in BUILDING:
                put("C13", a)
                if op in ("lit", "ext") or a == "utf8":
                    put("C12", a)
            elif not af or a == "utf8":
                put("C12", a)
        if a in MEMORY:
            put("C08", a)
            if afe:
                put("C09", a)
            if a in ("out_of_bounds", "write_after_free"):
                put("C12", a)
        if a.startswith("cap_") or a == "huge":
            put("C07", a)
        if a == "reason":
            put("C09" if af else "C07", a)
        if a == "oom_cap":
            put("C09", a)
        if a in ("route", "moved_allocator"):
            put("C10", a)
        if a == "cmp":
            put("C25", a)
        if a == "inconsistent" or (a in CONTENT and op in ("idx", "idxm") and not af and not inj):
            put("C26", a)
    return res


class Text:
    name, driver, module, model = "text", "text", "TraceText", "MCText"
    crash_event = staticmethod(crash_event)
    props = staticmethod(props)
    profiles = ("debug", "release")

    @staticmethod
    def covers(prop):
        return prop in PLAN

    @staticmethod
    def random(prop, seed, scale):
        out = []
        for f, n in PLAN[prop].items():
            if f not in ("model", "utf"):
                out += random_scripts(seed, max(1, int(n * scale)), f)
        return out

    @staticmethod
    def model_runs(prop, seed, thorough):
        runs = []
        if "model" in PLAN[prop]:
            runs.append(dict(MaxLen="3" if thorough else "2", MaxLen1="1"))
        if "utf" in PLAN[prop]:
            runs.append(dict(_module="MCUtf", MaxBytes="5" if thorough else "4", MaxUnits="5" if thorough else "4"))
        return runs

    @staticmethod
    def from_model(prop, lines, seed, scale):
        rng = random.Random("textm-%s-%s" % (prop, seed))
        utf = [x[3:] for x in lines if x.startswith("UT|")]
        hist = [x.split("|", 1)[1] for x in lines if x.startswith("SC|")]
        n = int(PLAN[prop]["model"] * scale)
        if prop == "C13":
            hist = [h for h in hist if h.split(";")[-1].split()[0] in BUILDING or " s=iter" in h]
        rng.shuffle(hist)
        out = ["S m%d\n%s" % (i, "\n".join(h.strip(";").split(";"))) for i, h in enumerate(hist[:n])]
        # many decodings make one history
        rng.shuffle(utf)
        utf = utf[:int(25000 * scale)]
        for i in range(0, len(utf), 40):
            out.append("S u%d\n%s" % (i, "\n".join(x + "\ndrop a=0" for x in utf[i:i + 40])))
        return out
