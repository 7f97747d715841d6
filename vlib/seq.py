"""Scripts for the seq driver (Vec, SmallVec, Box<[T]>, IntoIter)."""
import json, random

CONFIGS = [("t8", 0), ("t8", 1), ("t8", 2), ("t8", 4), ("t1", 2), ("t1", 8), ("zst", 0), ("zst", 2),
           ("t64", 1), ("big", 2), ("pod", 3)]
WEIGHT = [2, 2, 5, 3, 2, 2, 1, 2, 1, 1, 2]
# For sequences of up to several hundred elements.
LONG = [("t8", 2), ("t8", 2), ("t8", 300), ("t8", 300), ("pod", 3), ("pod", 300), ("zst", 2)]
HUGE = [511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]
BORDERS = [7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 257]
W = 3


def num(s):
    if s and s[0] == "H":
        return 2000000000 + int(s[1:])
    return int(s or 0)


def event_fields(line):
    p = line.split()
    kv = dict(x.split("=", 1) for x in p[1:])
    v = kv.get("v", "-")
    return dict(op=p[0], a=int(kv.get("a", 0)), b=int(kv.get("b", 0)), n=num(kv.get("n")), m=num(kv.get("m")),
                s=kv.get("s", ""), t=list(kv.get("t", "")), e=kv.get("e", ""),
                v=[] if v == "-" else [int(x) for x in v.split(",")], pk=int(kv.get("pk", 0)),
                fk=int(kv.get("fk", 0)))


def crash_event(tr, why):
    """The event of the step during which the process died."""
    ops = [l for l in tr.script.split("\n")[1:] if l.strip()] + ["end"]
    if tr.head is None:
        return None
    line = ops[min(len(tr.ev), len(ops) - 1)]
    f = event_fields(line)
    f.pop("fk")
    f.update(res="crash", inj=0, af=0, why=0, ret=[], seen=[], num=[], ob=[], txt=[], an=["crash"], dr=[], cr=[], lg=[], zd=0, zc=0,
             rq=[], sl=[])
    f["in"] = []
    return json.dumps(f)


class Gen:
    """A random history. Lengths are tracked only roughly; impossible operations are skipped by the driver."""

    def __init__(self, rng, ty, N, focus, oplen):
        self.r, self.ty, self.N, self.focus, self.oplen = rng, ty, N, focus, oplen
        self.k = ["-"] * 4
        self.huge = focus == "long" and rng.random() < 0.12
        self.len = [0] * 4
        self.made = 0
        self.depth = 0
        self.out = []

    def inl(self, k):
        return self.N if k == "s" else W

    def val(self):
        return self.r.choice([1, 1, 2, 2, 3, 4, 5, 6, 7, 9])

    def vals(self, n):
        return ",".join(str(self.val()) for _ in range(n)) if n else "-"

    def idx(self, L):
        """An index, mostly valid, often at the borders."""
        r = self.r
        c = r.random()
        if c < 0.55 and L > 0:
            return r.randrange(L)
        if c < 0.7:
            return 0
        if c < 0.8:
            return max(0, L - 1)
        if c < 0.93:
            return L
        if c < 0.97:
            return L + 1
        return "H0"

    def lens(self, k):
        """A number of elements near the interesting borders."""
        I = self.inl(k) if k in "sw" else 4
        if self.focus == "long" and self.r.random() < 0.75:
            if self.huge:
                return self.r.choice(HUGE)
            return self.r.choice(BORDERS + [I, I + 1, max(0, I - 1), 256] + ([256, 257, I] if I > 200 else []))
        return self.r.choice([0, 1, 1, 2, 2, 3, I, max(0, I - 1), I + 1, I + 2])

    def more(self, k, L):
        """A number of elements to add."""
        if self.focus == "long":
            x = self.lens(k)
            return self.r.choice([x, max(0, x - L)]) if L < 500 + 900 * self.huge else 1
        return min(self.lens(k), 5)

    def some(self, kinds):
        c = [i for i in range(4) if self.k[i] in kinds]
        return self.r.choice(c) if c else None

    def free(self):
        return self.some("-")

    def emit(self, s, inject=True):
        r = self.r
        f = self.focus
        if inject:
            p_pk = {"inj": 0.35}.get(f, 0.04)
            p_fk = {"oom": 0.35}.get(f, 0.04)
            c = r.random()
            if c < p_pk:
                s += " pk=%d" % (r.choice([1, 1, 1, 2, 2, 3, 4, 5]) if f != "long" else r.choice([1, 2, 9, 40, 90]))
            elif c < p_pk + p_fk:
                s += " fk=%d" % r.choice([1, 1, 1, 2])
                if r.random() < 0.4:
                    s += " fa=1"
        self.out.append(s)
        self.oplen -= 1

    def create(self):
        r = self.r
        f = self.focus
        a = self.free()
        if a is None:
            return self.end_one()
        k = r.choice("vvsssw" if self.focus != "vec" else "vvvs")
        if self.focus == "sv":
            k = r.choice("sssw")
        op = r.choice(["new", "new", "def", "newm", "cap", "capm", "tcap", "tcapm", "slice", "mslice", "arr", "arr", "iter", "iter", "slice"])
        n = 0
        L = self.lens(k)
        huge = r.random() < (0.25 if self.focus == "cap" else 0.04)
        if op in ("new", "def"):
            self.emit("%s a=%d s=%s" % (op, a, k))
        elif op == "newm":
            self.emit("newm a=%d s=%s m=%d" % (a, k, r.randrange(3)))
        elif op in ("cap", "capm", "tcap", "tcapm"):
            self.emit("%s a=%d s=%s n=%s%s" % (op, a, k, ("H%d" % r.randrange(6)) if huge else L,
                                              " m=%d" % r.randrange(3) if op[-1] == "m" else ""))
        elif op in ("slice", "mslice", "arr"):
            L = min(L, 6) if op == "arr" or f != "long" else L
            n = L
            self.emit("%s a=%d s=%s v=%s" % (op, a, k, self.vals(L)))
        else:
            n = L
            self.emit("iter a=%d s=%s v=%s n=%d" % (a, k, self.vals(L), r.choice([0, L, L // 2])))
        self.k[a], self.len[a] = k, n

    def end_one(self):
        r = self.r
        a = r.choice([i for i in range(4) if self.k[i] != "-"])
        k = self.k[a]
        if k == "v":
            op = r.choice(["drop", "drop", "drop", "forget", "dwd", "leak"])
        elif k == "l":
            op = "nop"
        else:
            op = r.choice(["drop", "drop", "drop", "forget"])
        self.emit("%s a=%d" % (op, a))
        if op == "leak":
            self.k[a] = "l"
        elif op != "nop":
            self.k[a], self.len[a] = "-", 0

    def steps(self, L):
        return "".join(self.r.choice("nnnbbbls") for _ in range(self.r.randrange(0, L + 3)))

    def drain(self, a):
        r = self.r
        L = self.len[a]
        i, j = self.idx(L), self.idx(L)
        if isinstance(i, int) and isinstance(j, int) and i > j and r.random() < 0.9:
            i, j = j, i
        s = r.choice(["f", "r", "r", "r", "ri", "rf", "rt", "rti", "x"])
        e = "F" if r.random() < 0.12 else "D"
        self.emit("drain a=%d s=%s n=%s m=%s t=%s e=%s" % (a, s, i, j, self.steps(min(L, 4 if self.focus != "long" else 40)), e))
        # length unknown; keep a guess
        self.len[a] = max(0, L - 1)

    def mutate(self, a):
        r = self.r
        k, L = self.k[a], self.len[a]
        f = self.focus
        ops = ["push"] * 5 + ["pop", "pop", "ins", "ins", "ins", "rem", "rem", "swr", "swr", "trunc", "clear", "append",
               "exts", "exts", "exti", "exti", "extr", "resize", "resize", "resizew", "retain", "retain", "dedup", "dedupk",
               "dedupby", "dedupby", "splitoff", "splitoff", "splitinto", "drain", "drain", "drain", "reserve", "reservex",
               "treserve", "treservex", "shrinkf", "shrink", "set", "get", "fill", "clone", "clone", "cmp", "boxs",
               "intovec", "intoit", "fromvec", "toheap", "tostack", "tostack", "theap", "asv", "setlen", "view"]
        if f == "iter":
            ops = ["push", "exts", "drain", "drain", "drain", "intoit", "exti"]
        elif f == "view":
            ops = ["view"] * 12 + ["push", "pop", "ins", "rem", "toheap", "tostack", "splitoff", "clone", "boxs", "intoit",
                   "intovec", "fromvec", "exts", "reserve", "shrinkf", "drain", "clear", "set"]
        elif f == "cap":
            ops = ["push", "push", "pop", "ins", "rem", "trunc", "exts", "reserve", "reservex", "treserve", "treservex", "theap",
                   "shrinkf", "shrink", "fill", "fill", "toheap", "tostack", "resize", "splitoff", "append", "drain", "boxs", "exti"]
        elif f == "cmp":
            ops = ["push", "pop", "cmp", "cmp", "cmp", "clone", "toheap", "tostack", "reserve", "set", "boxs", "swr", "exts"]
        elif f == "box":
            ops = ["push", "exts", "reserve", "boxs", "boxs", "intovec", "intoit", "fromvec", "toheap", "rem", "trunc", "clone"]
        elif f == "route":
            ops = ["push", "push", "exts", "reserve", "shrinkf", "shrink", "toheap", "tostack", "theap", "intovec", "fromvec",
                   "boxs", "clear", "pop", "splitoff", "clone", "append", "treserve", "treservex"]
        elif f == "inj":
            ops += ["retain", "dedupby", "dedup", "dedupk", "resizew", "resize", "drain", "clear", "trunc", "exts", "exti",
                    "clone", "clone", "intoit", "intoit", "boxs"] * 2
        op = r.choice(ops)
        n = None
        huge = r.random() < (0.25 if f == "cap" else 0.03)
        H = "H%d" % r.randrange(6)
        c = lambda s, **kw: self.emit(s, **kw)
        if op == "push":
            c("push a=%d v=%d" % (a, self.val())); n = L + 1
        elif op == "pop":
            c("pop a=%d" % a); n = max(0, L - 1)
        elif op == "ins":
            i = self.idx(L)
            c("ins a=%d n=%s v=%d" % (a, i, self.val())); n = L + (isinstance(i, int) and i <= L)
        elif op in ("rem", "swr"):
            i = self.idx(L)
            c("%s a=%d n=%s" % (op, a, i)); n = L - (isinstance(i, int) and i < L)
        elif op in ("trunc", "setlen"):
            i = self.idx(L)
            c("%s a=%d n=%s" % (op, a, i if op == "trunc" or isinstance(i, int) else 1)); n = min(L, i) if isinstance(i, int) else L
        elif op == "clear":
            if L > 2 and r.random() < 0.5:
                return self.mutate(a)
            c("clear a=%d" % a); n = 0
        elif op == "append":
            b = self.some(k)
            if b is None or b == a:
                return self.create()
            c("append a=%d b=%d" % (a, b)); n = L + self.len[b]; self.len[b] = 0
        elif op in ("exts", "extr"):
            x = self.more(k, L)
            if op == "extr" and self.ty != "pod":
                op = "exts"
            c("%s a=%d v=%s" % (op, a, self.vals(x))); n = L + x
        elif op == "exti":
            x = self.more(k, L)
            c("exti a=%d v=%s n=%d" % (a, self.vals(x), r.choice([0, x, x // 2, x + 3]))); n = L + x
        elif op in ("resize", "resizew"):
            x = r.choice([self.lens(k), self.lens(k), L + 1, max(0, L - 1), L])
            if huge and self.ty != "zst":
                c("%s a=%d n=%s v=%d" % (op, a, H, self.val())); n = L
            else:
                c("%s a=%d n=%d v=%d" % (op, a, x, self.val())); n = x
        elif op == "retain":
            c("retain a=%d m=%d" % (a, r.choice([0, 0xffff, r.randrange(1 << 16), r.randrange(1 << 16) | 6]))); n = L
        elif op == "dedup":
            c("dedup a=%d" % a); n = L
        elif op == "dedupk":
            c("dedupk a=%d m=%d" % (a, r.randrange(2))); n = L
        elif op == "dedupby":
            c("dedupby a=%d m=%d" % (a, r.randrange(4))); n = L
        elif op in ("splitoff", "splitinto"):
            b = self.free()
            if b is None or (op == "splitinto" and k == "v"):
                return self.end_one()
            i = self.idx(L)
            c("%s a=%d b=%d n=%s" % (op, a, b, i))
            i = min(i, L) if isinstance(i, int) else L
            self.k[b] = k if op == "splitoff" else ("w" if k == "s" else "s")
            self.len[b] = L - i; n = i
        elif op == "drain":
            return self.drain(a)
        elif op in ("reserve", "reservex", "treserve", "treservex", "theap"):
            c("%s a=%d n=%s" % (op, a, H if huge else r.choice([0, 1, self.lens(k), self.lens(k), 8])))
        elif op == "shrink":
            c("shrink a=%d n=%s" % (a, r.choice([0, L, L + 1, L + 2, "H0"])))
        elif op in ("shrinkf", "toheap", "tostack", "asv", "view"):
            c("%s a=%d" % (op, a))
        elif op == "set":
            c("set a=%d n=%s v=%d" % (a, self.idx(L), self.val()))
        elif op == "get":
            c("get a=%d n=%s" % (a, self.idx(L)))
        elif op == "fill":
            c("fill a=%d v=%s" % (a, self.vals(r.choice([0, 1, 8]))))
        elif op == "clone":
            b = self.free()
            if b is None:
                return self.end_one()
            c("clone a=%d b=%d" % (a, b)); self.k[b], self.len[b] = k, L
        elif op == "cmp":
            b = self.free()
            if f == "cmp" and b is not None and L > 0 and r.random() < 0.5:
                # One that differs a little: shorter at either end, longer, or elsewhere.
                c("clone a=%d b=%d" % (a, b), inject=False)
                self.k[b], self.len[b] = k, L
                for _ in range(r.choice([1, 1, 1, 2])):
                    M = self.len[b]
                    d = r.choice(["rem 0", "rem 0", "pop", "push", "ins 0", "set", "ins"]) if M else "push"
                    if d in ("rem 0", "pop"):
                        c("rem a=%d n=0" % b if d == "rem 0" else "pop a=%d" % b, inject=False)
                        self.len[b] -= 1
                    elif d == "set":
                        c("set a=%d n=%d v=%d" % (b, r.randrange(M), self.val()), inject=False)
                    elif d == "push":
                        c("push a=%d v=%d" % (b, self.val()), inject=False)
                        self.len[b] += 1
                    else:
                        c("ins a=%d n=%d v=%d" % (b, 0 if d == "ins 0" else r.randrange(M), self.val()), inject=False)
                        self.len[b] += 1
                if k in "sw" and r.random() < 0.4:
                    c("%s a=%d" % (r.choice(["toheap", "tostack"]), r.choice([a, b])), inject=False)
                c("cmp a=%d b=%d" % (a, b), inject=False)
                c("cmp a=%d b=%d" % (b, a), inject=False)
                if r.random() < 0.7:
                    c("drop a=%d" % b, inject=False)
                    self.k[b], self.len[b] = "-", 0
                return
            b = self.some(k)
            c("cmp a=%d b=%d" % (a, b), inject=False)
        elif op in ("boxs", "intovec", "intoit", "fromvec"):
            if op == "intovec" and k == "v":
                op = "fromvec"
            if op in ("intoit", "fromvec") and k != "v":
                op = "intovec"
            t = r.choice("sw")
            c("%s a=%d s=%s" % (op, a, t))
            self.k[a] = {"boxs": "b", "intovec": "v", "intoit": "i", "fromvec": t}[op]
        if n is not None:
            self.len[a] = int(n)

    def run(self):
        r = self.r
        while self.oplen > 0:
            c = r.random()
            live = [i for i in range(4) if self.k[i] not in "-l"]
            if not live or c < 0.13:
                self.create()
                continue
            if c < 0.17:
                self.end_one()
                continue
            if c < (0.30 if self.focus == "route" else 0.20):
                if self.depth > 0 and r.random() < 0.5:
                    self.out.append(r.choice(["leave", "leave", "leavep"]))
                    self.depth -= 1
                elif self.depth < 3:
                    self.out.append("enter")
                    self.depth += 1
                continue
            a = r.choice(live)
            k = self.k[a]
            if k == "i":
                if r.random() < (0.4 if self.focus == "view" else 0.05):
                    self.emit("view a=%d" % a)
                elif r.random() < 0.1:
                    self.emit("itset a=%d n=%s v=%d" % (a, self.r.randrange(max(1, self.len[a])), self.val()))
                elif r.random() < (0.4 if self.focus == "inj" else 0.12):
                    self.emit("drop a=%d" % a)
                    self.k[a] = "-"
                else:
                    self.emit("%s a=%d" % (r.choice(["next", "back"]), a))
                    self.len[a] = max(0, self.len[a] - 1)
            elif k == "b":
                op = r.choice(["boxvec", "boxsv", "boxvec", "boxsv", "drop", "cmp", "view"])
                if op == "view" or (self.focus == "view" and r.random() < 0.6):
                    self.emit("view a=%d" % a)
                    continue
                if op == "cmp":
                    self.emit("cmp a=%d b=%d" % (a, self.some("b")), inject=False)
                    continue
                t = r.choice("sw")
                self.emit("%s a=%d s=%s" % (op, a, t))
                self.k[a] = {"boxvec": "v", "boxsv": t, "drop": "-"}[op]
            else:
                self.mutate(a)
        return self.out


def random_scripts(seed, count, focus, length=14, configs=None):
    rng = random.Random("seq-%s-%s" % (seed, focus))
    res = []
    for i in range(count):
        if focus == "long" and not configs:
            ty, N = rng.choice(LONG)
        else:
            ty, N = rng.choices(CONFIGS, WEIGHT)[0] if not configs else rng.choice(configs)
        g = Gen(rng, ty, N, focus, rng.choice([length // 2, length, length + length // 2]))
        res.append("S %s-r%d %s %d\n%s" % (focus, i, ty, N, "\n".join(g.run())))
    return res


# ------------------------------------------------------------------ histories from the model MCSeq

def model_consts(thorough, seed):
    if thorough:
        return [dict(MaxLen="3", MaxLen1="0", Ns="{2}"), dict(MaxLen="2", MaxLen1="1", Ns="{0, 1}")]
    return [dict(MaxLen="2", MaxLen1="0", Ns="{%d}" % (seed % 3))]


TYPES = {0: ["t8", "t8", "zst"], 1: ["t8", "t8", "t64"], 2: ["t8", "t8", "t8", "t1", "zst", "big"], 4: ["t8"]}

DRAIN_OPS = {"drain", "next", "back", "itset", "intoit"}


def relevant(prop, lines_):
    """Does a history of the model matter for a property?"""
    last = lines_[-1].split()[0]
    first = lines_[0]
    if prop == "C01":
        return " s=v" in first
    if prop in ("C02", "C03"):
        return " s=v" not in first or "fromvec" in lines_[-1] or "boxsv" in lines_[-1]
    if prop == "C05":
        return last in DRAIN_OPS or last in ("drop", "forget")
    if prop == "C24":
        return last in ("boxs", "boxvec", "boxsv", "intovec", "drop", "fromvec")
    if prop == "C25":
        return last in ("cmp", "clone", "append", "toheap", "tostack")
    if prop == "C26":
        return last in ("view", "asv", "get")
    if prop == "C07":
        return last not in ("cmp", "get", "next", "back", "itset")
    return True


def model_to_scripts(prop, lines, rng, count):
    cand = []
    for l in lines:
        _, n, hist = l.split("|", 2)
        ops = hist.strip(";").split(";")
        if relevant(prop, ops):
            cand.append((int(n), ops))
    if len(cand) > count:
        cand = rng.sample(cand, count)
    out = []
    for i, (n, ops) in enumerate(cand):
        ty = rng.choice(TYPES[n])
        ops = list(ops)
        if prop == "C06":
            for pk in (1, 2, 3, 4):
                out.append("S m%d-%d %s %d\n%s" % (i, pk, ty if ty != "pod" else "t8", n, "\n".join(ops[:-1] + [ops[-1] + " pk=%d" % pk])))
        elif prop == "C09":
            for fk in (1, 2):
                out.append("S m%d-%d %s %d\n%s" % (i, fk, ty, n, "\n".join(ops[:-1] + [ops[-1] + " fk=%d" % fk, ops[-1]])))
        else:
            out.append("S m%d %s %d\n%s" % (i, ty, n, "\n".join(ops)))
    return out


PLAN = {  # focus -> number of random histories per property; "model": histories taken from MCSeq
    "C01": dict(long=150, vec=450, mix=150, model=900),
    "C02": dict(long=150, sv=450, mix=150, model=900),
    "C03": dict(long=100, sv=450, cap=250, model=900),
    "C04": dict(long=100, mix=300, iter=150, vec=150, sv=150, model=700),
    "C05": dict(long=100, iter=600, model=1000),
    "C06": dict(long=80, inj=650, model=350),
    "C07": dict(long=80, cap=700, model=700),
    "C08": dict(long=80, mix=250, route=250, oom=200, box=150, model=500),
    "C09": dict(long=40, oom=700, model=500),
    "C10": dict(route=400, mix=100, model=300),
    "C24": dict(long=60, box=300, model=300),
    "C25": dict(long=80, cmp=400, model=300),
    "C26": dict(long=60, view=500, model=600),
}

CONTENT = {"seq", "ret", "res", "obs"}
DROPS = {"double_drop", "dead_read", "garbage", "lost", "dropped_contained", "duplicate", "dropped_other",
         "foreign_element", "end_elements"}
MEMORY = {"double_free", "foreign_free", "wrong_allocator", "wrong_layout", "out_of_bounds", "zero_size",
          "write_after_free", "bad_storage", "misaligned", "bad_release", "zero_request", "block_kept", "block_gone",
          "end_blocks"}
STORE = {"store", "storage_lie"}
CAPACITY = {"cap_lt_len", "cap_removed", "cap_realloc", "cap_short", "cap_shrink", "cap_huge", "cap_box", "inconsistent",
            "capobs"}


CAPOPS = {"reserve", "reservex", "treserve", "treservex", "theap", "shrink", "shrinkf", "cap", "capm", "tcap", "tcapm"}


def props(tr, l, aspects):
    """Which properties do the failed aspects of event l of a trace break?"""
    evs = [json.loads(x) for x in tr.ev[max(0, l - 1):l]]
    e = evs[-1]
    kinds = {}
    for x in tr.ev[:l]:
        for c in json.loads(x)["sl"]:
            kinds.setdefault(c["i"], []).append(c["o"]["k"])
    # kinds that slots a and b had before and have after
    ks = set()
    for i in {e["a"], e["b"]}:
        ks.update([k for k in kinds.get(i, ["-"])[-2:]])
    if e["s"] in ("v", "s", "w") and e["op"] not in ("drain",):
        ks.add(e["s"])
    huge = e["n"] >= 2000000000 or e["m"] >= 2000000000
    early = [json.loads(x) for x in tr.ev[:l]]
    inj = e["inj"] == 1 or any(x["inj"] == 1 for x in early)
    af = e["af"] > 0
    af_ever = af or any(x["af"] > 0 for x in early)
    res = {}

    def put(p, a):
        res.setdefault(p, set()).add(a)

    kindprops = set()
    if "v" in ks or "l" in ks:
        kindprops.add("C01")
    if ks & {"s", "w"}:
        kindprops.add("C02")
    draining = e["op"] in DRAIN_OPS or "i" in ks
    boxing = e["op"] in ("boxs", "boxvec", "boxsv") or "b" in ks
    if not kindprops and not draining:
        kindprops = {"C01", "C02"}
    for a in aspects:
        crash = a == "crash"
        if a == "reason":
            put("C09" if af else "C07", a)
        if e["op"] in ("view", "asv", "get") and not inj:
            put("C26", a)
        if a == "view":
            for p in kindprops:
                put(p, a)
            if draining:
                put("C05", a)
            if boxing:
                put("C24", a)
        if a in CONTENT or crash:
            if inj or (crash and e["pk"]):
                put("C06", a)
            if af or (crash and af_ever):
                put("C09", a)
            if huge or e["op"] in CAPOPS:
                put("C07", a)
            if a == "res" and e["op"] in ("tostack", "toheap", "theap"):
                put("C03", a)
            if draining:
                put("C05", a)
            if boxing:
                put("C24", a)
            if not (inj or af) or crash:
                for p in kindprops:
                    put(p, a)
        if a in DROPS or crash:
            put("C04", a)
            if inj:
                put("C06", a)
            if af_ever:
                put("C09", a)
            if draining:
                put("C05", a)
            if boxing:
                put("C24", a)
            if a in ("dead_read", "garbage", "dropped_contained", "duplicate", "lost") and not inj:
                for p in kindprops:
                    put(p, a)
        if a in MEMORY or crash:
            put("C08", a)
            if af_ever:
                put("C09", a)
            if boxing:
                put("C24", a)
            if a == "out_of_bounds":
                put("C07", a)
                if draining:
                    put("C05", a)
                for p in kindprops:
                    put(p, a)
        if a in STORE:
            put("C03", a)
            if a == "storage_lie":
                put("C02", a)
        if a in CAPACITY:
            put("C07", a)
        if a == "oom_cap":
            put("C09", a)
        if a in ("route", "marker", "moved_allocator"):
            put("C10", a)
            if a == "moved_allocator":
                put("C08", a)
        if a == "cmp":
            put("C25", a)
        if a == "hang":
            for p in kindprops | {"C04"}:
                put(p, a)
    return res


class Seq:
    name, driver, module, model = "seq", "seq", "TraceSeq", "MCSeq"
    crash_event = staticmethod(crash_event)
    props = staticmethod(props)
    profiles = ("debug", "release")

    @staticmethod
    def covers(prop):
        return prop in PLAN

    @staticmethod
    def random(prop, seed, scale):
        out = []
        for f, n in PLAN[prop].items():
            if f != "model":
                out += random_scripts(seed, max(1, int(n * scale)), f)
        return out

    @staticmethod
    def model_runs(prop, seed, thorough):
        return model_consts(thorough, seed)

    @staticmethod
    def from_model(prop, lines, seed, scale):
        rng = random.Random("seqm-%s-%s" % (prop, seed))
        return model_to_scripts(prop, lines, rng, int(PLAN[prop]["model"] * scale))
