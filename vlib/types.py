"""Scripts for the types driver: what the compiler grants to types."""
import hashlib, json, os, re
from . import core

DEPTH = {False: 2, True: 3}
KEY = "C27"


def terms(thorough):
    """The types of the model MCTypes: (base, constructors from the inside), each after what it contains."""
    lines, _ = core.model_scripts("MCTypes", dict(Depth=str(DEPTH[thorough])))
    res = []
    for l in lines:
        if l.startswith("TY|"):
            _, base, cons = l.split("|", 2)
            res.append((base, tuple(re.findall(r"\w+", cons))))
    return sorted(set(res), key=lambda t: (len(t[1]), t))


def crash_event(tr, why):
    if tr.head is None:
        return None
    return json.dumps(dict(op="wrap", con="box", send=0, sync=0, env=0, res="crash"))


class Types:
    name, driver, module, model = "types", "types", "TraceTypes", "MCTypes"
    crash_event = staticmethod(crash_event)
    profiles, once = ("debug",), True

    @staticmethod
    def build_options():
        """Write the list of types for the compiler."""
        out = ["types! {"]
        for b in ("both", "send", "sync", "none"):
            out.append('    "%s" con::%s;' % (b, b))
        for base, cons in terms(core.THOROUGH):
            t = "con::" + base
            for c in cons:
                t = "con::%s<%s>" % ("boxed" if c == "box" else c, t)
            out.append('    "%s" %s;' % (".".join((base,) + cons), t))
        text = "\n".join(out + ["}", ""])
        path = os.path.join(core.BUILD, "types-%s.rs" % hashlib.sha1(text.encode()).hexdigest()[:10])
        if not os.path.exists(path):
            with open(path + ".new", "w") as f:
                f.write(text)
            os.rename(path + ".new", path)
        return dict(features=("types",), vars=dict(LOKKY_TYPES=path))

    @staticmethod
    def props(tr, l, aspects):
        return {KEY: set(aspects)}

    @staticmethod
    def covers(prop):
        return prop == KEY

    @staticmethod
    def random(prop, seed, scale):
        return []

    @staticmethod
    def model_runs(prop, seed, thorough):
        return [dict(Depth=str(DEPTH[thorough]))] + ([dict(Depth="4")] if thorough else [])

    @staticmethod
    def from_model(prop, lines, seed, scale):
        res = set()
        for l in lines:
            if l.startswith("TY|"):
                _, base, cons = l.split("|", 2)
                cons = re.findall(r"\w+", cons)
                if len(cons) <= DEPTH[core.THOROUGH]:
                    res.add((base, tuple(cons)))
        inner = {(b, c[:-1]) for b, c in res}
        return ["S t%d %s\nbase\n%s" % (i, b, "\n".join("wrap con=" + x for x in c))
                for i, (b, c) in enumerate(sorted(res - inner))]
