#!/usr/bin/env python3
"""Decide one property:  check.py <property> [--replay FILE]

Histories generated from the TLA+ models (and random ones) are replayed into the real code, built
from the current tree of /repo in two profiles; TLC then checks every recorded trace against the
trace specification. Exit 0: held on everything explored. Exit 1: VIOLATION line. Exit 2: the check
itself failed.
"""
import json, os, random, sys, time, traceback, hashlib
import concurrent.futures as cf

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from vlib import core, families


def known(prop, text):
    """Entries of the known-findings file that match a violation."""
    path = os.path.join(core.VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return None
    for line in open(path):
        line = line.strip()
        if line.startswith("finding: property=%s " % prop):
            parts = line.split(" ", 3)
            key = parts[2][len("key="):]
            if key in text:
                return parts[3] if len(parts) > 3 else key
    return None


def build(f, profiles):
    if hasattr(f, "build"):
        return f.build()
    extra = f.build_options() if hasattr(f, "build_options") else {}
    return core.build([f.driver], profiles, getattr(f, "hooked", False), **extra)


def record(f, bins, scripts, profiles):
    if hasattr(f, "record"):
        return f.record(bins, scripts, profiles)
    return core.run_scripts(bins, f.driver, scripts, f.crash_event, profiles)


def main():
    prop = sys.argv[1]
    t0 = time.time()
    fams = [f for f in families.ALL if f.covers(prop)]
    if not fams:
        raise core.ToolError("no family covers %s" % prop)
    thorough = core.THOROUGH or "--thorough" in sys.argv
    core.THOROUGH = thorough
    if "--replay" in sys.argv:
        return replay(prop, sys.argv[sys.argv.index("--replay") + 1])
    budget = 1500 if thorough else 0
    st = dict(states=0, transitions=0, traces=0, model_states=0, model_transitions=0, model_histories=0,
              random_histories=0)
    samples, findings, per = [], [], {}
    pool = cf.ThreadPoolExecutor(16)
    # Build the drivers while TLC explores the models.
    ready = {}
    for f in fams:
        ready[f.name] = (pool.submit(build, f, f.profiles),
                         [pool.submit(core.model_scripts, c.pop("_module", f.model), c, 4 if not thorough else 8)
                          for c in [dict(x) for x in f.model_runs(prop, core.SEED, thorough)]])
    for f in fams:
        bins = ready[f.name][0].result()
        lines = []
        for m in ready[f.name][1]:
            ls, ms = m.result()
            lines += ls
            st["model_states"] += ms["states"]
            st["model_transitions"] += ms["transitions"]
        rounds = 0
        share = budget / len(fams)
        tf = time.time()
        while True:
            seed = core.SEED + 1000 * rounds
            scale = 4 if thorough else 1.3 if f.name == "conc" else 2
            ms = f.from_model(prop, lines, seed, scale * (4 if thorough else 1)) if lines else []
            rs = f.random(prop, seed, scale)
            traces = record(f, bins, ms + rs, f.profiles)
            if not traces:
                raise core.ToolError("%s: nothing recorded" % f.name)
            bad, s = core.check_traces(f.module, traces)
            st["states"] += s["states"]
            st["transitions"] += s["transitions"]
            st["traces"] += s["traces"]
            st["model_histories"] += len(ms)
            st["random_histories"] += len(rs)
            c = per.setdefault(f.name, dict(traces=0, events=0, seconds=0, operations={}))
            c["traces"] += s["traces"]
            c["events"] += s["events"]
            c["seconds"] = round(time.time() - tf, 1)
            for t in traces:
                for e in t.ev:
                    i = e.find('"op":"') + 6
                    o = e[i:e.index('"', i)]
                    c["operations"][o] = c["operations"].get(o, 0) + 1
            for b in bad:
                p = f.props(*b)
                if "unjudged" in b[2]:
                    p.setdefault(prop, set()).add("unjudged")
                if prop in p:
                    findings.append((f, b, sorted(p[prop])))
                elif "--all" in sys.argv:
                    print("other:", f.name, p, b[0].script.split("\n")[0], b[1])
            if rounds == 0:
                for t in random.Random(core.SEED).sample(traces, min(2, len(traces))):
                    samples.append(dict(family=f.name, profile=t.profile, history=t.script.split("\n"),
                                        last_event=json.loads(t.ev[-1]) if t.ev else None))
            rounds += 1
            if findings or time.time() - tf + 60 > share or getattr(f, "once", False):
                break
    out = []
    for f, (tr, l, _), asp in findings:
        lines_ = tr.script.split("\n")
        text = "%s %s @%s; %s" % (f.name, ",".join(asp), lines_[l] if l < len(lines_) else "end", ";".join(lines_))
        k = known(prop, text.replace(" ", "_"))
        out.append((f, tr, l, asp, k))
    for k in sorted({x[4] for x in out if x[4]}):
        print("KNOWN-FINDING: property=%s %s" % (prop, k))
    new = [x for x in out if not x[4]]
    # the shortest histories first
    new.sort(key=lambda x: (x[2], len(x[1].script)))
    shown = set()
    for f, tr, l, asp, _ in new:
        ev = json.loads(tr.ev[l - 1])
        sig = (f.name, tuple(asp), ev.get("op"), ev.get("res"))
        if sig in shown or len(shown) >= 5:
            continue
        shown.add(sig)
        d = os.path.join(core.BUILD, "replay")
        os.makedirs(d, exist_ok=True)
        h = hashlib.sha1((prop + tr.script + tr.profile).encode()).hexdigest()[:10]
        path = os.path.join(d, "%s-%s.json" % (prop, h))
        lines_ = tr.script.split("\n")
        with open(path, "w") as g:
            json.dump(dict(property=prop, family=f.name, profile=tr.profile, script=lines_, failing_event=l,
                           aspects=asp, event=ev), g, indent=1)
        print("VIOLATION property=%s replay=%s" % (prop, path))
        print("  %s %s: %s at step %d: %s -> %s" % (f.name, tr.profile, ",".join(asp), l,
              lines_[l] if l < len(lines_) else "end", ev.get("res")))
    ev = dict(property=prop, tier="thorough" if thorough else "quick", seed=core.SEED, level="model_checking",
              coverage=dict(states=st["states"] + st["model_states"],
                            transitions=st["transitions"] + st["model_transitions"],
                            traces_validated_against_impl=st["traces"], samples=samples,
                            model=dict(distinct_states=st["model_states"], transitions=st["model_transitions"],
                                       histories_replayed=st["model_histories"]),
                            trace_checking=dict(distinct_states=st["states"], events=st["transitions"]),
                            random_histories=st["random_histories"], families=per),
              assumptions=families.ASSUMPTIONS, wall_s=round(time.time() - t0, 1), violations=len(new))
    os.makedirs(os.path.join(core.VERIF, "evidence"), exist_ok=True)
    with open(os.path.join(core.VERIF, "evidence", prop + ".json"), "w") as g:
        json.dump(ev, g, indent=1)
    print("%s: %d traces, %d events, model %d states, %d violations, %.0f s" % (
        prop, st["traces"], st["transitions"], st["model_states"], len(new), time.time() - t0))
    return 1 if new else 0


def replay(prop, path):
    r = json.load(open(path))
    f = [x for x in families.ALL if x.name == r["family"]][0]
    bins = build(f, (r["profile"],))
    tr = record(f, bins, ["\n".join(r["script"])], (r["profile"],))
    bad, _ = core.check_traces(f.module, tr)
    for t, l, a in bad:
        print("step", l, a, sorted(f.props(t, l, a)))
        print(t.ev[l - 1])
    hit = any(prop in f.props(*b) or "unjudged" in b[2] for b in bad)
    if hit:
        print("VIOLATION property=%s replay=%s" % (prop, path))
    return 1 if hit else 0


if __name__ == "__main__":
    try:
        sys.exit(main())
    except core.ToolError as e:
        print("CHECK-ERROR", e)
        sys.exit(2)
    except Exception:
        traceback.print_exc()
        print("CHECK-ERROR")
        sys.exit(2)
