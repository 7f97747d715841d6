"""Programs that borrow from containers: what the compiler makes of them."""
import hashlib, json, os, random, re
from . import core

KEY = "C28"

MAKE = dict(
    vec="Vec::from([P(1), P(2)])",
    sv="Sv::from([P(1), P(2)])",
    boxs="Vec::from([P(1), P(2)]).into_boxed_slice()",
    box="Box::new(P(1))",
    ptr="ScopePtr::alloc(P(1), AllocSelector::new::<P>()).unwrap()",
    ptrs="unsafe { ScopePtr::alloc(P(1), AllocSelector::new::<P>()).unwrap().cast_to_slice(1) }",
    text='String::from("text")',
    rc="Rc::new(P(1))",
    arc="Arc::new(P(1))",
    urc="Urc::new(P(1))",
    rcw="Rc::downgrade(&Rc::new(P(1)))",
    into="Vec::from([P(1), P(2)]).into_iter()",
    value="P(1)",
    scope="Here(std::alloc::System)",
)
OTHER = MAKE

SLICE = dict(
    deref="&*$", iter="$.iter()", first="$.first()", deref_mut="&mut *$", iter_mut="$.iter_mut()",
    first_mut="$.first_mut()", split_mut="$.split_at_mut(1)",
    as_ref="AsRef::<[P]>::as_ref(&$)", borrow="Borrow::<[P]>::borrow(&$)",
    as_mut="AsMut::<[P]>::as_mut(&mut $)", borrow_mut="BorrowMut::<[P]>::borrow_mut(&mut $)",
)
KEEP = "{ let mut k = None; $.%s; k }"
VECS = dict(
    SLICE, drain="$.drain(0..1)", as_slice="$.as_slice()", as_mut_slice="$.as_mut_slice()",
    spare_capacity="$.spare_capacity()", spare_capacity_mut="$.spare_capacity_mut()", index="&$[0]",
    index_mut="&mut $[0]", clone="$.clone()", as_ptr="$.as_ptr()", split_off="$.split_off(1)", pop="$.pop()",
    remove="$.remove(0)", swap_remove="$.swap_remove(0)", into_boxed_slice="$.into_boxed_slice()",
    retain_keeps=KEEP % "retain(|x| { k = Some(x); true })",
    dedup_by_keeps=KEEP % "dedup_by(|x, _| { k = Some(x); true })",
    dedup_by_key_keeps=KEEP % "dedup_by_key(|x| { k = Some(x); 1 })",
)


def counted(m):
    return dict(deref="&*$", as_ref="AsRef::<P>::as_ref(&$)", borrow="Borrow::<P>::borrow(&$)", field="&$.0",
                get_mut=m + "::get_mut(&mut $)", make_mut=m + "::make_mut(&mut $)", clone="$.clone()",
                downgrade=m + "::downgrade(&$)", as_ptr=m + "::as_ptr(&$)", try_unwrap=m + "::try_unwrap($)",
                get_mut_unchecked="unsafe { %s::get_mut_unchecked(&mut $) }" % m,
                fence_of="Urc::fence_of(&$)", try_into_fence="Urc::try_into_fence($)")


RANGES = dict(full="..", to="..2", range="1..2", incl="1..=2", to_incl="..=2")
RANGES["from"] = "1.."
VIEWS = dict(
    vec=dict(VECS, into_iter="$.into_iter()", range="&$[0..1]", range_mut="&mut $[0..1]", leak="$.leak()"),
    sv=dict(VECS, as_sv="AsRef::<Sv>::as_ref(&$)", as_sv_mut="AsMut::<Sv>::as_mut(&mut $)", into_vec="$.into_vec()",
            split_off_into="$.split_off_into::<2>(1)", as_mut_ptr="$.as_mut_ptr()"),
    boxs=dict(SLICE, into_vec="Vec::from($)", into_sv="Sv::from($)"),
    box=dict(deref="&*$", as_ref="AsRef::<P>::as_ref(&$)", borrow="Borrow::<P>::borrow(&$)", field="&$.0",
             deref_mut="&mut *$", as_mut="AsMut::<P>::as_mut(&mut $)", borrow_mut="BorrowMut::<P>::borrow_mut(&mut $)",
             field_mut="&mut $.0", into_inner="$.into_inner()", into_rc="Rc::from($)"),
    ptr=dict(deref="&*$", deref_mut="&mut *$", field="&$.0", field_mut="&mut $.0", into_inner="$.into_inner()",
             marker="$.marker()"),
    ptrs=dict(slice_ref="&$[0..1]", slice_mut="&mut $[0..1]", deref="&*$", deref_mut="&mut *$"),
    text=dict(as_bytes="$.as_bytes()", as_str="$.as_str()", as_ref="AsRef::<str>::as_ref(&$)", deref="&*$",
              borrow="Borrow::<str>::borrow(&$)", chars="$.chars()", as_mut_str="$.as_mut_str()",
              as_mut="AsMut::<str>::as_mut(&mut $)", deref_mut="&mut *$", borrow_mut="BorrowMut::<str>::borrow_mut(&mut $)",
              as_mut_vec="$.as_mut_vec()", clone="$.clone()", split_off="$.split_off(1)", pop="$.pop()",
              from_ref="String::from(&$)", plus='$ + "x"',
              **{"index_%s%s" % (n, m): "&%s$[%s]" % ("mut " if m else "", r) for n, r in RANGES.items() for m in ("", "_mut")}),
    rc=counted("Rc"), arc=counted("Arc"), urc=counted("Urc"),
    rcw=dict(upgrade="$.upgrade()", clone="$.clone()"),
    into=dict(as_slice="$.as_slice()", as_slice_mut="$.as_slice_mut()", as_ref="AsRef::<[P]>::as_ref(&$)", next="$.next()",
              next_back="$.next_back()"),
    drain=dict(as_slice="$.as_slice()", next="$.next()", next_back="$.next_back()"),
    scope=dict(env="Env::new(&mut $)"),
    value=dict(current="lokky::scope::current(&$)", vec_of="Vec::from([&$])", vec_from="Vec::from(&[&$][..])", vec_push="{ let mut x = Vec::new(); x.push(&$); x }",
               sv_of="SmallVec::<&P, 2>::from([&$])", sv_from="SmallVec::<&P, 2>::from(&[&$][..])", box_of="Box::new(&$)",
               rc_of="Rc::new(&$)", arc_of="Arc::new(&$)", urc_of="Urc::new(&$)",
               ptr_of="ScopePtr::alloc(&$, AllocSelector::new::<u8>()).unwrap()",
               vec_collect="[&$].into_iter().collect::<Vec<&P>>()", sv_collect="[&$].into_iter().collect::<SmallVec<&P, 2>>()"),
)

ALWAYS = dict(touch="touch(&$)", touch_mut="touch_mut(&mut $)", assign="$ = @", swap="mem::swap(&mut $, &mut @)", drop="drop($)")
COMPARED = dict(eq="touch(&($ == @))", cmp="touch(&$.partial_cmp(&@))", hash="$.hash(&mut hasher())", debug='touch(&format!("{:?}", $))')
VACTS = dict(
    ALWAYS, **COMPARED, len="$.len()", capacity="$.capacity()", is_empty="$.is_empty()", is_full="$.is_full()",
    spare_len="$.spare_len()", push="$.push(P(1))", pop="$.pop()", clear="$.clear()", insert="$.insert(0, P(1))",
    remove="$.remove(0)", swap_remove="$.swap_remove(0)", truncate="$.truncate(1)", reserve="$.reserve(9)",
    reserve_exact="$.reserve_exact(9)", try_reserve="$.try_reserve(9)", try_reserve_exact="$.try_reserve_exact(9)",
    shrink_to="$.shrink_to(3)", shrink_to_fit="$.shrink_to_fit()", append="$.append(&mut @)", appended="(@).append(&mut $)",
    extend_from_slice="$.extend_from_slice(&[P(1)])", split_off="$.split_off(1)", resize="$.resize(3, P(1))",
    resize_with="$.resize_with(3, || P(1))", retain="$.retain(|_| true)", dedup="$.dedup()", dedup_by="$.dedup_by(|a, b| a == b)",
    dedup_by_key="$.dedup_by_key(|a| a.0)", drain_all="$.drain(..)", into_boxed_slice="$.into_boxed_slice()")


def cacts(m):
    return dict(ALWAYS, **COMPARED, counts="(%s)" % ("Urc::fence_strong_count(&$), Urc::fence_weak_count(&$)" if m == "Urc" else
                "%s::strong_count(&$), %s::weak_count(&$)" % (m, m)),
                ptr_eq=m + "::ptr_eq(&$, &@)", clone="$.clone()", downgrade=m + "::downgrade(&$)", get_mut=m + "::get_mut(&mut $)",
                make_mut=m + "::make_mut(&mut $)", try_unwrap=m + "::try_unwrap($)",
                fence_counts="Urc::is_sole_strong_fence(&$)", try_into_fence="Urc::try_into_fence($)")


ACTS = dict(
    vec=dict(VACTS, marker="$.marker()", extend_from_iter="$.extend_from_iter([P(1)])", leak="$.leak()", into_iter="$.into_iter()",
             dealloc_without_drop="$.dealloc_without_drop()"),
    sv=dict(VACTS, is_heap="$.is_heap()", is_stack="$.is_stack()", move_to_heap="$.move_to_heap()",
            try_move_to_stack="$.try_move_to_stack()",
            try_move_to_heap_and_reserve_exact="$.try_move_to_heap_and_reserve_exact(9)", extend="$.extend([P(1)])",
            split_off_into="$.split_off_into::<2>(1)", into_vec="$.into_vec()"),
    boxs=dict(ALWAYS, **COMPARED, into_vec="Vec::from($)"),
    box=dict(ALWAYS, **COMPARED, into_inner="$.into_inner()", into_rc="Rc::from($)"),
    ptr=dict(ALWAYS, marker="$.marker()", selector="$.alloc_selector()", forget="$.forget()", into_inner="$.into_inner()",
             cast="unsafe { $.cast::<u8>() }"),
    ptrs=dict(ALWAYS, marker="$.marker()", realloc_array="unsafe { $.realloc_array(5) }", forget="$.forget()"),
    text=dict(ALWAYS, **COMPARED, len="$.len()", capacity="$.capacity()", is_empty="$.is_empty()",
              display='touch(&format!("{}", $))', push="$.push('x')", push_str='$.push_str("x")', pop="$.pop()", clear="$.clear()",
              remove="$.remove(0)", insert="$.insert(0, 'x')", insert_str='$.insert_str(0, "x")', truncate="$.truncate(1)",
              split_off="$.split_off(1)", retain="$.retain(|_| true)", reserve="$.reserve(9)", reserve_exact="$.reserve_exact(9)",
              try_reserve="$.try_reserve(9)", try_reserve_exact="$.try_reserve_exact(9)", shrink_to="$.shrink_to(9)",
              shrink_to_fit="$.shrink_to_fit()", extend_chars="$.extend(['x'])", extend_strs='$.extend(["x"])', add_assign='$ += "x"',
              write='write!($, "x")', plus='$ + "x"'),
    rc=cacts("Rc"), arc=cacts("Arc"), urc=cacts("Urc"),
    rcw=dict(ALWAYS, counts="($.strong_count(), $.weak_count())", ptr_eq="$.ptr_eq(&@)", upgrade="$.upgrade()", clone="$.clone()"),
    into=dict(ALWAYS, len="$.len()", next="$.next()", next_back="$.next_back()"),
    drain=dict(touch="touch(&$)", touch_mut="touch_mut(&mut $)", drop="drop($)", len="$.len()", next="$.next()", next_back="$.next_back()"),
    scope=dict(touch="touch(&$)", touch_mut="touch_mut(&mut $)", assign="$ = @", drop="drop($)"),
    value=dict(touch="touch(&$)", touch_mut="touch_mut(&mut $)", assign="$ = P(2)", drop="drop($)"),
)
CLASS = dict(drain="drain", into_iter="into")     # what kind of object a view is
EXCLUSIVE = re.compile(r"_mut|_mut_|get_mut|make_mut|^drain$|^env$|as_mut")

# What the compiler says when a borrow is wrong.
BORROWCK = set("E0381 E0382 E0384 E0499 E0502 E0503 E0505 E0506 E0507 E0510 E0515 E0521 E0594 E0596 E0597 E0621 E0700 E0712 "
               "E0713 E0716 E0310 E0309 E0491 E0495".split())


def parse(line):
    _, con, steps = line.split("|")
    return con, tuple(tuple(s.split()) for s in steps.split(";"))


def function(name, con, steps):
    """The program as a Rust function in one line."""
    objs, kinds, out = ["c"], [con], []
    for op, of, n in steps:
        of = int(of)
        k, o = kinds[of], objs[of]
        sub = lambda t: t.replace("$", o).replace("@", OTHER.get(k, "()"))
        if op == "view":
            v = "v%d" % len(objs)
            out.append("let mut %s = %s;" % (v, sub(VIEWS[k][n])))
            objs.append(v)
            kinds.append(CLASS.get(n, ""))
            if EXCLUSIVE.search(n):
                kinds[-1] = kinds[-1] or "x"
        elif op == "act":
            out.append(sub(ACTS[k][n]) + ";")
        else:
            out.append(("touch_mut(&mut %s);" if k in ("x", "drain") else "touch(&%s);") % o)
    return "fn %s() { let mut c = %s; %s }" % (name, MAKE[con], " ".join(out))


def script(con, steps):
    return "B %s\n%s" % (con, "; ".join(" ".join(s) for s in steps))


def unscript(s):
    a, b = s.split("\n")
    return a.split()[1], tuple(tuple(x.split()) for x in b.split("; "))


class Borrow:
    name, driver, module, model = "borrow", "borrows", "TraceBorrow", "MCBorrow"
    profiles, once = ("debug",), True
    crash_event = None

    @staticmethod
    def build():
        """The crate itself must compile; the programs are compiled when they are known."""
        return Borrow.compile([])

    @staticmethod
    def compile(progs):
        """The numbers of the programs the compiler refuses."""
        refused = set()
        for _ in range(4):
            text = "\n".join(function("p%d" % i, *p) if i not in refused else "" for i, p in enumerate(progs)) + "\n"
            path = os.path.join(core.BUILD, "borrows-%s.rs" % hashlib.sha1(text.encode()).hexdigest()[:10])
            with open(path, "w") as f:
                f.write(text)
            try:
                msgs = core.compiler_messages("borrows", ("borrows",), dict(LOKKY_BORROWS=path))
            finally:
                os.unlink(path)
            other = set()
            for m in msgs:
                if m["level"] != "error" or not m["spans"]:
                    continue
                at = {s["line_start"] - 1 for s in m["spans"] if s["file_name"] == path}
                code = (m.get("code") or {}).get("code")
                if not at or max(at) >= len(progs):
                    raise core.ToolError("borrow: " + (m.get("rendered") or m["message"])[:2000])
                refused |= at
                if code not in BORROWCK and "lifetime" not in m["message"]:
                    other |= at
            # While a program does not even have types, others may not have been looked at.
            if not other:
                return refused
            core.log("borrow: no types in", [function("p", *progs[i]) for i in sorted(other)][:5])
            if len(other) > len(progs) // 4 + 3:
                raise core.ToolError("borrow: programs do not compile: " + function("p", *progs[min(other)]))
        raise core.ToolError("borrow: programs do not compile")

    @staticmethod
    def record(bins, scripts, profiles):
        progs = [unscript(s) for s in scripts]
        refused = Borrow.compile(progs)
        res = []
        for i, (con, steps) in enumerate(progs):
            t = core.Trace('{"con":"%s"' % con, scripts[i], "debug")
            n, l = 0, []
            for op, of, name in steps:
                n += op == "view"
                l.append(dict(op=op, of=int(of), n=name, v=n if op == "view" else 0))
            t.ev.append(json.dumps(dict(op="prog", steps=l, res="refused" if i in refused else "taken"), separators=(",", ":")))
            res.append(t)
        return res

    @staticmethod
    def props(tr, l, aspects):
        return {KEY: set(aspects)}

    @staticmethod
    def covers(prop):
        return prop == KEY

    @staticmethod
    def random(prop, seed, scale):
        return []

    @staticmethod
    def model_runs(prop, seed, thorough):
        return [dict(Depth="6" if thorough else "5", Abstract="TRUE"),
                dict(Depth="3", Abstract="FALSE")] + ([dict(Depth="4", Abstract="FALSE")] if thorough else [])

    @staticmethod
    def from_model(prop, lines, seed, scale):
        """All programs with a view, an operation and a use of the view; some of the others."""
        rnd = random.Random(seed)
        progs = sorted({parse(l) for l in lines if l.startswith("BO|")}, key=lambda p: (len(p[1]), p))
        must = [p for p in progs if len(p[1]) < 3 or (len(p[1]) == 3 and p[1][1][0] == "act")]
        rest = [p for p in progs if not (len(p[1]) < 3 or (len(p[1]) == 3 and p[1][1][0] == "act"))]
        n = int(1000 * scale)
        return [script(*p) for p in must + (rest if len(rest) <= n else rnd.sample(rest, n))]
