//! Driver for String. Reads scripts, prints traces.
use harness::*;
use lokky::scope::AllocSelector;
use lokky::string::String as LStr;
use lokky::vec::Vec as LVec;
use std::borrow::{Borrow, BorrowMut};
use std::collections::hash_map::DefaultHasher;
use std::fmt::Write as _;
use std::hash::{Hash, Hasher};
use std::io::Read;

const NSLOT: usize = 4;

struct Op<'a> {
    name: &'a str,
    line: &'a str,
}
impl<'a> Op<'a> {
    fn parse(line: &'a str) -> Self {
        Op {
            name: line.split_whitespace().next().unwrap_or(""),
            line,
        }
    }
    fn get(&self, k: &str) -> Option<&'a str> {
        self.line.split_whitespace().skip(1).find_map(|w| {
            let (a, b) = w.split_once('=')?;
            (a == k).then_some(b)
        })
    }
    fn s(&self, k: &str) -> &'a str {
        self.get(k).unwrap_or("")
    }
    /// A number; H<k> stands for usize::MAX - k.
    fn u(&self, k: &str) -> usize {
        match self.get(k) {
            None => 0,
            Some(s) => match s.strip_prefix('H') {
                Some(h) => usize::MAX - h.parse::<usize>().unwrap(),
                None => s.parse().unwrap(),
            },
        }
    }
    fn list(&self, k: &str) -> Vec<u32> {
        parse_list(self.get(k).unwrap_or("-"))
    }
    fn text(&self, k: &str) -> String {
        text(&self.list(k))
    }
    fn texts(&self, k: &str) -> Vec<String> {
        match self.get(k) {
            None | Some("") => vec![],
            Some(s) => s.split('/').map(|x| text(&parse_list(x))).collect(),
        }
    }
}

fn text(v: &[u32]) -> String {
    v.iter().map(|c| char::from_u32(*c).unwrap()).collect()
}

struct Out {
    res: &'static str,
    txt: Vec<i64>,
    num: Vec<i64>,
}

fn cps(s: &str) -> Vec<i64> {
    s.chars().map(|c| c as u32 as i64).collect()
}

fn hash_of<T: Hash + ?Sized>(t: &T) -> u64 {
    let mut h = DefaultHasher::new();
    t.hash(&mut h);
    h.finish()
}

/// A source that counts its calls and tells a chosen lower bound of its length.
struct Src<I> {
    it: I,
    hint: usize,
}
impl<I: Iterator> Iterator for Src<I> {
    type Item = I::Item;
    fn next(&mut self) -> Option<I::Item> {
        tick();
        self.it.next()
    }
    fn size_hint(&self) -> (usize, Option<usize>) {
        (self.hint, None)
    }
}

struct Ctx {
    slots: Vec<Option<LStr>>,
    nscope: u32,
}

fn bits(m: usize, c: char) -> bool {
    m >> (c as u32 % 16) & 1 == 1
}

fn exec(c: &mut Ctx, op: &Op, out: &mut Out) {
    let (a, b, n, m) = (op.u("a"), op.u("b"), op.u("n"), op.u("m"));
    let kind = op.s("s");
    out.res = "ok";
    macro_rules! skip {
        () => {{
            out.res = "skip";
            return;
        }};
    }
    macro_rules! at {
        ($i:expr) => {
            match &mut c.slots[$i] {
                Some(s) => s,
                None => skip!(),
            }
        };
    }
    macro_rules! free {
        ($i:expr) => {
            if c.slots[$i].is_some() {
                skip!()
            }
        };
    }
    let ch = || char::from_u32(op.u("c") as u32).unwrap();
    let t = op.text("t");
    let xs = op.texts("x");
    // Only the operation itself may be refused memory.
    let strings = |xs: &[String]| -> Vec<LStr> {
        heap_arm(0, false);
        let inj = disarm();
        let v = xs.iter().map(|s| LStr::from(s.as_str())).collect();
        rearm(inj);
        heap_arm(op.u("fk") as u32, op.u("fa") != 0);
        v
    };
    let hint = |n: usize| if kind.ends_with('0') { 0 } else { n };
    match op.name {
        "ctor" => {
            free!(a);
            let mk = marker(m as u32);
            let s = match kind {
                "new" => LStr::new(),
                "def" => LStr::default(),
                "cap" => LStr::with_capacity(n),
                "mark" => LStr::with_marker(mk),
                "capm" => LStr::with_capacity_and_marker(n, mk),
                "tcap" | "tcapm" => {
                    let r = if kind == "tcap" {
                        LStr::try_with_capacity(n)
                    } else {
                        LStr::try_with_capacity_and_marker(n, mk)
                    };
                    match r {
                        Ok(s) => s,
                        Err(x) => {
                            why(&x);
                            out.res = "err";
                            return;
                        }
                    }
                }
                _ => {
                    out.res = "unknown";
                    return;
                }
            };
            c.slots[a] = Some(s);
        }
        "lit" => {
            free!(a);
            let k = kind.trim_end_matches('0');
            let s = match k {
                "from" => LStr::from(t.as_str()),
                "char" => LStr::from(ch()),
                "parse" => t.parse::<LStr>().unwrap(),
                "copy" => LStr::from(&*at!(b)),
                "iterc" => Src { hint: hint(t.chars().count()), it: t.chars() }.collect(),
                "iterrc" => {
                    let v: Vec<char> = t.chars().collect();
                    Src { hint: hint(v.len()), it: v.iter() }.collect()
                }
                "iters" => Src { hint: hint(xs.len()), it: xs.iter().map(|s| s.as_str()) }.collect(),
                "iterS" => {
                    let v = strings(&xs);
                    Src { hint: hint(v.len()), it: v.into_iter() }.collect()
                }
                _ => {
                    out.res = "unknown";
                    return;
                }
            };
            c.slots[a] = Some(s);
        }
        "utf8" => {
            free!(a);
            let u: Vec<u8> = op.list("u").iter().map(|x| *x as u8).collect();
            let mut v = LVec::with_marker(marker(m as u32));
            v.extend_from_slice(&u);
            match LStr::from_utf8(v) {
                Ok(s) => c.slots[a] = Some(s),
                Err(x) => {
                    out.txt = vec![x.valid_up_to() as i64, x.error_len().unwrap_or(0) as i64];
                    out.res = "err"
                }
            }
        }
        "utf8u" => {
            free!(a);
            let v = LVec::from(t.as_bytes());
            c.slots[a] = Some(unsafe { LStr::from_utf8_unchecked(v) });
        }
        "utf16" => {
            free!(a);
            let u: Vec<u16> = op.list("u").iter().map(|x| *x as u16).collect();
            match LStr::from_utf16(&u) {
                Ok(s) => c.slots[a] = Some(s),
                Err(_) => out.res = "err",
            }
        }
        "push" => match kind {
            "w" => at!(a).write_char(ch()).unwrap(),
            _ => at!(a).push(ch()),
        },
        "pop" => match at!(a).pop() {
            Some(x) => out.txt.push(x as u32 as i64),
            None => out.res = "none",
        },
        "pushs" => match kind {
            "add" => {
                at!(a);
                let s = c.slots[a].take().unwrap();
                c.slots[a] = Some(s + t.as_str());
            }
            "adda" => *at!(a) += t.as_str(),
            "wr" => at!(a).write_str(&t).unwrap(),
            "wf" => {
                let s = at!(a);
                let k = t.chars().count() / 2;
                let (x, y): (String, String) = (t.chars().take(k).collect(), t.chars().skip(k).collect());
                write!(s, "{x}{y}").unwrap()
            }
            _ => at!(a).push_str(&t),
        },
        "clear" => at!(a).clear(),
        "remove" => {
            let x = at!(a).remove(n);
            out.txt.push(x as u32 as i64);
        }
        "ins" => at!(a).insert(n, ch()),
        "inss" => at!(a).insert_str(n, &t),
        "trunc" => at!(a).truncate(n),
        "splitoff" => {
            free!(b);
            let s = at!(a).split_off(n);
            c.slots[b] = Some(s);
        }
        "retain" => {
            let mut seen = vec![];
            at!(a).retain(|x| {
                seen.push(x as u32 as i64);
                tick();
                bits(m, x)
            });
            out.txt = seen;
        }
        "clone" => {
            free!(b);
            let s = at!(a).clone();
            c.slots[b] = Some(s);
        }
        "ext" => {
            let k = kind.trim_end_matches('0');
            let v: Vec<char> = t.chars().collect();
            match k {
                "c" => at!(a).extend(Src { hint: hint(v.len()), it: t.chars() }),
                "rc" => at!(a).extend(Src { hint: hint(v.len()), it: v.iter() }),
                "s" => at!(a).extend(Src { hint: hint(xs.len()), it: xs.iter().map(|s| s.as_str()) }),
                "S" => {
                    let s = at!(a);
                    let v = strings(&xs);
                    s.extend(Src { hint: hint(v.len()), it: v.into_iter() })
                }
                _ => out.res = "unknown",
            }
        }
        "idx" => {
            let s = &*at!(a);
            let r: &str = match kind {
                "r" => &s[n..m],
                "ri" => &s[n..=m],
                "rf" => &s[n..],
                "rt" => &s[..m],
                "rti" => &s[..=m],
                "f" => &s[..],
                "as" => s.as_str(),
                "ref" => s.as_ref(),
                "bor" => s.borrow(),
                _ => s,
            };
            out.txt = cps(r);
        }
        "idxm" => {
            let s = at!(a);
            let r: &mut str = match kind {
                "r" => &mut s[n..m],
                "ri" => &mut s[n..=m],
                "rf" => &mut s[n..],
                "rt" => &mut s[..m],
                "rti" => &mut s[..=m],
                "f" => &mut s[..],
                "as" => s.as_mut_str(),
                "ref" => s.as_mut(),
                "bor" => s.borrow_mut(),
                _ => s,
            };
            r.make_ascii_uppercase();
        }
        "cmp" => {
            at!(a);
            at!(b);
            let (x, y) = (c.slots[a].as_ref().unwrap(), c.slots[b].as_ref().unwrap());
            let o = |x: Option<std::cmp::Ordering>| x.map_or(9, |x| x as i64);
            let (bx, by): (&str, &str) = (x.borrow(), y.borrow());
            out.num = vec![
                (x == y) as i64,
                (x != y) as i64,
                o(x.partial_cmp(y)),
                o(Some(x.cmp(y))),
                (x < y) as i64,
                (x <= y) as i64,
                (x > y) as i64,
                (x >= y) as i64,
                (hash_of(x) == hash_of(y)) as i64,
                (hash_of(x) == hash_of(bx)) as i64,
                (hash_of(y) == hash_of(by)) as i64,
            ];
        }
        "reserve" => at!(a).reserve(n),
        "reservex" => at!(a).reserve_exact(n),
        "treserve" => {
            if let Err(x) = at!(a).try_reserve(n) {
                why(&x);
                out.res = "err"
            }
        }
        "treservex" => {
            if let Err(x) = at!(a).try_reserve_exact(n) {
                why(&x);
                out.res = "err"
            }
        }
        "shrink" => at!(a).shrink_to(n),
        "shrinkf" => at!(a).shrink_to_fit(),
        "drop" => {
            at!(a);
            drop(c.slots[a].take());
        }
        _ => out.res = "unknown",
    }
}

fn observe(i: usize, s: &LStr) -> String {
    let by: Vec<i64> = s.as_bytes().iter().map(|b| *b as i64).collect();
    let st = s.as_str();
    let bo: &str = s.borrow();
    let rf: &str = s.as_ref();
    if st.as_bytes() != s.as_bytes()
        || bo.as_ptr() != st.as_ptr()
        || rf.as_ptr() != st.as_ptr()
        || st.as_ptr() != s.as_bytes().as_ptr()
        || s.len() != by.len()
        || s.is_empty() != by.is_empty()
        || s[..].len() != by.len()
    {
        anomaly("inconsistent");
    }
    let bl = if s.capacity() == 0 {
        0
    } else {
        match block_at(s.as_bytes().as_ptr() as usize) {
            Some((id, true, room)) => {
                if s.capacity() > room {
                    anomaly("bad_storage");
                }
                id as i64
            }
            _ => -9,
        }
    };
    // Only text that is valid can be looked at as characters.
    if std::str::from_utf8(s.as_bytes()).is_ok() {
        let dbg = format!("{s:?}");
        if format!("{s}") != st
            || format!("{s:>9.3}|{s:<6}|{s:^7}") != format!("{st:>9.3}|{st:<6}|{st:^7}")
            || (dbg != st && dbg != format!("{st:?}"))
            || s.chars().rev().count() != s.chars().count()
        {
            anomaly("inconsistent");
        }
    }
    let mut j = Json::new();
    j.n("i", i as i64);
    j.ns("by", by);
    j.n("cap", clamp(s.capacity()));
    j.n("bl", bl);
    j.end()
}

fn emit(c: &mut Ctx, op: &Op, out: Out, inj: bool, af: u32) {
    let mut j = Json::new();
    j.s("op", op.name);
    for k in ["a", "b", "n", "m", "c", "pk"] {
        let v = op.u(k);
        j.n(k, if v > 1 << 30 { 2_000_000_000 } else { v as i64 });
    }
    j.s("s", op.s("s"));
    j.ns("t", op.list("t").iter().map(|x| *x as i64));
    j.ns("u", op.list("u").iter().map(|x| *x as i64));
    let mut x = String::from("[");
    for (i, s) in op.texts("x").iter().enumerate() {
        let l: Vec<String> = s.chars().map(|c| (c as u32).to_string()).collect();
        let _ = write!(x, "{}[{}]", if i > 0 { "," } else { "" }, l.join(","));
    }
    x.push(']');
    j.raw("x", &x);
    j.s("res", out.res);
    j.n("inj", inj as i64);
    j.n("af", af as i64);
    j.ns("txt", out.txt);
    j.ns("num", out.num);
    let mut sl = String::from("[");
    for (i, s) in c.slots.iter().enumerate() {
        if let Some(s) = s {
            let _ = write!(sl, "{}{}", if sl.len() > 1 { "," } else { "" }, observe(i, s));
        }
    }
    sl.push(']');
    check_blocks();
    step_fields(&mut j);
    j.raw("sl", &sl);
    out_line(&j.end());
    step_reset();
}

fn run_ops(c: &mut Ctx, ops: &mut std::slice::Iter<Op>, depth: u32) -> bool {
    let none = || Out { res: "ok", txt: vec![], num: vec![] };
    while let Some(op) = ops.next() {
        match op.name {
            "enter" => {
                c.nscope += 1;
                let id = c.nscope % NSCOPE;
                let r = guarded(|| {
                    lokky::scope::spawn(
                        |_| TrackScope::new(id),
                        |_| {
                            emit(c, op, Out { num: vec![id as i64], ..none() }, false, 0);
                            run_ops(c, ops, depth + 1)
                        },
                    )
                });
                if let Ok(false) = r {
                    return false;
                }
            }
            "leave" if depth > 0 => {
                emit(c, op, none(), false, 0);
                return true;
            }
            _ => {
                let mut out = none();
                step_reset();
                arm(op.u("pk") as u32);
                heap_arm(op.u("fk") as u32, op.u("fa") != 0);
                let r = guarded(|| exec(c, op, &mut out));
                let inj = fired();
                arm(0);
                let af = heap_refused();
                heap_arm(0, false);
                if r.is_err() {
                    out.res = "panic";
                }
                emit(c, op, out, inj, af);
            }
        }
    }
    false
}

fn main() {
    init();
    let mut input = String::new();
    std::io::stdin().read_to_string(&mut input).unwrap();
    let from: usize = std::env::args().nth(1).map_or(0, |s| s.parse().unwrap());
    for (i, block) in input.split("\n.\n").enumerate() {
        if i < from {
            continue;
        }
        let lines: Vec<&str> = block.lines().filter(|l| !l.trim().is_empty()).collect();
        if lines.is_empty() {
            continue;
        }
        let id = lines[0].split_whitespace().nth(1).unwrap(); // S <id>
        heap_reset(&[AllocSelector::new::<u8>()]);
        reg_reset();
        step_reset();
        println!("T {{\"id\":\"{id}\",\"hd\":\"text\",\"dbg\":{}", cfg!(debug_assertions) as i32);
        watchdog(3);
        let mut c = Ctx {
            slots: (0..NSLOT).map(|_| None).collect(),
            nscope: 0,
        };
        let ops: Vec<Op> = lines[1..].iter().map(|l| Op::parse(l)).collect();
        run_ops(&mut c, &mut ops.iter(), 0);
        step_reset();
        let mut out = Out { res: "ok", txt: vec![], num: vec![] };
        let r = guarded(|| {
            for s in &mut c.slots {
                drop(s.take());
            }
        });
        if r.is_err() {
            out.res = "panic";
        }
        emit(&mut c, &Op::parse("end"), out, false, 0);
        println!("E");
        for s in c.slots {
            std::mem::forget(s);
        }
    }
}
