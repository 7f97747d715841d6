//! What the compiler grants to types built from lokky's constructors: may values be moved to another
//! thread, used from two threads, put into an envelope? The types are those the model MCTypes explores.
use std::io::Read;
use std::marker::PhantomData;

/// A user's type: `S`: may be moved to another thread; `Y`: may be used from two threads.
#[derive(Clone)]
pub struct Base<const S: bool, const Y: bool>(PhantomData<*const ()>);
// SAFETY: there is nothing in it.
unsafe impl<const Y: bool> Send for Base<true, Y> {}
unsafe impl<const S: bool> Sync for Base<S, true> {}

#[allow(non_camel_case_types, dead_code)]
mod con {
    pub type both = super::Base<true, true>;
    pub type send = super::Base<true, false>;
    pub type sync = super::Base<false, true>;
    pub type none = super::Base<false, false>;
    pub type boxed<T> = lokky::boxed::Box<T>;
    pub type vec<T> = lokky::vec::Vec<T>;
    pub type sv<T> = lokky::small_vec::SmallVec<T, 2>;
    pub type into<T> = lokky::vec::IntoIter<T>;
    pub type drain<T> = lokky::vec::Drain<'static, T>;
    pub type ptr<T> = lokky::ScopePtr<T>;
    pub type rc<T> = lokky::rc::Rc<T>;
    pub type rcw<T> = lokky::rc::Weak<T>;
    pub type arc<T> = lokky::arc::Arc<T>;
    pub type arcw<T> = lokky::arc::Weak<T>;
    pub type urc<T> = lokky::urc::Urc<T>;
    pub type urcw<T> = lokky::urc::Weak<T>;
    pub type fence<T> = lokky::urc::Fence<T>;
    pub type envl<T> = lokky::scope::Envelope<'static, T>;
}

macro_rules! has {
    ($t:ty: $($b:tt)+) => {{
        struct P<T: ?Sized>(PhantomData<T>);
        trait No {
            const HAS: bool = false;
        }
        impl<T: ?Sized> No for P<T> {}
        #[allow(dead_code)]
        impl<T: ?Sized + $($b)+> P<T> {
            const HAS: bool = true;
        }
        <P<$t>>::HAS
    }};
}

macro_rules! types {
    ($($n:literal $t:ty;)*) => {
        const TYPES: &[(&str, [bool; 3])] = &[
            $(($n, [has!($t: Send), has!($t: Sync), has!($t: lokky::scope::Envelop<'static>)]),)*
        ];
    };
}

// types! { "both.vec.arc" con::arc<con::vec<con::both>>; ... }
include!(env!("LOKKY_TYPES"));

fn main() {
    let table: std::collections::HashMap<&str, [bool; 3]> = TYPES.iter().copied().collect();
    let from: usize = std::env::args().nth(1).map_or(0, |a| a.parse().unwrap());
    let mut text = String::new();
    std::io::stdin().read_to_string(&mut text).unwrap();
    for script in text.split("\n.\n").skip(from) {
        let mut name = String::new();
        for l in script.lines() {
            let w: Vec<&str> = l.split_whitespace().collect();
            let (op, con) = match w.first() {
                None => continue,
                Some(&"S") => {
                    println!("T {{\"id\":\"{}\",\"base\":\"{}\"", w[1], w[2]);
                    name = w[2].into();
                    continue;
                }
                Some(&"base") => ("base", ""),
                Some(_) => {
                    let con = w[1].split_once('=').unwrap().1;
                    name = format!("{name}.{con}");
                    ("wrap", con)
                }
            };
            let (res, f) = table.get(&*name).map_or(("unknown", [false; 3]), |f| ("ok", *f));
            println!(
                "{{\"op\":\"{op}\",\"con\":\"{con}\",\"send\":{},\"sync\":{},\"env\":{},\"res\":\"{res}\"}}",
                f[0] as i32, f[1] as i32, f[2] as i32
            );
        }
        if !name.is_empty() {
            println!("E");
        }
    }
}
