//! Types that markers and selectors are made for. The same ones are made in several crates that do
//! not depend on one another, so that each has its own copy of a type's name.
pub struct Foo<T>(pub T);
pub struct X;
pub struct Y;
pub struct Longer;
pub mod inner {
    pub struct X;
    pub struct Y;
}
pub mod other {
    pub struct X;
}
pub trait Tr {}

/// Markers and selectors with the class each belongs to (of a marker: the place in the list; of a
/// selector: 100 times that of its marker, and that of its type).
#[macro_export]
macro_rules! selectors {
    () => {{
        use $crate::*;
        let mut ms: Vec<(i64, AllocMarker)> = vec![(0, AllocMarker::None)];
        let mut n = 0;
        macro_rules! mark { ($t:ty) => {{ n += 1; ms.push((n, AllocMarker::new::<$t>())); }} }
        mark!(u8); mark!(i8); mark!(X); mark!(Y); mark!(inner::X); mark!(inner::Y); mark!(other::X);
        mark!(Foo<u8>); mark!(Foo<i8>); mark!(Foo<u16>); mark!(Longer); mark!(Foo<Foo<X>>);
        mark!(Foo<Foo<Y>>); mark!([u8; 4]); mark!([u8; 8]); mark!(&'static str); mark!(Foo<Longer>);
        let mut ss: Vec<(i64, AllocSelector)> = vec![];
        for (i, m) in [0usize, 1, 2, 3, 4, 8, 9, 11].iter().map(|i| ms[*i]) {
            let mut k = i * 100 - 1;
            macro_rules! sel { ($t:ty) => {{ k += 1; ss.push((k, AllocSelector::with_marker::<$t>(m))); }} }
            sel!(u8); sel!(i8); sel!([u8]); sel!([i8]); sel!(str); sel!(X); sel!(Y); sel!(inner::X);
            sel!(Foo<X>); sel!(Foo<Y>); sel!(Foo<inner::X>); sel!(Foo<other::X>); sel!(dyn Tr); sel!(Longer);
        }
        ss.push((0, AllocSelector::new::<u8>()));
        ss.push((2, AllocSelector::new::<[u8]>()));
        ss.push((4, AllocSelector::new::<str>()));
        ss.push((8, AllocSelector::new::<Foo<X>>()));
        (ms, ss)
    }};
}
