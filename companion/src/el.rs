//! Element types, their specifications and generators.
use crate::ctx::Rng;
use crate::track::{D, Z};
use std::fmt::Debug;
use std::pin::Pin;
use varlen::prelude::*;
use varlen::seq::{CheckedIndexing, UncheckedIndexing};

pub fn up(x: usize, a: usize) -> usize { (x + a - 1) / a * a }

/// Uniform access to checked and unchecked sequences.
pub trait Sq<T: VarLen>: Sized {
    const CHECKED: bool;
    fn make() -> Self;
    fn pushi(&mut self, i: impl Initializer<T>);
    fn facts(&self) -> (usize, usize, usize);
    fn it(&self) -> varlen::seq::Iter<'_, T>;
    fn itm(&mut self) -> varlen::seq::IterMut<'_, T>;
    fn take(&mut self) -> varlen::seq::OwnedElems<'_, T>;
    fn off_of(&self, e: &T) -> usize;
    unsafe fn at(&self, o: usize) -> &T;
    unsafe fn at_mut(&mut self, o: usize) -> Pin<&mut T>;
    fn valid(&self, o: usize) -> Option<bool>;
    fn checked(&self, o: usize) -> Option<&T>;
    fn checked_mut(&mut self, o: usize) -> Option<Pin<&mut T>>;
    fn ext<I: Initializer<T>>(&mut self, it: impl Iterator<Item = I>);
    fn coll<I: Initializer<T>>(it: impl Iterator<Item = I>) -> Self;
}
macro_rules! sq {
    ($X:ty, $ck:expr, $mk:expr, $valid:expr, $at:expr, $atm:expr) => {
        impl<T: VarLen> Sq<T> for Seq<T, $X> {
            const CHECKED: bool = $ck;
            fn make() -> Self { $mk }
            fn pushi(&mut self, i: impl Initializer<T>) { self.push(i) }
            fn facts(&self) -> (usize, usize, usize) { (self.len(), self.offset(), self.capacity_in_offsets()) }
            fn it(&self) -> varlen::seq::Iter<'_, T> { self.iter() }
            fn itm(&mut self) -> varlen::seq::IterMut<'_, T> { self.iter_mut() }
            fn take(&mut self) -> varlen::seq::OwnedElems<'_, T> { self.take_elems() }
            fn off_of(&self, e: &T) -> usize { self.offset_of(e) }
            unsafe fn at(&self, o: usize) -> &T { self.from_offset_unchecked(o) }
            unsafe fn at_mut(&mut self, o: usize) -> Pin<&mut T> { self.from_offset_unchecked_mut(o) }
            fn valid(&self, o: usize) -> Option<bool> { $valid(self, o) }
            fn checked(&self, o: usize) -> Option<&T> { $at(self, o) }
            fn checked_mut(&mut self, o: usize) -> Option<Pin<&mut T>> { $atm(self, o) }
            fn ext<I: Initializer<T>>(&mut self, it: impl Iterator<Item = I>) { self.extend(it) }
            fn coll<I: Initializer<T>>(it: impl Iterator<Item = I>) -> Self { it.collect() }
        }
    };
}
fn none<T: VarLen>(_: &Seq<T>, _: usize) -> Option<&T> { None }
fn none_mut<T: VarLen>(_: &mut Seq<T>, _: usize) -> Option<Pin<&mut T>> { None }
fn cat<T: VarLen>(s: &Seq<T, CheckedIndexing>, o: usize) -> Option<&T> { Some(s.from_offset(o)) }
fn catm<T: VarLen>(s: &mut Seq<T, CheckedIndexing>, o: usize) -> Option<Pin<&mut T>> { Some(s.from_offset_mut(o)) }
sq!(UncheckedIndexing, false, Seq::new(), |_: &Seq<T>, _| None, none, none_mut);
sq!(CheckedIndexing, true, Seq::new_indexable(), |s: &Seq<T, CheckedIndexing>, o| Some(s.is_offset_valid(o)), cat, catm);

pub trait El: VarLen + Sized {
    type S: Clone + PartialEq + Debug;
    const NAME: &'static str;
    fn gen(r: &mut Rng) -> Self::S;
    /// Size and alignment by the mathematical layout.
    fn lay(s: &Self::S) -> (usize, usize);
    fn bx(s: &Self::S) -> VBox<Self>;
    fn push<Q: Sq<Self>>(q: &mut Q, s: &Self::S);
    fn ext<Q: Sq<Self>>(q: &mut Q, s: &[Self::S]);
    fn coll<Q: Sq<Self>>(s: &[Self::S]) -> Q;
    fn read(&self) -> Option<Self::S>;
    fn mutate(self: Pin<&mut Self>, r: &mut Rng);
    /// The identities of the tracked values inside.
    fn ids(&self) -> Vec<u32> { Vec::new() }
    /// Something that does not fit.
    fn push_huge<Q: Sq<Self>>(_q: &mut Q, _k: usize) -> bool { false }
}
macro_rules! pushes {
    ($s:ident, $i:expr) => {
        fn bx($s: &Self::S) -> VBox<Self> { VBox::new($i) }
        fn push<Q: Sq<Self>>(q: &mut Q, $s: &Self::S) { q.pushi($i) }
        fn ext<Q: Sq<Self>>(q: &mut Q, s: &[Self::S]) { q.ext(s.iter().map(|$s| $i)) }
        fn coll<Q: Sq<Self>>(s: &[Self::S]) -> Q { Q::coll(s.iter().map(|$s| $i)) }
    };
}
pub fn gstr(r: &mut Rng, max: usize) -> String {
    let n = r.to(max + 1);
    if r.to(4) == 0 { return (0..n).map(|_| r.one(CHARS)).collect() }
    (0..n).map(|_| r.one(&['a', 'Z', '0', 'é', '→', '🦀', '\0'])).collect()
}
/// First and last characters of each encoded length, controls, white space, marks, the byte order mark.
pub const CHARS: &[char] = &['\u{feff}', '\n', '\r', ' ', '\t', '\u{301}', '\u{7f}', '\u{80}', '\u{7ff}', '\u{800}', '\u{d7ff}', '\u{e000}', '\u{fffd}', '\u{ffff}', '\u{10000}', '\u{10ffff}', '\0', '\u{1}', '%', '"', '\\', '\u{a0}', '\u{2028}', '\u{200d}'];
pub fn glen(r: &mut Rng) -> usize { if r.to(12) == 0 { r.to(200) } else { r.to(9) } }
const HUGE: [usize; 6] = [usize::MAX, usize::MAX / 2, isize::MAX as usize, usize::MAX - 7, usize::MAX / 8 + 1, 1 << 61];

impl El for Str<u8> {
    type S = String;
    const NAME: &'static str = "Str<u8>";
    fn gen(r: &mut Rng) -> String { let m = if r.to(14) == 0 { 60 } else { 14 }; gstr(r, m) }
    fn lay(s: &String) -> (usize, usize) { (1 + s.len(), 1) }
    pushes!(s, Str::try_copy(s.as_str()).unwrap());
    fn read(&self) -> Option<String> { std::str::from_utf8(self.as_bytes()).ok().map(|s| s.to_string()) }
    fn mutate(self: Pin<&mut Self>, _: &mut Rng) { self.mut_slice().make_ascii_uppercase() }
}
impl El for Str {
    type S = String;
    const NAME: &'static str = "Str";
    fn gen(r: &mut Rng) -> String { gstr(r, 20) }
    fn lay(s: &String) -> (usize, usize) { (8 + s.len(), 8) }
    pushes!(s, Str::copy(s.as_str()));
    fn read(&self) -> Option<String> { std::str::from_utf8(self.as_bytes()).ok().map(|s| s.to_string()) }
    fn mutate(self: Pin<&mut Self>, _: &mut Rng) { self.mut_slice().make_ascii_uppercase() }
}
impl El for Array<u16, u8> {
    type S = Vec<u16>;
    const NAME: &'static str = "Array<u16, u8>";
    fn gen(r: &mut Rng) -> Vec<u16> { (0..glen(r)).map(|_| r.next() as u16).collect() }
    fn lay(s: &Vec<u16>) -> (usize, usize) { (2 + 2 * s.len(), 2) }
    pushes!(s, Array::try_copy(&s[..]).unwrap());
    fn read(&self) -> Option<Vec<u16>> { Some(self.to_vec()) }
    fn mutate(self: Pin<&mut Self>, r: &mut Rng) { for x in self.mut_slice() { *x = r.next() as u16 } }
}
impl El for Array<u64> {
    type S = Vec<u64>;
    const NAME: &'static str = "Array<u64>";
    fn gen(r: &mut Rng) -> Vec<u64> { (0..glen(r)).map(|_| r.next()).collect() }
    fn lay(s: &Vec<u64>) -> (usize, usize) { (8 + 8 * s.len(), 8) }
    pushes!(s, SizedInit(s.len(), FromIterPrefix(s.clone().into_iter())));
    fn read(&self) -> Option<Vec<u64>> { Some(self.to_vec()) }
    fn mutate(self: Pin<&mut Self>, r: &mut Rng) { for x in self.mut_slice() { *x = r.next() } }
    fn push_huge<Q: Sq<Self>>(q: &mut Q, k: usize) -> bool { q.pushi(SizedInit(HUGE[k % 6], FillSequentially(|_| -> u64 { panic!("reached") }))); true }
}
impl El for Array<u8> {
    type S = Vec<u8>;
    const NAME: &'static str = "Array<u8>";
    fn gen(r: &mut Rng) -> Vec<u8> { (0..glen(r)).map(|_| r.next() as u8).collect() }
    fn lay(s: &Vec<u8>) -> (usize, usize) { (8 + s.len(), 8) }
    pushes!(s, Array::copy(&s[..]));
    fn read(&self) -> Option<Vec<u8>> { Some(self.to_vec()) }
    fn mutate(self: Pin<&mut Self>, r: &mut Rng) { for x in self.mut_slice() { *x = r.next() as u8 } }
    fn push_huge<Q: Sq<Self>>(q: &mut Q, k: usize) -> bool { q.pushi(SizedInit(HUGE[k % 4] - k / 6, FillSequentially(|_| -> u8 { panic!("reached") }))); true }
}
macro_rules! arr {
    ($T:ty, $L:ty, $name:expr, $mk:expr, $get:expr) => {
        impl El for Array<$T, $L> {
            type S = Vec<u64>;
            const NAME: &'static str = $name;
            fn gen(r: &mut Rng) -> Vec<u64> { (0..glen(r)).map(|_| r.next() & 0xFF).collect() }
            fn lay(s: &Vec<u64>) -> (usize, usize) {
                let al = std::mem::align_of::<$T>();
                (up(std::mem::size_of::<$L>(), al) + s.len() * std::mem::size_of::<$T>(), al.max(std::mem::size_of::<$L>()))
            }
            pushes!(s, { let v = s.clone(); SizedInit(v.len() as $L, FillSequentially(move |i| $mk(v[i]))) });
            fn read(&self) -> Option<Vec<u64>> { Some(self.iter().map($get).collect()) }
            fn mutate(self: Pin<&mut Self>, r: &mut Rng) { for x in self.mut_slice() { *x = $mk(r.next() & 0xFF) } }
        }
    };
}
arr!(Al, u8, "Array<align 16, u8>", Al, |x: &Al| x.0);
arr!(u8, u32, "Array<u8, u32>", |x| x as u8, |x: &u8| *x as u64);
arr!(u32, u16, "Array<u32, u16>", |x| x as u32, |x: &u32| *x as u64);
#[repr(align(64))]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct A64(pub u32);
impl El for FixedLen<A64> {
    type S = u32;
    const NAME: &'static str = "FixedLen<align 64>";
    fn gen(r: &mut Rng) -> u32 { r.next() as u32 }
    fn lay(_: &u32) -> (usize, usize) { (64, 64) }
    pushes!(s, FixedLen(A64(*s)));
    fn read(&self) -> Option<u32> { Some(self.0 .0) }
    fn mutate(mut self: Pin<&mut Self>, r: &mut Rng) { unsafe { self.as_mut().get_unchecked_mut().0 .0 = r.next() as u32 } }
}
pub type T3 = Tup3<Str<u8>, Array<Al, u8>, FixedLen<u8>>;
impl El for T3 {
    type S = (String, Vec<u64>, u8);
    const NAME: &'static str = "Tup3<Str<u8>, Array<align 16, u8>, FixedLen<u8>>";
    fn gen(r: &mut Rng) -> Self::S { (gstr(r, 9), (0..r.to(4)).map(|_| r.next()).collect(), r.next() as u8) }
    fn lay(s: &Self::S) -> (usize, usize) { (up(1 + s.0.len(), 16) + 16 + 16 * s.1.len() + 1, 16) }
    pushes!(s, { let v = s.1.clone(); tup3::Init(Str::try_copy(s.0.as_str()).unwrap(), SizedInit(v.len() as u8, FillSequentially(move |i| Al(v[i]))), FixedLen(s.2)) });
    fn read(&self) -> Option<Self::S> {
        let r = self.refs();
        Some((std::str::from_utf8(r.0.as_bytes()).ok()?.to_string(), r.1.iter().map(|x| x.0).collect(), r.2 .0))
    }
    fn mutate(self: Pin<&mut Self>, r: &mut Rng) {
        let m = self.muts();
        m.0.mut_slice().make_ascii_uppercase();
        for x in m.1.mut_slice() { x.0 = r.next() }
        unsafe { m.2.get_unchecked_mut().0 = r.next() as u8 }
    }
}
impl El for Array<D, u8> {
    type S = Vec<u32>;
    const NAME: &'static str = "Array<D, u8>";
    fn gen(r: &mut Rng) -> Vec<u32> { (0..r.to(6)).map(|_| r.next() as u32).collect() }
    fn lay(s: &Vec<u32>) -> (usize, usize) { (4 + 12 * s.len(), 4) }
    pushes!(s, { let v = s.clone(); SizedInit(v.len() as u8, FillSequentially(move |i| D::new(v[i]))) });
    fn read(&self) -> Option<Vec<u32>> { self.iter().map(|d| d.get()).collect() }
    fn mutate(self: Pin<&mut Self>, r: &mut Rng) { for x in self.mut_slice() { x.val = r.next() as u32 } }
    fn ids(&self) -> Vec<u32> { self.iter().map(|d| d.id()).collect() }
}
impl El for FixedLen<()> {
    type S = ();
    const NAME: &'static str = "FixedLen<()>";
    fn gen(_: &mut Rng) {}
    fn lay(_: &()) -> (usize, usize) { (0, 1) }
    pushes!(_s, FixedLen(()));
    fn read(&self) -> Option<()> { Some(()) }
    fn mutate(self: Pin<&mut Self>, _: &mut Rng) {}
}
#[repr(align(16))]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct Al(pub u64);
impl El for FixedLen<Al> {
    type S = u64;
    const NAME: &'static str = "FixedLen<align 16>";
    fn gen(r: &mut Rng) -> u64 { r.next() }
    fn lay(_: &u64) -> (usize, usize) { (16, 16) }
    pushes!(s, FixedLen(Al(*s)));
    fn read(&self) -> Option<u64> { Some(self.0 .0) }
    fn mutate(mut self: Pin<&mut Self>, r: &mut Rng) { unsafe { self.as_mut().get_unchecked_mut().0 .0 = r.next() } }
}
impl El for FixedLen<[u8; 3]> {
    type S = [u8; 3];
    const NAME: &'static str = "FixedLen<[u8; 3]>";
    fn gen(r: &mut Rng) -> [u8; 3] { let x = r.next(); [x as u8, (x >> 8) as u8, (x >> 16) as u8] }
    fn lay(_: &[u8; 3]) -> (usize, usize) { (3, 1) }
    pushes!(s, FixedLen(*s));
    fn read(&self) -> Option<[u8; 3]> { Some(self.0) }
    fn mutate(mut self: Pin<&mut Self>, r: &mut Rng) { unsafe { self.as_mut().get_unchecked_mut().0[r.to(3)] = r.next() as u8 } }
}
pub type T2 = Tup2<Array<u16, u8>, FixedLen<D>>;
impl El for T2 {
    type S = (Vec<u16>, u32);
    const NAME: &'static str = "Tup2<Array<u16, u8>, FixedLen<D>>";
    fn gen(r: &mut Rng) -> Self::S { (<Array<u16, u8>>::gen(r), r.next() as u32) }
    fn lay(s: &Self::S) -> (usize, usize) { (up(2 + 2 * s.0.len(), 4) + 12, 4) }
    pushes!(s, tup2::Init(Array::try_copy(&s.0[..]).unwrap(), FixedLen(D::new(s.1))));
    fn read(&self) -> Option<Self::S> { let r = self.refs(); Some((r.0.to_vec(), r.1 .0.get()?)) }
    fn mutate(self: Pin<&mut Self>, r: &mut Rng) { let m = self.muts(); m.0.mutate(r); unsafe { m.1.get_unchecked_mut().0.val = r.next() as u32 } }
    fn ids(&self) -> Vec<u32> { vec![self.refs().1 .0.id()] }
}
/// Elements of size zero with a destructor.
impl El for FixedLen<Z> {
    type S = ();
    const NAME: &'static str = "FixedLen<zero-sized with a destructor>";
    fn gen(_: &mut Rng) {}
    fn lay(_: &()) -> (usize, usize) { (0, 1) }
    pushes!(_s, FixedLen(Z::new()));
    fn read(&self) -> Option<()> { Some(()) }
    fn mutate(self: Pin<&mut Self>, _: &mut Rng) {}
}
