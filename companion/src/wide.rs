//! Objects at the edges of what the other cases use: long arrays, fields far into an object,
//! values with a destructor at alignment one, large components, wide alignments in an arena.
use crate::ctx::*;
use crate::el::A64;
use crate::objs::place;
use crate::track::{self, D};
use std::cell::Cell;
use varlen::array::ArrayLen;
use varlen::owned::Owned;
use varlen::Layout;
use varlen::prelude::*;

const VT: &str = "C07 C12";
const MT: &str = "C08 C03";
const PT: &str = "C01 C02 C03 C07 C08 C12 C13 C14";

thread_local!(static BYTES: Cell<(i64, i64)> = const { Cell::new((0, 0)) });
/// A value of one byte with a destructor.
pub struct B1(u8);
impl B1 { pub fn new(x: u8) -> B1 { BYTES.with(|b| b.set((b.get().0 + 1, b.get().1 + x as i64))); B1(x) } }
impl Clone for B1 { fn clone(&self) -> B1 { B1::new(self.0) } }
impl Drop for B1 { fn drop(&mut self) { let x = self.0; BYTES.with(|b| b.set((b.get().0 - 1, b.get().1 - x as i64))) } }

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NtB(Array<B1, u8>);
    with init: struct NtBInit<_>(_);
    with inner_ref: fn inner(&self) -> &_;
    with inner_mut: fn inner_mut(self: _) -> _;
}
#[define_varlen]
pub struct SmB { pub b: B1, #[controls_layout] pub n: u8, #[varlen_array] pub xs: [B1; *n as usize], #[varlen] pub f: Array<B1, u8> }
#[define_varlen]
pub struct Far { #[controls_layout] pub n: u32, #[varlen_array] pub xs: [u8; *n as usize], #[varlen] pub s: Str<u8>, #[varlen_array] pub ys: [u16; (*n as usize) / 1000], #[varlen] pub d: Array<D, u8>, #[varlen] pub t: FixedLen<u64> }
#[derive(Clone)]
pub struct Large(pub D, pub [usize; 6]);
#[repr(align(128))]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct A128(pub u8);
#[repr(align(32))]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct A32(pub u8);

fn needs<T: VarLen>() -> bool { T::NEEDS_VDROP }

/// Destructors at alignment one: each value dropped exactly once, whatever it is part of.
fn small(c: &mut Ctx) {
    c.test = "values of one byte with a destructor".into();
    fn one<T: VarLen, I: Initializer<T>>(c: &mut Ctx, what: &str, n: usize, mk: impl Fn() -> I) {
        c.case(format!("{} of {}", what, n), VT, MT, PT, |c| {
            let z = BYTES.with(|b| b.get());
            let live = |_: &()| BYTES.with(|b| (b.get().0 - z.0, b.get().1 - z.1));
            let probe = mk();
            let want = live(&());
            drop(probe);
            // an initializer which makes its values only when it runs has none now
            let b: VBox<T> = VBox::new(mk());
            let full = live(&());
            c.ck("C07 C16", full.0 >= want.0 && (full.0 == 0 || needs::<T>()), || format!("{:?} live after construction", full));
            let mut q: Seq<T> = Seq::new();
            q.push(b);
            q.push(mk());
            c.ck("C07 C16", live(&()) == (2 * full.0, 2 * full.1), || format!("{:?} live after two pushes, {:?} each", live(&()), full));
            let mut e = q.take_elems();
            let o = e.next().unwrap();
            let b: VBox<T> = VBox::new(o);
            drop(e);
            c.ck("C07 C16", live(&()) == full, || format!("{:?} live after the sequence was emptied, {:?} expected", live(&()), full));
            drop(b);
            c.ck("C07 C16", live(&()) == (0, 0), || format!("{:?} live after everything was dropped", live(&())));
            q.push(mk());
            drop(q);
            c.ck("C07 C16", live(&()) == (0, 0), || format!("{:?} live after the sequence was dropped", live(&())));
        });
    }
    let fill = |n: usize| SizedInit(n as u8, FillSequentially(move |i| B1::new((i + n) as u8)));
    for n in [0usize, 1, 2, 7, 8, 9, 64, 200, 255] {
        one::<Array<B1, u8>, _>(c, "Array", n, || fill(n));
        one::<NtB, _>(c, "a newtype of Array", n, || NtBInit(fill(n)));
        one::<Tup2<Str<u8>, Array<B1, u8>>, _>(c, "Tup2 with Str", n, || tup2::Init(Str::try_copy("abc").unwrap(), fill(n)));
        one::<Tup3<Array<B1, u8>, Str<u8>, FixedLen<B1>>, _>(c, "Tup3", n, || tup3::Init(fill(n), Str::try_copy("").unwrap(), FixedLen(B1::new(9))));
        one::<Tup2<NtB, NtB>, _>(c, "Tup2 of newtypes", n, || tup2::Init(NtBInit(fill(n)), NtBInit(fill(3))));
        one::<SmB, _>(c, "a struct", n, || sm_b::Init { b: B1::new(3), n: n as u8, xs: FillSequentially(move |i| B1::new((i * 3) as u8)), f: fill(n) });
        one::<FixedLen<B1>, _>(c, "FixedLen", n, || FixedLen(B1::new(n as u8)));
    }
}

/// Fields that start far into their object.
fn far(c: &mut Ctx) {
    c.test = "fields far into an object".into();
    fn at<T>(x: &T) -> usize { x as *const T as usize }
    for n in [0usize, 200, 255, 256, 4095, 32_760, 65_520, 65_536, 65_544, 70_001, 131_072, 200_003, 1 << 20] {
        c.case(format!("tuples of {}", n), VT, MT, PT, |c| {
            type T = Tup4<Array<u8>, FixedLen<u32>, Array<D, u8>, Str>;
            let mut b: VBox<T> = VBox::new(tup4::Init(SizedInit(n, FillSequentially(|i| (i % 253) as u8)), FixedLen(99), SizedInit(3u8, FillSequentially(|i| D::new(i as u32))), Str::copy("tail")));
            let base = at(&*b);
            let o1 = (8 + n + 3) / 4 * 4;
            let o2 = o1 + 4;
            let o3 = (o2 + 4 + 36 + 7) / 8 * 8;
            c.ck("C01 C03 C12", b.calculate_layout().size() == o3 + 12, || "size".into());
            {
                let tup4::Refs(p, q, r, s) = b.refs();
                c.ck("C03 C13 C14", at(q) == base + o1 && at(r) == base + o2 && at(s) == base + o3, || "places in the shared view".into());
                c.ck("C03 C14", p.len() == n && p.iter().enumerate().all(|(i, x)| *x == (i % 253) as u8) && q.0 == 99 && r.iter().enumerate().all(|(i, d)| d.get() == Some(i as u32)) && &s[..] == "tail", || "contents".into());
            }
            {
                let tup4::Muts(p, mut q, r, s) = b.as_mut().muts();
                if !c.ck("C13 C14 C03", at(&*p) == base && at(&*q) == base + o1 && at(&*r) == base + o2 && at(&*s) == base + o3, || "places in the mutable view".into()) { return }
                q.0 = 5;
                r.mut_slice()[1].val = 50;
                s.mut_slice().make_ascii_uppercase();
            }
            let d = VBox::<Tup4<Array<u8>, FixedLen<u32>, Array<D, u8>, Str>>::clone(&b);
            for x in [&b, &d] {
                let tup4::Refs(p, q, r, s) = x.refs();
                c.ck("C12 C14 C03", p.iter().enumerate().all(|(i, x)| *x == (i % 253) as u8) && p.len() == n && q.0 == 5 && r.len() == 3 && r[1].get() == Some(50) && &s[..] == "TAIL", || "contents after writing, or of the clone".into());
            }
        });
        c.case(format!("a struct of {}", n), VT, MT, PT, |c| {
            let mut b: VBox<Far> = VBox::new(far::Init { n: n as u32, xs: FillSequentially(|i| (i % 253) as u8), s: Str::try_copy("mid").unwrap(), ys: FillSequentially(|i| (i * 7) as u16), d: SizedInit(2u8, FillSequentially(|i| D::new(i as u32 + 4))), t: FixedLen(1 << 40) });
            let ok = |b: &Far, y: u16, v: u32, t: u64| { let r = b.refs(); r.xs.len() == n && r.xs.iter().enumerate().all(|(i, x)| *x == (i % 253) as u8) && r.ys.len() == n / 1000 && r.ys.iter().enumerate().all(|(i, x)| *x == (i * 7) as u16 + y) && r.d.len() == 2 && r.d[1].get() == Some(v) && r.t.0 == t };
            c.ck("C03 C13 C14", ok(&b, 0, 5, 1 << 40) && &b.refs().s[..] == "mid", || "contents".into());
            let places = { let r = b.refs(); [r.xs.as_ptr() as usize, at(r.s), r.ys.as_ptr() as usize, at(r.d), at(r.t)] };
            {
                let mut m = b.as_mut().muts();
                if !c.ck("C13 C14", places == [m.xs.as_ptr() as usize, at(&*m.s), m.ys.as_ptr() as usize, at(&*m.d), at(&*m.t)], || "the two views differ in their places".into()) { return }
                for y in m.ys.iter_mut() { *y += 1 }
                m.d.as_mut().mut_slice()[1].val = 60;
                m.t.0 = 3;
                m.s.as_mut().mut_slice().make_ascii_uppercase();
            }
            c.ck("C03 C13 C14", ok(&b, 1, 60, 3) && &b.refs().s[..] == "MID", || "contents after writing".into());
        });
    }
}

/// Components of several words: cloned once each.
fn large(c: &mut Ctx) {
    c.test = "large components".into();
    for n in [0usize, 1, 3, 50] {
        c.case(format!("clones of {}", n), VT, MT, PT, |c| {
            type T = Tup2<FixedLen<Large>, Array<Large>>;
            let t: VBox<T> = VBox::new(tup2::Init(FixedLen(Large(D::new(1), [7; 6])), SizedInit(n, FillSequentially(|i| Large(D::new(i as u32), [i; 6])))));
            let k = track::clones();
            let u = t.clone();
            c.ck("C12", track::clones() - k == n + 1, || format!("{} clones for {} values", track::clones() - k, n + 1));
            for x in [&t, &u] {
                let tup2::Refs(p, q) = x.refs();
                c.ck("C12", p.0.0.get() == Some(1) && p.0.1 == [7; 6] && q.len() == n && q.iter().enumerate().all(|(i, l)| l.0.get() == Some(i as u32) && l.1 == [i; 6]), || "contents".into());
            }
            let k = track::clones();
            let f: VBox<FixedLen<Large>> = VBox::new(FixedLen(Large(D::new(4), [4; 6])));
            let g = VBox::<FixedLen<Large>>::new(f.vclone());
            c.ck("C12", track::clones() - k == 1 && g.0.0.get() == Some(4) && g.0.1 == [4; 6], || "clone of a FixedLen".into());
        });
    }
    // lengths count elements, not bytes
    fn counts<T: Clone + Copy + PartialEq, L: ArrayLen>(c: &mut Ctx, what: &str, mx: usize, x: T) {
        for n in [0usize, 1, 31, 32, 63, 64, 85, 86, 127, 128, 200, 254, 255, 256, 257, 300, 8191, 8192, 21845, 21846, 32767, 32768, 60000, 65535, 65536] {
            c.case(format!("a slice of {} {}", n, what), "C07", "C08", "C10", |c| {
                let v: Vec<T> = c.off(|| vec![x; n]);
                let a = Array::<T, L>::try_clone_from_slice(&v);
                c.ck("C10", a.is_some() == (n <= mx), || "try_clone_from_slice".into());
                if let Some(a) = a { let b = VBox::<Array<T, L>>::new(a); c.ck("C10", b[..] == v[..] && b.len_short().as_usize() == n, || "try_clone_from_slice contents".into()); }
                let a = Array::<T, L>::try_copy(&v);
                c.ck("C10", a.is_some() == (n <= mx), || "try_copy".into());
                if let Some(a) = a { let b = VBox::<Array<T, L>>::new(a); c.ck("C10", b[..] == v[..] && b.len_short().as_usize() == n, || "try_copy contents".into()); }
                c.off(move || drop(v));
            });
        }
    }
    counts::<u16, u8>(c, "u16 with u8", 255, 3);
    counts::<u64, u8>(c, "u64 with u8", 255, 3);
    counts::<[u8; 3], u8>(c, "[u8; 3] with u8", 255, [3; 3]);
    counts::<(), u8>(c, "() with u8", 255, ());
    counts::<u64, u16>(c, "u64 with u16", 65535, 3);
    counts::<[u8; 3], u16>(c, "[u8; 3] with u16", 65535, [3; 3]);
    counts::<(), u16>(c, "() with u16", 65535, ());
    counts::<u32, u32>(c, "u32 with u32", usize::MAX, 3);
    counts::<u64, usize>(c, "u64 with usize", usize::MAX, 3);
}

/// Objects of every alignment in an arena that is aligned to less.
fn arena(c: &mut Ctx) {
    c.test = "wide alignments in an arena".into();
    fn one<F: Copy + PartialEq + 'static>(c: &mut Ctx, what: &str, x: F) {
        for k in [1usize, 3, 8, 40, 500] {
            c.case(format!("{} after {} bytes", what, k), VT, MT, PT, |c| {
                type T<F> = Tup2<Str<u8>, FixedLen<F>>;
                let bump = c.off(bumpalo::Bump::new);
                let al = std::mem::align_of::<F>();
                for i in 0..24 {
                    c.off(|| { bump.alloc_slice_fill_copy(k, 1u8); });
                    let a = crate::alloc::disarm();
                    let o: Owned<T<F>> = Owned::new_in(tup2::Init(Str::try_copy("ab").unwrap(), FixedLen(x)), &bump);
                    crate::alloc::set(a);
                    let p = &*o as *const T<F> as usize;
                    c.ck("C14 C01", p % al == 0 && p % T::<F>::ALIGN == 0, || format!("object {} is at {:#x}", i, p));
                    if p % al == 0 { c.ck("C14 C03", o.refs().1 .0 == x && &o.refs().0[..] == "ab", || "contents".into()); }
                    drop(o);
                }
                c.off(|| drop(bump));
            });
        }
        c.case(format!("{} in boxes and sequences", what), VT, MT, PT, |c| {
            for i in 0..12 {
                place::<FixedLen<F>, _>(c, FixedLen(x), (std::mem::size_of::<F>(), std::mem::align_of::<F>()), |c, f| { c.ck("C03", f.0 == x, || format!("contents {}", i)); });
            }
        });
    }
    one(c, "u64", 7u64);
    one(c, "u128", 7u128);
    one(c, "alignment 32", A32(1));
    one(c, "alignment 64", crate::wide::W64(2));
    one(c, "alignment 128", A128(3));
    let _ = A64(0);
}
#[repr(align(64))]
#[derive(Clone, Copy, PartialEq, Debug)]
pub struct W64(pub u8);

pub fn run(c: &mut Ctx) {
    let any = |c: &Ctx, t: &str| t.split(' ').any(|p| c.want(p));
    if any(c, "C07 C16 C08") { small(c) }
    if any(c, "C01 C03 C12 C13 C14") { far(c) }
    if any(c, "C10 C12") { large(c) }
    if any(c, "C01 C03 C14") { arena(c) }
}
