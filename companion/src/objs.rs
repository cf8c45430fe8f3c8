//! Single objects: layout, contents, fields, clones, boxes, array initializers, lengths, strings.
use crate::ctx::*;
use crate::el::{gstr, up, Al};
use crate::track::{self, Bd, D, Z};
use crate::{alloc, gen};
use std::mem::MaybeUninit;
use std::pin::Pin;
use std::ptr::NonNull;
use varlen::array::ArrayLen;
use varlen::array_init::ArrayInitializer;
use varlen::owned::Owned;
use varlen::seq::{CheckedIndexing, Indexing, UncheckedIndexing};
use varlen::prelude::*;
use varlen::{Layout, VClone, VCopy};

const VT: &str = "C07 C12";
const MT: &str = "C08 C03";
const PT: &str = "C01 C02 C03 C07 C08 C12 C13 C14";
const C: u8 = 0x3C;

/// A buffer with room around, in which objects are placed exactly as aligned as promised.
pub struct Buf(Box<[u8]>, usize, usize);
impl Buf {
    fn new(size: usize, al: usize) -> Buf {
        let b = vec![C; size + 4 * al + 128].into_boxed_slice();
        let a = b.as_ptr() as usize + 64;
        let mut off = (a + al - 1) / al * al;
        if off % (2 * al) == 0 { off += al }
        Buf(b, off - (a - 64), size)
    }
    fn at<T>(&self) -> NonNull<T> { unsafe { NonNull::new_unchecked(self.0.as_ptr().add(self.1) as *mut T) } }
    fn clean(&self) -> bool { self.0[..self.1].iter().all(|x| *x == C) && self.0[self.1 + self.2..].iter().all(|x| *x == C) }
}
/// Initializes an object in place and checks layout and extent; what it reads is checked by f.
pub fn place<T: VarLen, I: Initializer<T>>(c: &mut Ctx, init: I, want: (usize, usize), f: impl FnOnce(&mut Ctx, Pin<&mut T>)) {
    let (ws, wa) = want;
    c.ck("C01", T::ALIGN == wa, || format!("ALIGN is {}, expected {}", T::ALIGN, wa));
    let l = match init.calculate_layout_cautious() { Some(l) => l, None => { c.ck("C02", false, || "no layout".into()); return } };
    let s = l.size();
    c.ck("C01 C02", s == ws, || format!("computed size {}, expected {}", s, ws));
    let b = c.off(|| Buf::new(ws.max(s), wa.max(T::ALIGN)));
    unsafe { init.initialize(b.at(), l) };
    c.ck("C03", b.clean(), || format!("bytes outside the object (size {}) are written", ws));
    let mut o: Owned<T> = unsafe { Owned::from_raw(b.at()) };
    c.ck("C01", o.calculate_layout().size() == s, || format!("the finished object has size {}, {} was computed", o.calculate_layout().size(), s));
    f(c, o.as_mut());
    c.ck("C14 C03", b.clean(), || "bytes outside the object are written through it".into());
    if c.stop { std::mem::forget(o); c.lax = true } else { drop(o) }
    c.off(|| drop(b));
}

fn alen<L: ArrayLen>(max: u128) -> [usize; 6] { let _ = core::marker::PhantomData::<L>; let m = max.min(300) as usize; [0, 1, 2, 3, 17, m.min(260)] }

macro_rules! arrays_for {
    ($c:ident, $L:ty, $max:expr; $($T:ty = $mk:expr, $get:expr);*) => {$({
        for n in alen::<$L>($max as u128) {
            let al = std::mem::align_of::<$T>();
            let hd = std::mem::size_of::<$L>();
            let want = (up(hd, al) + n * std::mem::size_of::<$T>(), al.max(hd));
            $c.case(format!("Array<{}, {}> of {}", stringify!($T), stringify!($L), n), VT, MT, PT, |c| {
                let mk = $mk; let get = $get;
                place::<Array<$T, $L>, _>(c, SizedInit(<$L as ArrayLen>::from_usize(n).unwrap(), FillSequentially(|i| mk(i))), want, |c, mut a| {
                    c.ck("C03", a.len() == n && a.len_short().as_usize() == n, || format!("length {} of {}", a.len(), n));
                    let ok = (0..a.len().min(n)).all(|i| get(&a[i]) == Some(i as u64 % 251));
                    c.ck("C03", ok, || "elements".into());
                    c.ck("C01", (&a[..]).as_ptr() as usize - (&*a as *const Array<$T, $L> as *const u8 as usize) == up(hd, al), || "place of the elements".into());
                    let k = track::clones();
                    let b = VBox::<Array<$T, $L>>::new(a.vclone());
                    c.ck("C12", b.len() == n && (0..n.min(b.len())).all(|i| get(&b[i]) == Some(i as u64 % 251)), || "clone differs".into());
                    c.ck("C12", b.calculate_layout().size() == a.calculate_layout().size(), || "clone has another layout".into());
                    let dk = track::clones() - k;
                    c.ck("C12", dk == if stringify!($T) == "D" { n } else { 0 }, || format!("{} element clones for {}", dk, n));
                    drop(b);
                    c.ck("C12", (0..n.min(a.len())).all(|i| get(&a[i]) == Some(i as u64 % 251)), || "cloning or dropping the clone changed the original".into());
                    let m = a.as_mut().mut_slice();
                    c.ck("C03", m.len() == n, || "mut_slice".into());
                    for i in 0..m.len() { m[i] = mk(i + 1) }
                    let ok = (0..a.len().min(n)).all(|i| get(&a[i]) == Some((i as u64 + 1) % 251));
                    c.ck("C03 C14", ok, || "elements written through mut_slice".into());
                });
            });
        }
    })*};
}
fn val(i: usize) -> u64 { (i % 251) as u64 }
fn arrays(c: &mut Ctx) {
    c.test = "arrays".into();
    macro_rules! per { ($($L:ty, $m:expr);*) => {$(
        arrays_for!(c, $L, $m;
            u8 = |i| val(i) as u8, |x: &u8| Some(*x as u64);
            u16 = |i| val(i) as u16, |x: &u16| Some(*x as u64);
            u32 = |i| val(i) as u32, |x: &u32| Some(*x as u64);
            u64 = |i| val(i), |x: &u64| Some(*x);
            Al = |i| Al(val(i)), |x: &Al| Some(x.0);
            [u8; 3] = |i| [val(i) as u8; 3], |x: &[u8; 3]| if x[0] == x[1] && x[1] == x[2] { Some(x[0] as u64) } else { None };
            D = |i| D::new(val(i) as u32), |x: &D| x.get().map(|v| v as u64));
    )*}}
    per!(u8, u8::MAX; u16, u16::MAX; u32, u32::MAX; u64, u64::MAX; usize, usize::MAX);
    // copies
    for n in [0usize, 1, 5, 255, 256, 1000] {
        c.case(format!("vcopy of Array<u32> of {}", n), VT, MT, PT, |c| {
            let src: Vec<u32> = c.off(|| (0..n as u32).collect());
            let a = VBox::<Array<u32>>::new(Array::copy(&src));
            let mut b = VBox::<Array<u32>>::new(a.vcopy());
            c.ck("C12", a[..] == src[..] && b[..] == src[..] && a.as_ptr() != b.as_ptr(), || "vcopy".into());
            for x in b.as_mut().mut_slice() { *x = 9 }
            c.ck("C12", a[..] == src[..], || "writing the copy changed the original".into());
            drop(a);
            c.ck("C12", b.iter().all(|x| *x == 9) && b.len() == n, || "dropping the original changed the copy".into());
            drop(b);
            c.off(|| drop(src));
        });
        c.case(format!("clone_from_slice of {}", n), VT, MT, PT, |c| {
            let src: Vec<D> = c.off(|| (0..n as u32).map(D::new).collect());
            let k = track::clones();
            let a = VBox::<Array<D>>::new(Array::clone_from_slice(&src));
            c.ck("C12 C09 C03", a.len() == n && (0..n).all(|i| a[i].get() == Some(i as u32) && a[i].id() != src[i].id()), || "clone_from_slice".into());
            c.ck("C12 C09", track::clones() - k == n, || "number of clones".into());
            drop(a);
            c.ck("C07 C12", src.iter().all(|d| d.get().is_some()), || "the source was dropped".into());
            c.off(|| drop(src));
        });
    }
}

/// A value without a destructor whose clones differ from it: a clone by copying shows.
#[derive(Debug, PartialEq)]
pub struct Gen(u32);
impl Clone for Gen { fn clone(&self) -> Gen { Gen(self.0.wrapping_add(1)) } }

/// Each element is cloned by its own `Clone`, once, whether or not it has a destructor.
fn generations(c: &mut Ctx) {
    c.test = "clones of values without a destructor".into();
    for n in [0usize, 1, 2, 7, 100] {
        c.case(format!("clones of {}", n), VT, MT, PT, |c| {
            let src: Vec<Gen> = c.off(|| (0..n as u32).map(|i| Gen(i * 10)).collect());
            let is = |x: &[Gen], k: u32| x.len() == n && x.iter().enumerate().all(|(i, g)| g.0 == i as u32 * 10 + k);
            let a = VBox::<Array<Gen>>::new(Array::clone_from_slice(&src));
            c.ck("C12 C09", is(&a, 1), || format!("clone_from_slice gives {:?}", &a[..]));
            let b = VBox::<Array<Gen>>::new(a.vclone());
            c.ck("C12", is(&b, 2), || format!("vclone gives {:?}", &b[..]));
            let mut d = b.clone();
            c.ck("C12", is(&d, 3), || format!("clone of a VBox gives {:?}", &d[..]));
            d.clone_from(&a);
            c.ck("C12", is(&d, 2), || format!("clone_from gives {:?}", &d[..]));
            c.ck("C12", is(&a, 1) && is(&b, 2) && src.iter().enumerate().all(|(i, g)| g.0 == i as u32 * 10), || "the original changed".into());
            type T = Tup2<FixedLen<Gen>, Array<Gen>>;
            let t = VBox::<T>::new(tup2::Init(FixedLen(Gen(3)), Array::clone_from_slice(&src)));
            let u = t.clone();
            let (tup2::Refs(p, r), tup2::Refs(q, s)) = (t.refs(), u.refs());
            c.ck("C12", p.0.0 == 3 && is(r, 1) && q.0.0 == 4 && is(s, 2), || "clone of a tuple".into());
            c.off(|| drop(src));
        });
    }
}

/// Copies and clones of many shapes, made over memory that held something else.
fn copies(c: &mut Ctx) {
    c.test = "copies over dirty memory".into();
    fn one<T: crate::el::El>(c: &mut Ctx, r: &mut Rng, copy: impl Fn(&T, NonNull<T>, T::Layout), kind: &str) {
        for k in 0..if c.thorough { 200 } else { 40 } {
            let s = T::gen(r);
            c.case(format!("{} of {}, number {}", kind, T::NAME, k), VT, MT, PT, |c| {
                let want = T::lay(&s);
                let a = T::bx(&s);
                let armed = alloc::disarm();
                {
                    let b = Buf::new(want.0, want.1);
                    copy(&a, b.at(), a.calculate_layout());
                    c.ck("C12 C03", b.clean(), || format!("the {} writes outside its extent", kind));
                    let o = unsafe { Owned::from_raw(b.at::<T>()) };
                    c.ck("C12", o.read().as_ref() == Some(&s), || format!("the {} reads back as {:?}, the original is {:?}", kind, o.read(), s));
                    c.ck("C12 C01", o.calculate_layout().size() == want.0, || "size of the copy".into());
                    drop(o);
                }
                alloc::set(armed);
                c.ck("C12", a.read().as_ref() == Some(&s), || "the original changed".into());
                drop(a);
            });
        }
    }
    let mut r = Rng(c.seed ^ 0xC0B1);
    let r = &mut r;
    macro_rules! cp { ($($T:ty),*) => {$(
        one::<$T>(c, r, |a, d, l| unsafe { let i = a.vcopy(); let _ = l; let l = Initializer::<$T>::calculate_layout_cautious(&i).unwrap(); i.initialize(d, l) }, "copy");
        one::<$T>(c, r, |a, d, l| unsafe { let i = a.vclone(); let _ = l; let l = Initializer::<$T>::calculate_layout_cautious(&i).unwrap(); i.initialize(d, l) }, "clone");
        one::<$T>(c, r, |a, d, l| unsafe { let _ = l; let b: VBox<$T> = VBox::new(a.vclone()); let l = Initializer::<$T>::calculate_layout_cautious(&b).unwrap(); b.initialize(d, l) }, "move of a box");
    )*} }
    cp!(Str<u8>, Str, Array<u16, u8>, Array<u64>, Array<u8>, FixedLen<()>, FixedLen<Al>, FixedLen<[u8; 3]>, Array<Al, u8>, Array<u8, u32>, Array<u32, u16>, FixedLen<crate::el::A64>, crate::el::T3);
}

/// An element of one byte, and an initializer which claims any size for it.
struct Huge<const A: usize>(u8);
struct HugeLayout(usize);
impl Layout for HugeLayout { fn size(&self) -> usize { self.0 } }
unsafe impl<const A: usize> VarLen for Huge<A> {
    type Layout = HugeLayout;
    const ALIGN: usize = A;
    const NEEDS_VDROP: bool = false;
    fn calculate_layout(&self) -> HugeLayout { HugeLayout(1) }
    unsafe fn vdrop(self: core::pin::Pin<&mut Self>, _: HugeLayout) {}
}
struct HugeInit(usize);
unsafe impl<const A: usize> Initializer<Huge<A>> for HugeInit {
    fn calculate_layout_cautious(&self) -> Option<HugeLayout> { Some(HugeLayout(self.0)) }
    unsafe fn initialize(self, dst: NonNull<Huge<A>>, l: HugeLayout) {
        if self.0 > 1 { panic!("reached") }
        assert_eq!(l.0, self.0);
        dst.as_ptr().write(Huge(7));
    }
}
fn huge<const A: usize>(c: &mut Ctx, n: usize, before: usize) {
    if before > 9 && A > 8 { return }
    c.case(format!("a claimed size of {} at alignment {} after {} elements", n, A, before), "C07 C05 C06", "C08", "C02", |c| {
        fn push_to<const A: usize, I: Indexing>(c: &mut Ctx, mut q: Seq<Huge<A>, I>, n: usize, before: usize) {
            for _ in 0..before { q.push(HugeInit(1)) }
            let r = c.caught(|| q.push(HugeInit(n)));
            c.ck("C02", r.is_none(), || "push of an impossible size returned".into());
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            c.ck("C02 C08", !m.contains("reached"), || "push of an impossible size started initializing".into());
            if r.is_some() { std::mem::forget(q); return }
            c.ck("C02", q.len() == before && q.iter().count() == before && q.iter().all(|e| e.0 == 7), || "the elements changed".into());
            q.push(HugeInit(1));
            c.ck("C02 C05", q.len() == before + 1 && q.iter().all(|e| e.0 == 7), || "a push after the refused one".into());
        }
        push_to::<A, UncheckedIndexing>(c, Seq::new(), n, before);
        push_to::<A, CheckedIndexing>(c, Seq::new(), n, before);
        if before == 0 && n > isize::MAX as usize {
            let r = c.caught(|| std::mem::forget(VBox::<Huge<A>>::new(HugeInit(n))));
            c.ck("C02", r.is_none(), || "VBox::new of an impossible size returned".into());
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            c.ck("C02 C08", !m.contains("reached"), || "VBox::new of an impossible size started initializing".into());
        }
    });
}

/// Sizes in unbounded arithmetic, for requests that are never carried out.
fn overflow(c: &mut Ctx) {
    c.test = "layout overflow".into();
    const MX: u128 = usize::MAX as u128;
    const IM: u128 = isize::MAX as u128;
    fn upb(x: u128, a: u128) -> u128 { (x + a - 1) / a * a }
    fn judge(c: &mut Ctx, got: Option<usize>, size: u128, al: u128) {
        let ok = match got { Some(s) => s as u128 == size && size <= MX, None => upb(size, al) > IM };
        c.ck("C02", ok, || format!("layout {:?}, the true size is {}", got, size));
        if let Some(s) = got { c.ck("C01", s as u128 == size, || format!("size {}, expected {}", s, size)); }
    }
    let mut ns: Vec<usize> = vec![];
    for b in [0u128, 1, 1 << 8, 1 << 32, IM / 16, IM / 12, IM / 8, IM / 3, IM / 2, IM, MX / 16, MX / 12, MX / 8, MX / 3, MX / 2, MX] {
        for d in 0..26u128 { for x in [b.saturating_sub(d), b + d] { if x <= MX { ns.push(x as usize) } } }
    }
    ns.sort();
    ns.dedup();
    macro_rules! big { ($($T:ty),*) => {$( for &n in &ns {
        let (al, es) = (std::mem::align_of::<$T>() as u128, std::mem::size_of::<$T>() as u128);
        c.case(format!("Array<{}> of {}", stringify!($T), n), "C07", "C08", "C02", |c| {
            let i = SizedInit(n, FillSequentially(|_| -> $T { panic!("reached") }));
            judge(c, Initializer::<Array<$T>>::calculate_layout_cautious(&i).map(|l| l.size()), upb(8, al) + es * n as u128, al.max(8));
            if es > 0 && (upb(8, al) + es * n as u128) > IM {
                let r = c.caught(|| { let i = SizedInit(n, FillSequentially(|_| -> $T { panic!("reached") })); std::mem::forget(VBox::<Array<$T>>::new(i)) });
                c.ck("C02", r.is_none(), || "VBox::new of an impossible size returned".into());
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                c.ck("C02 C08", !m.contains("reached"), || "VBox::new of an impossible size started initializing".into());
                let r = c.caught(|| { let mut q: Seq<Array<$T>> = Seq::new(); let i = SizedInit(n, FillSequentially(|_| -> $T { panic!("reached") })); q.push(i); std::mem::forget(q) });
                c.ck("C02", r.is_none(), || "push of an impossible size returned".into());
                let m = LAST_PANIC.with(|p| p.borrow().clone());
                c.ck("C02 C08", !m.contains("reached"), || "push of an impossible size started initializing".into());
            }
        });
    })*}}
    big!(u8, u16, u64, [u8; 3], D, Al, ());
    // sums
    let pts: Vec<usize> = ns.iter().copied().filter(|n| n % 5 < 2 || *n > usize::MAX - 20 || (*n > isize::MAX as usize - 20 && *n < isize::MAX as usize + 20)).collect();
    for (i, &a) in pts.iter().enumerate() {
        for &b in pts.iter().skip(i % 3).step_by(3) {
            c.case(format!("Tup2/macro struct of {} and {}", a, b), "C07", "C08", "C02", |c| {
                let f1 = || SizedInit(a, FillSequentially(|_| -> u8 { panic!() }));
                let f2 = || SizedInit(b, FillSequentially(|_| -> u16 { panic!() }));
                let s = upb(8 + a as u128, 8) + 8 + 2 * b as u128;
                judge(c, Initializer::<Tup2<Array<u8>, Array<u16>>>::calculate_layout_cautious(&tup2::Init(f1(), f2())).map(|l| l.size()), s, 8);
                let s3 = upb(1 + 8 + a as u128, 8).max(upb(upb(1, 8) + 8 + a as u128, 8));
                let s3 = s3 + 8 + 2 * b as u128;
                judge(c, Initializer::<Tup3<FixedLen<u8>, Array<u8>, Array<u16>>>::calculate_layout_cautious(&tup3::Init(FixedLen(1), f1(), f2())).map(|l| l.size()), s3, 8);
                let s = upb(2 + 8 * 0, 8) + 8 + a as u128;
                judge(c, Initializer::<gen::GenField<Array<u8>>>::calculate_layout_cautious(&gen::gen_field::Init { k: 3, f: f1() }).map(|l| l.size()), s, 8);
                let (x, y) = (a as u128, b as u128);
                let e = upb(upb(16 + x, 2) + 2 * y, 4) + 4 * (y / 2);
                let z = FillSequentially(|_| -> u8 { panic!() });
                let z2 = FillSequentially(|_| -> u16 { panic!() });
                let z4 = FillSequentially(|_| -> u32 { panic!() });
                judge(c, Initializer::<gen::Two>::calculate_layout_cautious(&gen::two::Init { a, b, xs: z, ys: z2, zs: z4 }).map(|l| l.size()), e, 8);
            });
        }
    }
    // sizes near the top of usize after a number of elements, for every alignment
    for &n in &[usize::MAX, usize::MAX - 1, usize::MAX - 6, usize::MAX - 7, usize::MAX - 8, usize::MAX - 15, usize::MAX - 63, usize::MAX - 64, usize::MAX - 200, usize::MAX - 254, usize::MAX - 600, 1 << 63, (1 << 63) - 1, (1 << 63) - 8] {
        for before in [0usize, 1, 2, 7, 8, 9, 33, 64, 255, 256, 700] {
            huge::<1>(c, n, before);
            huge::<2>(c, n, before);
            huge::<8>(c, n, before);
            huge::<64>(c, n, before);
        }
    }
    // an inner layout that is refused
    struct No;
    unsafe impl Initializer<Str> for No { fn calculate_layout_cautious(&self) -> Option<<Str as VarLen>::Layout> { None } unsafe fn initialize(self, _: NonNull<Str>, _: <Str as VarLen>::Layout) { panic!("reached") } }
    c.case("inner layout refused".into(), "C07", "C08", "C02", |c| {
        c.ck("C02", Initializer::<Tup2<Str, Str>>::calculate_layout_cautious(&tup2::Init(No, Str::copy("x"))).is_none(), || "Tup2".into());
        c.ck("C02", Initializer::<Tup2<Str, Str>>::calculate_layout_cautious(&tup2::Init(Str::copy("x"), No)).is_none(), || "Tup2".into());
        c.ck("C02", Initializer::<gen::GenField<Str>>::calculate_layout_cautious(&gen::gen_field::Init { k: 1, f: No }).is_none(), || "struct".into());
        let r = c.caught(|| { VBox::<Str>::new(No); });
        c.ck("C02", r.is_none(), || "VBox::new".into());
    });
}

fn lengths(c: &mut Ctx) {
    c.test = "length types".into();
    macro_rules! l { ($($L:ty),*) => {$(
        c.case(format!("{}", stringify!($L)), "", "", "C10", |c| {
            let mx = <$L>::MAX as u128;
            let mut xs: Vec<usize> = c.off(|| (0..70000).collect());
            c.off(|| for s in 0..64 { for d in 0..3usize { xs.push((1usize << s).wrapping_add(d)); xs.push((1usize << s).wrapping_sub(d)); } });
            for &n in &xs {
                let r = <$L as ArrayLen>::from_usize(n);
                c.ck("C10", r.is_some() == (n as u128 <= mx), || format!("from_usize({}) is {:?}", n, r.map(|x| x.as_usize())));
                if let Some(x) = r { c.ck("C10", x.as_usize() == n, || format!("from_usize({}) holds {}", n, x.as_usize())); }
            }
            c.off(|| drop(xs));
        });
        for n in [0usize, 1, 2, 127, 128, 254, 255, 256, 257, 300, 511, 512, 65534, 65535, 65536, 65537, 65791, 131072] {
            c.case(format!("{} slice of {}", stringify!($L), n), "C07", "C08", "C10", |c| {
                let v: Vec<u8> = c.off(|| (0..n).map(|i| b'a' + (i % 23) as u8).collect());
                let fits = n as u128 <= <$L>::MAX as u128;
                let a = Array::<u8, $L>::try_copy(&v);
                c.ck("C10", a.is_some() == fits, || "try_copy".into());
                if let Some(a) = a { let b = VBox::<Array<u8, $L>>::new(a); c.ck("C10 C03", b[..] == v[..] && b.len_short().as_usize() == n, || "try_copy contents".into()); }
                let a = Array::<u8, $L>::try_clone_from_slice(&v);
                c.ck("C10", a.is_some() == fits, || "try_clone_from_slice".into());
                if let Some(a) = a { let b = VBox::<Array<u8, $L>>::new(a); c.ck("C10 C03", b[..] == v[..], || "try_clone_from_slice contents".into()); }
                let s = std::str::from_utf8(&v).unwrap();
                { let a = Str::<$L>::try_copy(s);
                c.ck("C10", a.is_some() == fits, || "Str::try_copy".into());
                if let Some(a) = a { let b = VBox::<Str<$L>>::new(a); c.ck("C10 C11", b.as_bytes() == &v[..], || "Str::try_copy contents".into()); } }
                c.off(move || drop(v));
            });
        }
    )*}}
    l!(u8, u16, u32, u64, usize);
}

fn strings(c: &mut Ctx) {
    c.test = "strings".into();
    c.case("every pair of special characters".into(), "C07", "C08 C11", "C11 C03", |c| {
        for a in crate::el::CHARS { for z in crate::el::CHARS { for mid in ["", "x"] {
            let s = c.off(|| format!("{}{}{}", a, mid, z));
            let mut b: VBox<Str> = VBox::new(Str::copy(&s));
            c.ck("C11", b.as_bytes() == s.as_bytes(), || format!("{:?} is held as {:?}", s, b.as_bytes()));
            let mut d: VBox<Str<u8>> = VBox::new(Str::try_copy(&s).unwrap());
            let e: VBox<Str<u8>> = VBox::new(d.vclone());
            c.ck("C11", d.as_bytes() == s.as_bytes() && e.as_bytes() == s.as_bytes(), || format!("{:?} is held as {:?}, cloned as {:?}", s, d.as_bytes(), e.as_bytes()));
            c.ck("C11", b.as_mut().mut_slice().as_bytes() == s.as_bytes() && d.as_mut().mut_slice().as_bytes() == s.as_bytes(), || format!("mutable view of {:?}", s));
            c.off(move || drop(s));
        } } }
    });
    let mut r = Rng(c.seed ^ 0x57A);
    for k in 0..if c.thorough { 3000 } else { 300 } {
        let s = gstr(&mut r, if k % 9 == 0 { 90 } else { 12 });
        macro_rules! one { ($($L:ty),*) => {$(
            if s.len() as u128 <= <$L>::MAX as u128 {
                c.case(format!("Str<{}> {:?}", stringify!($L), s), "C07", "C08 C11", "C11 C03", |c| {
                    let hd = std::mem::size_of::<$L>();
                    place::<Str<$L>, _>(c, Str::<$L>::try_copy(&s).unwrap(), (hd + s.len(), hd), |c, mut x| {
                        c.ck("C11 C03", x.as_bytes() == s.as_bytes(), || format!("holds {:?}", x.as_bytes()));
                        c.ck("C11", std::str::from_utf8(x.as_bytes()).is_ok(), || "not UTF-8".into());
                        let raw = unsafe { std::slice::from_raw_parts(&*x as *const Str<$L> as *const u8, hd + s.len()) };
                        c.ck("C11", &raw[hd..] == s.as_bytes(), || "bytes of the object".into());
                        let b = VBox::<Str<$L>>::new(x.vclone());
                        let mut d = VBox::<Str<$L>>::new(x.vcopy());
                        c.ck("C11 C12", &b[..] == s.as_str() && &d[..] == s.as_str(), || "clone or copy".into());
                        let m = d.as_mut().mut_slice();
                        c.ck("C11", m.len() == s.len(), || "mut_slice".into());
                        m.make_ascii_uppercase();
                        c.ck("C11", d.eq_ignore_ascii_case(&s) && !d.bytes().any(|b| b.is_ascii_lowercase()), || "after mutation".into());
                        c.ck("C11 C12", &x[..] == s.as_str() && &b[..] == s.as_str(), || "mutating the copy changed the original".into());
                        x.as_mut().mut_slice().make_ascii_lowercase();
                        c.ck("C11", x.eq_ignore_ascii_case(&s) && raw.len() == hd + x.len(), || "after mutation".into());
                    });
                    if hd == 8 {
                        let t: VBox<Str> = VBox::new(Str::copy(&s));
                        c.ck("C11", &t[..] == s.as_str(), || "Str::copy".into());
                    }
                });
            }
        )*}}
        one!(u8, u16, u32, u64, usize);
    }
}

fn fixed(c: &mut Ctx) {
    c.test = "fixed-length and newtype objects".into();
    macro_rules! f { ($($T:ty = $v:expr, $get:expr);*) => {$(
        c.case(format!("FixedLen<{}>", stringify!($T)), VT, MT, PT, |c| {
            let w = (std::mem::size_of::<$T>(), std::mem::align_of::<$T>());
            let g = $get;
            place::<FixedLen<$T>, _>(c, FixedLen($v), w, |c, x| {
                c.ck("C03", g(&x.0), || "value".into());
                let k = track::clones();
                let b = VBox::<FixedLen<$T>>::new(x.vclone());
                c.ck("C12", g(&b.0), || "clone".into());
                c.ck("C12", track::clones() - k == (stringify!($T) == "D") as usize, || "number of clones".into());
                drop(b);
                c.ck("C12", g(&x.0), || "the original changed".into());
            });
            place::<gen::Nt<FixedLen<$T>>, _>(c, gen::NtInit(FixedLen($v)), w, |c, mut x| {
                c.ck("C03 C14", g(&x.inner().0), || "newtype".into());
                c.ck("C14", &x.as_mut().inner_mut().0 as *const $T as usize == &*x as *const gen::Nt<FixedLen<$T>> as *const u8 as usize, || "newtype field".into());
            });
            drop(VBox::<FixedLen<$T>>::new(FixedLen($v)));
        })
    );*}}
    f!(u8 = 7, |x: &u8| *x == 7; u64 = 7 << 40, |x: &u64| *x == 7 << 40; () = (), |_: &()| true; Al = Al(5), |x: &Al| x.0 == 5;
       [u8; 5] = [1, 2, 3, 4, 5], |x: &[u8; 5]| *x == [1, 2, 3, 4, 5]; D = D::new(3), |x: &D| x.get() == Some(3); Z = Z::new(), |_: &Z| true);
}

pub fn adr<T: ?Sized>(x: &T) -> usize { x as *const T as *const u8 as usize }

fn tuples(c: &mut Ctx) {
    c.test = "tuples".into();
    let mut r = Rng(c.seed ^ 0x7);
    for _ in 0..if c.thorough { 2000 } else { 200 } {
        let (n1, n2, n3, n4) = (r.to(7), r.to(20), r.to(4), r.to(9));
        let s: String = "stuvwxyzabcdefghijkl"[..n2].to_string();
        let lays = |k: usize| -> (Vec<usize>, usize, usize) {
            // Array<u16,u8>, Str<u8>, Array<D,u16>, FixedLen<u64>, Array<u8,u32>
            let fs = [(2 + 2 * n1, 2), (1 + n2, 1), (4 + 12 * n3, 4), (8, 8), (4 + n4, 4)];
            let (mut o, mut e, mut al) = (vec![], 0, 1);
            for f in &fs[..k] { let x = up(e, f.1); o.push(x); e = x + f.0; al = al.max(f.1) }
            (o, e, al)
        };
        let a1 = move || SizedInit(n1 as u8, FillSequentially(|i| i as u16 + 1));
        let a3 = move || SizedInit(n3 as u16, FillSequentially(|i| D::new(i as u32 + 50)));
        let a5 = move || SizedInit(n4 as u32, FillSequentially(|i| i as u8 + 200));
        type A1 = Array<u16, u8>;
        type S2 = Str<u8>;
        type A3 = Array<D, u16>;
        type F4 = FixedLen<u64>;
        type A5 = Array<u8, u32>;
        let ok1 = move |x: &A1| x.len() == n1 && (0..n1).all(|i| x[i] == i as u16 + 1);
        let ok3 = move |x: &A3| x.len() == n3 && (0..n3).all(|i| x[i].get() == Some(i as u32 + 50));
        let ok5 = move |x: &A5| x.len() == n4 && (0..n4).all(|i| x[i] == i as u8 + 200);
        macro_rules! tup { ($N:ident, $m:ident, $k:expr, [$($f:ident $t:ty, $init:expr, $ok:expr, $mu:expr);*]) => {
            c.case(format!("{} {:?}", stringify!($N), (n1, n2, n3, n4)), VT, MT, PT, |c| {
                let (offs, size, al) = c.off(|| lays($k));
                let nd = if $k >= 3 { n3 } else { 0 };
                place::<$N<$($t),*>, _>(c, $m::Init($($init),*), (size, al), |c, mut x| {
                    let base = adr(&*x);
                    let good = |x: &$N<$($t),*>| { let $m::Refs($($f),*) = x.refs(); [$($ok($f)),*] };
                    let g = good(&x);
                    c.ck("C03", g.iter().all(|b| *b), || format!("fields read back: {:?}", g));
                    { let $m::Refs($($f),*) = x.refs(); let mut i = 0; $( { let a = adr($f) - base; c.ck("C14 C01", a == offs[i], || format!("field {} at {}, expected {}", i, a, offs[i])); c.ck("C14", adr($f) % <$t as VarLen>::ALIGN == 0, || "field alignment".into()); i += 1; } )* let _ = i; }
                    let k = track::clones();
                    let b = VBox::<$N<$($t),*>>::new(x.vclone());
                    c.ck("C12", track::clones() - k == nd, || format!("{} clones for {} values", track::clones() - k, nd));
                    c.ck("C12", good(&b).iter().all(|b| *b) && good(&x).iter().all(|b| *b), || "clone or original".into());
                    c.ck("C12", b.calculate_layout().size() == size, || "layout of the clone".into());
                    let mv = VBox::<$N<$($t),*>>::new(b);
                    c.ck("C03 C07", good(&mv).iter().all(|b| *b), || "moved box".into());
                    drop(mv);
                    c.ck("C12", good(&x).iter().all(|b| *b), || "original after the clone is gone".into());
                    // write one field at a time
                    for i in 0..$k {
                        { let $m::Muts($($f),*) = x.as_mut().muts(); let mut j = 0; $( { if j == i { c.ck("C14", adr(&*$f) - base == offs[i], || format!("mutable field {}", i)); $mu($f); } j += 1; } )* let _ = j; }
                        let g = good(&x);
                        c.ck("C14", g.iter().enumerate().all(|(j, b)| *b == (j > i)), || format!("writing field {} leaves {:?} as they were", i, g));
                    }
                });
            });
        }}
        let m1 = |x: Pin<&mut A1>| { let s = x.mut_slice(); if s.is_empty() { return } s[0] = 999 };
        let m2 = |x: Pin<&mut S2>| x.mut_slice().make_ascii_uppercase();
        let m3 = |x: Pin<&mut A3>| { let s = x.mut_slice(); if s.is_empty() { return } s[0].val = 1 };
        let m4 = |x: Pin<&mut F4>| unsafe { x.get_unchecked_mut().0 = 1 };
        let m5 = |x: Pin<&mut A5>| { let s = x.mut_slice(); if s.is_empty() { return } s[0] = 1 };
        if n1 == 0 || n2 == 0 || n3 == 0 || n4 == 0 {
            // empty fields cannot be told written from unwritten
            c.case(format!("Tup5 with empty fields {:?}", (n1, n2, n3, n4)), VT, MT, PT, |c| {
                let (offs, size, al) = c.off(|| lays(5));
                place::<Tup5<A1, S2, A3, F4, A5>, _>(c, tup5::Init(a1(), Str::try_copy(&s).unwrap(), a3(), FixedLen(4), a5()), (size, al), |c, x| {
                    let tup5::Refs(p, q, u, v, w) = x.refs();
                    c.ck("C03", ok1(p) && &q[..] == s.as_str() && ok3(u) && v.0 == 4 && ok5(w), || "fields".into());
                    let b = adr(&*x);
                    c.ck("C14 C01", [adr(p) - b, adr(q) - b, adr(u) - b, adr(v) - b, adr(w) - b][..] == offs[..], || "places".into());
                });
                c.off(|| drop(offs));
            });
            continue;
        }
        tup!(Tup2, tup2, 2, [p A1, a1(), ok1, m1; q S2, Str::try_copy(&s).unwrap(), |x: &S2| &x[..] == s.as_str(), m2]);
        tup!(Tup3, tup3, 3, [p A1, a1(), ok1, m1; q S2, Str::try_copy(&s).unwrap(), |x: &S2| &x[..] == s.as_str(), m2; u A3, a3(), ok3, m3]);
        tup!(Tup4, tup4, 4, [p A1, a1(), ok1, m1; q S2, Str::try_copy(&s).unwrap(), |x: &S2| &x[..] == s.as_str(), m2; u A3, a3(), ok3, m3; v F4, FixedLen(4), |x: &F4| x.0 == 4, m4]);
        tup!(Tup5, tup5, 5, [p A1, a1(), ok1, m1; q S2, Str::try_copy(&s).unwrap(), |x: &S2| &x[..] == s.as_str(), m2; u A3, a3(), ok3, m3; v F4, FixedLen(4), |x: &F4| x.0 == 4, m4; w A5, a5(), ok5, m5]);
    }
}

fn structs(c: &mut Ctx) {
    c.test = "macro-defined structs".into();
    use gen::*;
    let mut r = Rng(c.seed ^ 0x99);
    for _ in 0..if c.thorough { 3000 } else { 300 } {
        let (n, m, k) = (r.to(9), r.to(9), r.to(30));
        let s = "stuvwxyzabcdefghijklmnopqrstuvw"[..k].to_string();
        c.case(format!("Person name {:?} tags {}", s, n), VT, MT, PT, |c| {
            let o1 = up(std::mem::size_of::<Person>(), 8);
            let o2 = up(o1 + 8 + k, 2);
            place::<Person, _>(c, person::Init { age: 7, name: Str::copy(&s), id: 0xABCDEF, tags: SizedInit(n as u8, FillSequentially(|i| i as u16)) }, (o2 + 2 + 2 * n, 8), |c, mut x| {
                let b = adr(&*x);
                let good = |x: &Person| { let r = x.refs(); [*r.age == 7, &r.name[..] == s.as_str(), *r.id == 0xABCDEF, r.tags.len() == n && (0..n).all(|i| r.tags[i] == i as u16)] };
                c.ck("C03", good(&x) == [true; 4], || format!("{:?}", good(&x)));
                { let r = x.refs(); let a = (adr(r.name) - b, adr(r.tags) - b); c.ck("C14 C01", a == (o1, o2), || format!("fields at {:?}", a)); c.ck("C14", adr(r.age) == adr(&x.age) && adr(r.id) == adr(&x.id), || "header fields".into()); }
                *x.as_mut().muts().age = 8;
                c.ck("C14", good(&x) == [false, true, true, true], || format!("wrote age: {:?}", good(&x)));
                x.as_mut().muts().name.mut_slice().make_ascii_uppercase();
                c.ck("C14", good(&x)[2..] == [true; 2] && good(&x)[1] == (k == 0), || format!("wrote name: {:?}", good(&x)));
                *x.as_mut().muts().id = 8;
                c.ck("C14", good(&x)[2..] == [false, true], || format!("wrote id: {:?}", good(&x)));
                for t in x.as_mut().muts().tags.mut_slice() { *t = 5000 }
                let r = x.refs();
                c.ck("C14", *r.age == 8 && *r.id == 8 && r.name.eq_ignore_ascii_case(&s) && r.tags.len() == n && r.tags.iter().all(|t| *t == 5000), || "wrote tags".into());
            });
        });
        c.case(format!("Mixed n {} m {} s {:?}", n, m, s), VT, MT, PT, |c| {
            let h = std::mem::size_of::<Mixed>();
            let o1 = up(h, 4);
            let o2 = up(o1 + 12 * n, 4);
            let o3 = up(o2 + 4 + k, 8);
            let (n8, m16) = (n as u8, m as u16);
            place::<Mixed, _>(c, mixed::Init { n: n8, tag: D::new(11), m: m16, xs: FillSequentially(|i| D::new(i as u32)), s: Str::try_copy(&s).unwrap(), ys: FillSequentially(|i| i as u64 * 3) }, (o3 + 8 * m, 8), |c, mut x| {
                let b = adr(&*x);
                let good = |x: &Mixed| { let r = x.refs(); [*r.n == n8, r.tag.get() == Some(11), *r.m == m16, r.xs.len() == n && (0..n).all(|i| r.xs[i].get() == Some(i as u32)), &r.s[..] == s.as_str(), r.ys.len() == m && (0..m).all(|i| r.ys[i] == i as u64 * 3)] };
                c.ck("C03", good(&x) == [true; 6], || format!("{:?}", good(&x)));
                { let r = x.refs(); let a = (adr(r.xs) - b, adr(r.s) - b, adr(r.ys) - b); c.ck("C14 C01", a == (o1, o2, o3), || format!("fields at {:?}, expected {:?}", a, (o1, o2, o3))); }
                { let r = x.as_mut().muts(); let a = (adr(r.xs) - b, adr(&*r.s) - b, adr(r.ys) - b); c.ck("C14", a == (o1, o2, o3), || format!("mutable fields at {:?}", a)); }
                for (i, d) in x.as_mut().muts().xs.iter_mut().enumerate() { d.val = 100 + i as u32 }
                c.ck("C14", good(&x) == [true, true, true, n == 0, true, true], || format!("wrote xs: {:?}", good(&x)));
                x.as_mut().muts().tag.val = 3;
                c.ck("C14", good(&x) == [true, false, true, n == 0, true, true], || format!("wrote tag: {:?}", good(&x)));
                for y in x.as_mut().muts().ys.iter_mut() { *y = 1 }
                c.ck("C14", good(&x)[..5] == [true, false, true, n == 0, true], || format!("wrote ys: {:?}", good(&x)));
                for n2 in [n8, n8.wrapping_add(1), n8.wrapping_sub(1), 0, 255, n8 ^ 8] { for m2 in [m16, m16.wrapping_add(1), m16.wrapping_sub(1), 0, m16 + 256] {
                    let ok = x.as_mut().try_set_layout_controllers(mixed::LayoutControllers { n: n2, m: m2 }).is_ok();
                    c.ck("C13", ok == (n2 == n8 && m2 == m16), || format!("set n {} m {} on n {} m {}: {}", n2, m2, n, m, ok));
                    c.ck("C13", x.n == n8 && x.m == m16 && x.tag.get() == Some(3) && x.calculate_layout().size() == o3 + 8 * m, || format!("set n {} m {} changed something", n2, m2));
                } }
            });
        });
        c.case(format!("Arrays len {}", n), VT, MT, PT, |c| {
            let o1 = up(8, 2);
            let o2 = o1 + 2 * n;
            let o3 = up(o2 + n, 4);
            place::<Arrays, _>(c, arrays::Init { len: n, a1: FillSequentially(|i| i as u16), a2: FillSequentially(|i| i as u8), half: FillSequentially(|i| i as u32) }, (o3 + 4 * (n / 2), 8), |c, mut x| {
                let b = adr(&*x);
                let good = |x: &Arrays| { let r = x.refs(); [*r.len == n, r.a1.len() == n && (0..n).all(|i| r.a1[i] == i as u16), r.a2.len() == n && (0..n).all(|i| r.a2[i] == i as u8), r.half.len() == n / 2 && (0..n / 2).all(|i| r.half[i] == i as u32)] };
                c.ck("C03", good(&x) == [true; 4], || format!("{:?}", good(&x)));
                { let r = x.refs(); let a = (adr(r.a1) - b, adr(r.a2) - b, adr(r.half) - b); c.ck("C14 C01", a == (o1, o2, o3), || format!("fields at {:?}", a)); }
                for y in x.as_mut().muts().a2.iter_mut() { *y = 200 }
                c.ck("C14", good(&x) == [true, true, n == 0, true], || format!("wrote a2: {:?}", good(&x)));
                for n2 in 0..12 { if n2 != n {
                    let ok = x.as_mut().try_set_layout_controllers(arrays::LayoutControllers { len: n2 }).is_ok();
                    c.ck("C13", !ok && x.len == n, || format!("set len {} on {}: {}, len now {}", n2, n, ok, x.len));
                } }
                let ok = x.as_mut().try_set_layout_controllers(arrays::LayoutControllers { len: n }).is_ok();
                c.ck("C13", ok && x.len == n, || "set the same length".into());
            });
        });
        c.case(format!("Rounded len {} {}", n, m), VT, MT, PT, |c| {
            // several controller values give the same layout
            let o1 = up(std::mem::size_of::<Rounded>(), 2);
            let o2 = up(o1 + 2 * (n / 4), 8);
            let size = o2 + 8 * (m % 4);
            let (a, b2) = (n as u8, m as u32);
            place::<Rounded, _>(c, rounded::Init { a, b: b2, xs: FillSequentially(|i| i as u16 + 9), ys: FillSequentially(|i| i as u64 + 70) }, (size, 8), |c, mut x| {
                let (mut ca, mut cb) = (a, b2);
                for a2 in 0..24u8 { for bb in 0..9u32 {
                    let ok = x.as_mut().try_set_layout_controllers(rounded::LayoutControllers { a: a2, b: bb }).is_ok();
                    let want = a2 / 4 == a / 4 && bb % 4 == b2 % 4;
                    c.ck("C13", ok == want, || format!("set a {} b {} on a {} b {}: {}", a2, bb, ca, cb, ok));
                    if want { ca = a2; cb = bb }
                    c.ck("C13", (x.a, x.b) == (ca, cb), || format!("after set a {} b {}: a {} b {}, expected {:?}", a2, bb, x.a, x.b, (ca, cb)));
                    c.ck("C13", x.calculate_layout().size() == size, || "the layout changed".into());
                    let r = x.refs();
                    c.ck("C13 C14", r.xs.len() == n / 4 && r.xs.iter().enumerate().all(|(i, v)| *v == i as u16 + 9) && r.ys.len() == m % 4 && r.ys.iter().enumerate().all(|(i, v)| *v == i as u64 + 70), || "array contents changed".into());
                    if c.stop { return }
                } }
            });
        });
        c.case(format!("GenField {:?}, GenArr<D> {}", s, n), VT, MT, PT, |c| {
            place::<GenField<Str<u16>>, _>(c, gen_field::Init { k: 5, f: Str::try_copy(&s).unwrap() }, (2 + 2 + k, 2), |c, mut x| {
                c.ck("C03", &x.refs().f[..] == s.as_str() && *x.refs().k == 5, || "GenField".into());
                c.ck("C14", adr(x.refs().f) - adr(&*x) == 2, || "GenField place".into());
                *x.as_mut().muts().k = 9;
                c.ck("C14", &x.refs().f[..] == s.as_str(), || "GenField".into());
            });
            let o1 = up(2, 4);
            place::<GenArr<D>, _>(c, gen_arr::Init { len: n as u16, xs: FillSequentially(|i| D::new(i as u32)), ys: FillSequentially(|i| D::new(i as u32 + 100)) }, (o1 + 12 * n + 12 * (n / 4), 4), |c, x| {
                let r = x.refs();
                c.ck("C03", r.xs.len() == n && r.ys.len() == n / 4 && (0..n).all(|i| r.xs[i].get() == Some(i as u32)) && (0..n / 4).all(|i| r.ys[i].get() == Some(i as u32 + 100)), || "GenArr".into());
                c.ck("C14 C01", adr(r.xs) - adr(&*x) == o1 && adr(r.ys) - adr(&*x) == o1 + 12 * n, || "GenArr places".into());
            });
        });
    }
    // alignment decided by each field in turn
    c.case("alignments".into(), "C07", "C08", "C01", |c| {
        macro_rules! al { ($($t:ty = $a:expr),*) => {$( c.ck("C01", <$t as VarLen>::ALIGN == $a, || format!("{} has ALIGN {}, expected {}", stringify!($t), <$t as VarLen>::ALIGN, $a)); )*}}
        al!(Person = 8, Arrays = 8, Mixed = 8, GenField<Str<u16>> = 2, GenField<Array<Al, u8>> = 16, GenArr<u64> = 8, GenArr<u8> = 2, GenArr<Al> = 16, Two = 8, Rounded = 8,
            Array<u8, u8> = 1, Array<u8, u32> = 4, Array<Al, u8> = 16, Str<u16> = 2, Str = 8, FixedLen<Al> = 16, Nt<Str<u16>> = 2,
            Tup2<Str<u8>, Str<u16>> = 2, Tup2<Str<u64>, Str<u16>> = 8, Tup3<Str<u8>, Str<u32>, Str<u16>> = 4, Tup4<Str<u8>, Str<u8>, Str<u8>, Str<u8>> = 1,
            Tup4<Str<u8>, Str<u8>, Str<u8>, Array<Al, u8>> = 16, Tup5<Str<u8>, Str<u8>, Str<u8>, Str<u8>, Str<u16>> = 2, Tup5<Array<Al, u8>, Str<u8>, Str<u8>, Str<u8>, Str<u16>> = 16);
    });
    c.case("NEEDS_VDROP".into(), "C07", "C08", "C16", |c| {
        macro_rules! nd { ($($t:ty),*; $w:expr) => {$( c.ck("C16", <$t as VarLen>::NEEDS_VDROP == $w, || format!("{} has NEEDS_VDROP {}", stringify!($t), <$t as VarLen>::NEEDS_VDROP)); )*}}
        nd!(Array<D, u8>, Array<Z>, Array<String, u32>, Array<Box<u8>>, FixedLen<D>, FixedLen<Z>, FixedLen<String>, Mixed, Behind, GenArr<D>, GenField<Array<D>>, Nt<Array<D>>, Tail, HeadOnly, Late, Mark, Flat, ZArr, GenField<Mark>, Tup2<Str, Mark>, Nt<Mark>,
            Tup2<Array<D>, Str>, Tup2<Str, Array<D>>, Tup3<Str, Str, Array<D>>, Tup3<Str, Array<D>, Str>, Tup4<Str, Str, Str, Array<D>>, Tup4<Str, Array<D>, Str, Str>, Tup5<Str, Str, Str, Str, Array<D>>, Tup5<Str, Str, Str, Array<D>, Str>,
            Tup2<Mixed, Str>, GenField<Tup2<Str, FixedLen<D>>>; true);
        nd!(Array<u8>, Array<u64, u8>, Str, Str<u8>, Person, Arrays, Two, Rounded, Grid, GenArr<u16>, GenField<Str>, Nt<Str>, Tup2<Str, Str>, Tup3<Str, Array<u8>, Person>, Tup5<Str, Str, Str, Str, Str>; false);
    });
    c.case("values of the less usual structs".into(), VT, MT, PT, |c| {
        place::<Mark, _>(c, mark::Init { a: 5, z: Z::new() }, (2, 2), |c, x| { c.ck("C03", *x.refs().a == 5, || "Mark".into()); });
        place::<Flat, _>(c, flat::Init { a: 1, b: D::new(2), c: Z::new(), d: 3 }, (24, 8), |c, x| { let r = x.refs(); c.ck("C03", (*r.a, r.b.get(), *r.d) == (1, Some(2), 3), || "Flat".into()); });
        for n in 0..4u32 {
            place::<ZArr, _>(c, z_arr::Init { q: 1, n, f: Str::try_copy("zz").unwrap(), xs: FillSequentially(|_| Z::new()) }, (16 + 1 + 2, 8), |c, x| { let r = x.refs(); c.ck("C03 C14", (*r.q, r.xs.len() as u32, &r.f[..]) == (1, n, "zz"), || "ZArr".into()); });
        }
        for (r, k, col) in [(0u8, 0u8, 0u16), (1, 0, 5), (3, 1, 2), (7, 250, 0), (255, 255, 3), (0, 255, 65535)] {
            let (ru, cu, ku) = (r as usize, col as usize, k as usize);
            let h = std::mem::size_of::<Grid>();
            let w = up(up(h, 2) + 2 * ru * cu + ku + ru, 4) + 4 * ru;
            place::<Grid, _>(c, grid::Init { r, c: col, t: 9, k, cells: FillSequentially(|i| i as u16), mix: FillSequentially(|i| i as u8 ^ 5), rows: FillSequentially(|i: usize| !i as u32) }, (w, 4), |c, mut x| {
                { let y = x.refs(); c.ck("C03 C14", (*y.r, *y.c, *y.k, *y.t, y.cells.len(), y.mix.len(), y.rows.len()) == (r, col, k, 9, ru * cu, ku + ru, ru), || "lengths of Grid".into());
                  c.ck("C03 C14", y.cells.iter().enumerate().all(|(i, v)| *v == i as u16) && y.mix.iter().enumerate().all(|(i, v)| *v == i as u8 ^ 5) && y.rows.iter().enumerate().all(|(i, v)| *v == !i as u32), || "contents of Grid".into()); }
                for (r2, c2, k2) in [(r, col, k), (r.wrapping_add(1), col, k), (r, col.wrapping_add(1), k), (r, col, k.wrapping_add(1)), (col as u8, r as u16, k), (r.wrapping_add(1), col, k.wrapping_sub(1))] {
                    let same = r2 == r && r2 as usize * c2 as usize == ru * cu && k2 as usize + r2 as usize == ku + ru;
                    let b4 = (*x.refs().r, *x.refs().c, *x.refs().k);
                    let ok = x.as_mut().try_set_layout_controllers(grid::LayoutControllers { r: r2, c: c2, k: k2 }).is_ok();
                    c.ck("C13", ok == same, || format!("setting {:?} on {:?} gives {}", (r2, c2, k2), b4, ok));
                    let now = (*x.refs().r, *x.refs().c, *x.refs().k);
                    c.ck("C13", now == if ok { (r2, c2, k2) } else { b4 }, || format!("{:?} afterwards", now));
                    if ok { x.as_mut().try_set_layout_controllers(grid::LayoutControllers { r, c: col, k }).ok(); }
                }
            });
        }
        for (m, n, bomb) in [(0u8, 0u8, false), (1, 0, true), (3, 4, false), (5, 2, true), (0, 255, true), (255, 255, false)] {
            let (len, h) = (m as usize + n as usize, std::mem::size_of::<Behind>());
            place::<Behind, _>(c, behind::Init { xs: FillSequentially(|i| i as u16 ^ 21), plain: 8, s: Str::try_copy("tail").unwrap(), m: Bd::new(m, bomb), n }, (up(h + 2 * len, 4) + 8, 4), |c, mut x| {
                let sees = |c: &mut Ctx, t: &str, x: &Behind, m: u8, n: u8| {
                    let r = x.refs();
                    c.ck(t, (r.xs.len(), *r.plain, &r.s[..], r.m.n(), *r.n, r.m.get()) == (len, 8, "tail", m as usize, n, Some(m as u32)) && r.xs.iter().enumerate().all(|(i, v)| *v == i as u16 ^ 21), || format!("Behind holds {:?}, of which {} and {} control {}", (r.xs.len(), *r.plain), r.m.n(), *r.n, len));
                };
                sees(c, "C03 C14", &x, m, n);
                if c.stop { return }
                let r = x.as_mut().try_set_layout_controllers(behind::LayoutControllers { m: Bd::new(m, false), n: n ^ 1 });
                c.ck("C13", r.is_err(), || "a length changed".into());
                sees(c, "C13", &x, m, n);
                // the value replaced has a destructor that panics
                let (m2, n2) = if m > 0 && n < 255 { (m - 1, n + 1) } else if n > 0 && m < 255 { (m + 1, n - 1) } else { (m, n) };
                let r = c.caught(|| x.as_mut().try_set_layout_controllers(behind::LayoutControllers { m: Bd::new(m2, false), n: n2 }).is_ok());
                c.ck("C13", r == if bomb { None } else { Some(true) }, || format!("setting {:?} on {:?} gives {:?}", (m2, n2), (m, n), r));
                sees(c, "C13", &x, m2, n2);
            });
        }
        place::<Tail, _>(c, tail::Init { n: 3, s: Str::try_copy("ab").unwrap(), xs: FillSequentially(|i| D::new(i as u32)) }, (up(up(1, 1) + 1 + 2, 4) + 36, 4), |c, x| { c.ck("C03", x.refs().xs[2].get() == Some(2), || "Tail".into()); });
        place::<HeadOnly, _>(c, head_only::Init { d: D::new(4), n: 2, xs: FillSequentially(|i| i as u8) }, (up(std::mem::size_of::<HeadOnly>(), 1) + 2, 4), |c, x| { c.ck("C03", x.refs().d.get() == Some(4) && x.refs().xs == [0, 1], || "HeadOnly".into()); });
        place::<Late, _>(c, late::Init { a: Str::try_copy("xyz").unwrap(), b: Array::try_copy(&[1u16, 2]).unwrap(), c: SizedInit(2u8, FillSequentially(|i| D::new(i as u32))) }, (up(up(4, 2) + 2 + 4, 4) + 4 + 24, 4), |c, x| { let r = x.refs(); c.ck("C03", &r.a[..] == "xyz" && r.b[..] == [1, 2] && r.c[1].get() == Some(1), || "Late".into()); });
    });
}

fn lifted(c: &mut Ctx) {
    use gen::*;
    c.test = "newtypes and initializers with methods of their own".into();
    for n in [0usize, 1, 2, 7, 255] {
        c.case(format!("lifted initializer of {}", n), "C07", "C08", "C01 C02 C03 C07 C08", |c| {
            place::<Array<D, u8>, _>(c, Lift(Trick(SizedInit(n as u8, FillSequentially(|i| D::new(i as u32 ^ 3))))), (4 + 12 * n, 4), |c, x| {
                c.ck("C03", x.len() == n && x.iter().enumerate().all(|(i, v)| v.get() == Some(i as u32 ^ 3)), || "the lifted initializer's object".into());
            });
        });
        c.case(format!("newtype of {}", n), "C07", "C08", "C01 C02 C03 C07 C08", |c| {
            place::<NtDecoy, _>(c, NtDecoyInit(decoy::Init { n: n as u8, xs: FillSequentially(|i| D::new(i as u32 ^ 3)) }), (up(1, 4) + 12 * n, 4), |c, x| {
                let r = x.inner().refs();
                c.ck("C03 C14", r.xs.len() == n && r.xs.iter().enumerate().all(|(i, v)| v.get() == Some(i as u32 ^ 3)), || "the newtype's contents".into());
            });
            drop(VBox::<NtDecoy>::new(NtDecoyInit(decoy::Init { n: n as u8, xs: FillSequentially(|i| D::new(i as u32)) })));
        });
    }
}

fn boxes(c: &mut Ctx) {
    c.test = "boxes and owned references".into();
    for n in 0..7usize {
        type A = Array<D, u8>;
        let mk = move || SizedInit(n as u8, FillSequentially(|i| D::new(i as u32)));
        let ok = move |a: &A| a.len() == n && (0..n).all(|i| a[i].get() == Some(i as u32));
        c.case(format!("box of {}", n), VT, MT, PT, |c| {
            let mut b: VBox<A> = VBox::new(mk());
            c.ck("C03", ok(&b) && ok(&b.as_mut()), || "contents".into());
            let p = &*b as *const A as *const u8 as usize;
            let blk = alloc::block_of(p);
            c.ck("C08", blk == Some((p, 4 + 12 * n, 4)), || format!("block {:?}", blk));
            let r = unsafe { VBox::into_raw(b) };
            let b = unsafe { VBox::from_raw(r) };
            c.ck("C07 C03", ok(&b), || "from_raw".into());
            let b2 = b.clone();
            c.ck("C12", ok(&b) && ok(&b2), || "clone".into());
            for m in 0..7usize {
                let mut b3: VBox<A> = VBox::new(SizedInit(m as u8, FillSequentially(|i| D::new(90 + i as u32))));
                b3.clone_from(&b);
                c.ck("C12", ok(&b) && ok(&b3) && adr(&*b3) != adr(&*b), || format!("clone_from over {}", m));
                c.ck("C12 C08", alloc::block_of(adr(&*b3)) == Some((adr(&*b3), 4 + 12 * n, 4)), || format!("clone_from over {}: block", m));
            }
            drop(b);
            c.ck("C12 C07", ok(&b2), || "clone after the original".into());
            for s in ["", "x", "yz", "hello", "hellow", "12345678"] { for u in ["", "x", "ab", "world", "worlds", "abcdefgh"] {
                let mut x: VBox<Str<u8>> = VBox::new(Str::try_copy(s).unwrap());
                let y: VBox<Str<u8>> = VBox::new(Str::try_copy(u).unwrap());
                x.clone_from(&y);
                c.ck("C12 C11", &x[..] == u && &y[..] == u, || format!("clone_from of {:?} over {:?}: {:?}", u, s, x.as_bytes()));
                c.ck("C12", adr(&*x) != adr(&*y), || "same storage".into());
                let mut x: VBox<Tup2<Str<u8>, Array<u16, u8>>> = VBox::new(tup2::Init(Str::try_copy(s).unwrap(), Array::try_copy(&[1u16, 2]).unwrap()));
                let y: VBox<Tup2<Str<u8>, Array<u16, u8>>> = VBox::new(tup2::Init(Str::try_copy(u).unwrap(), Array::try_copy(&[3u16, 4, 5]).unwrap()));
                x.clone_from(&y);
                c.ck("C12", &x.refs().0[..] == u && x.refs().1[..] == [3, 4, 5], || format!("clone_from of a tuple with {:?} over {:?}", u, s));
            } }
            let t: VBox<Tup2<A, Str>> = VBox::new(tup2::Init(b2, Str::copy("t")));
            c.ck("C03 C07", ok(t.refs().0) && &t.refs().1[..] == "t", || "box moved into a tuple".into());
            let mut q: Seq<Tup2<A, Str>> = Seq::new();
            q.push(t);
            c.ck("C03 C07", ok(q.iter().next().unwrap().refs().0), || "box moved into a sequence".into());
            let o = q.take_elems().next().unwrap();
            let b3 = VBox::new(o);
            c.ck("C03 C07", ok(b3.refs().0), || "owned object moved into a box".into());
        });
        c.case(format!("owned in an arena, {}", n), VT, MT, PT, |c| {
            let bump = c.off(bumpalo::Bump::new);
            let a = alloc::disarm();
            {
                let mut o: Owned<A> = Owned::new_in(mk(), &bump);
                c.ck("C03", ok(&o) && ok(&o.as_mut()), || "contents".into());
                c.ck("C08 C04", adr(&*o) % 4 == 0, || "alignment".into());
                let o = unsafe { Owned::<A>::from_raw(o.into_raw()) };
                c.ck("C03 C07", ok(&o), || "from_raw".into());
                let o2: Owned<Tup2<Str, A>> = Owned::new_in(tup2::Init(Str::copy("kk"), o), &bump);
                c.ck("C03 C07", ok(o2.refs().1) && &o2.refs().0[..] == "kk", || "owned moved into an owned tuple".into());
                let _other: Owned<A> = Owned::new_in(mk(), &bump);
                let big: Owned<Array<Al, u8>> = Owned::new_in(SizedInit(3u8, FillSequentially(|i| Al(i as u64))), &bump);
                c.ck("C08 C03", adr(&*big) % 16 == 0 && big[2].0 == 2, || "aligned".into());
                let l: Owned<A> = Owned::new_in(mk(), &bump);
                for d in l.iter() { track::leak(d.id()) }
                let l = l.leak();
                c.ck("C07", ok(&l), || "leaked".into());
                // given up by into_raw
                let g: Owned<A> = Owned::new_in(mk(), &bump);
                for d in g.iter() { track::leak(d.id()) }
                let g = unsafe { g.into_raw() };
                c.ck("C07", ok(unsafe { g.as_ref() }), || "raw".into());
            }
            drop(bump);
            alloc::set(a);
        });
        c.case(format!("initializer panics at {}", n), "C07 C09", "", PT, |c| {
            // values written before the panic may be lost, but are never dropped twice
            c.lax = true;
            let x = c.caught(|| { let _b: VBox<A> = VBox::new(SizedInit(6u8, FillSequentially(|i| if i == n { panic!("at {}", i) } else { D::new(i as u32) }))); });
            c.ck("C09 C07", x.is_none() == (n < 6), || "panic".into());
            let d = D::new(9);
            let x = c.caught(move || { let _b: VBox<Tup2<FixedLen<D>, A>> = VBox::new(tup2::Init(FixedLen(d), SizedInit(6u8, FillSequentially(|i| if i == n { panic!() } else { D::new(i as u32) })))); });
            c.ck("C09 C07", x.is_none() == (n < 6), || "panic".into());
            let l = alloc::live();
            c.left = l;
        });
    }
    c.case("zero-sized box".into(), VT, MT, PT, |c| {
        let r = alloc::requests();
        let b: VBox<FixedLen<()>> = VBox::new(FixedLen(()));
        let z: VBox<FixedLen<Z>> = VBox::new(FixedLen(Z::new()));
        let b2: VBox<Tup2<FixedLen<()>, FixedLen<Z>>> = VBox::new(tup2::Init(b, z));
        let e: VBox<FixedLen<[Al; 0]>> = VBox::new(FixedLen([]));
        c.ck("C08", adr(&*e) % 16 == 0 && adr(&*e) != 0, || "aligned".into());
        drop(b2);
        c.ck("C08", alloc::requests() == r, || "memory was requested for nothing".into());
    });
    c.case("clone that panics".into(), "C07", "", PT, |c| {
        struct P(u32, D);
        impl Clone for P { fn clone(&self) -> P { if self.0 == 2 { panic!() } P(self.0, self.1.clone()) } }
        let b: VBox<Array<P, u8>> = VBox::new(SizedInit(4u8, FillSequentially(|i| P(i as u32, D::new(i as u32)))));
        let x = c.caught(|| { let _ = b.clone(); });
        c.ck("C07 C12", x.is_none() && b.iter().all(|p| p.1.get().is_some()), || "original after a failed clone".into());
        c.lax = true;
        drop(b);
        c.left = alloc::live();
    });
}

fn inits(c: &mut Ctx) {
    c.test = "array initializers".into();
    fn run<T, I: ArrayInitializer<T>>(i: I, n: usize) -> Option<Vec<T>> {
        let mut v: Vec<MaybeUninit<T>> = Vec::with_capacity(n);
        for _ in 0..n { v.push(MaybeUninit::uninit()) }
        unsafe { std::ptr::write_bytes(v.as_mut_ptr() as *mut u8, 0xEE, n * std::mem::size_of::<T>()) };
        i.initialize(&mut v);
        Some(v.into_iter().map(|x| unsafe { x.assume_init() }).collect())
    }
    for n in (0..12usize).chain([15, 16, 17, 31, 32, 33, 63, 64, 65, 96, 127, 128, 129, 159, 192, 255, 256, 257, 320, 512, 1000]) {
        c.case(format!("FillSequentially, default {}", n), "C07 C09", "", "C09", |c| {
            c.left = 0;
            let a = alloc::disarm();
            let mut seen = vec![];
            let v = run(FillSequentially(|i| { seen.push(i); D::new(i as u32) }), n).unwrap();
            c.ck("C09", seen == (0..n).collect::<Vec<_>>(), || format!("called with {:?}", seen));
            c.ck("C09", v.iter().enumerate().all(|(i, d)| d.get() == Some(i as u32)), || "values".into());
            drop(v);
            let v: Vec<D> = run(FillWithDefault, n).unwrap();
            c.ck("C09", v.iter().all(|d| d.get() == Some(77)), || "defaults".into());
            drop(v);
            alloc::set(a);
        });
        for k in if n < 12 { [0usize, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13] } else { [0, 1, 8, n / 2, n - 9, n - 8, n - 2, n - 1, n, n + 1, n + 2, n + 7, n + 8, 2 * n] } {
            c.case(format!("sources of {} for {}", k, n), "C07 C09", "", "C09", |c| {
                let a = alloc::disarm();
                c.lax = true;
                let src: Vec<u16> = (0..k as u16).map(|x| x.wrapping_mul(7) + 1).collect();
                let r = c.caught(|| run(CopyFrom(&src), n)).flatten();
                c.ck("C09", r == if k == n { Some(src.clone()) } else { None }, || format!("CopyFrom gives {:?}", r));
                let ds: Vec<D> = (0..k as u32).map(D::new).collect();
                let cl = track::clones();
                let r = c.caught(|| run(CloneFrom(&ds), n)).flatten();
                c.ck("C09", r.is_some() == (k == n), || "CloneFrom".into());
                if let Some(r) = r { c.ck("C09", track::clones() - cl == n && r.iter().enumerate().all(|(i, d)| d.get() == Some(i as u32)), || "CloneFrom values".into()); }
                c.ck("C09 C07", ds.iter().all(|d| d.get().is_some()), || "CloneFrom dropped its source".into());
                drop(ds);
                let mut it = (0..k as u32).map(D::new);
                let r = c.caught(|| run(FromIterPrefix(&mut it), n)).flatten();
                c.ck("C09", r.is_some() == (k >= n), || "FromIterPrefix".into());
                if let Some(r) = r {
                    c.ck("C09", r.iter().enumerate().all(|(i, d)| d.get() == Some(i as u32)), || "FromIterPrefix values".into());
                    let rest = it.next().map(|d| d.get());
                    c.ck("C09", rest == if k > n { Some(Some(n as u32)) } else { None }, || format!("FromIterPrefix leaves {:?}", rest));
                }
                alloc::set(a);
            });
        }
    }
    macro_rules! mv { ($($N:expr),*) => {$( for n in 0..9usize {
        c.case(format!("MoveFrom [_; {}] for {}", $N, n), "C07 C09", "", "C09", |c| {
            let a = alloc::disarm();
            let mut k = 0;
            let src: [D; $N] = [(); $N].map(|_| { k += 1; D::new(k) });
            let r = c.caught(|| run(MoveFrom(src), n)).flatten();
            c.ck("C09", r.is_some() == (n == $N), || "MoveFrom".into());
            if let Some(r) = r { c.ck("C09 C07", r.iter().enumerate().all(|(i, d)| d.get() == Some(i as u32 + 1)), || "MoveFrom values".into()); }
            if n == 0 {
                let x: [D; $N] = new_array(FillSequentially(|i| D::new(i as u32 + 5)));
                c.ck("C09", x.iter().enumerate().all(|(i, d)| d.get() == Some(i as u32 + 5)), || "new_array".into());
                let y: [D; $N] = new_array(CloneFrom(&x));
                c.ck("C09", y.iter().enumerate().all(|(i, d)| d.get() == Some(i as u32 + 5)), || "new_array clone".into());
                drop(x);
                let z: [D; $N] = new_array(MoveFrom(y));
                c.ck("C09 C07", z.iter().enumerate().all(|(i, d)| d.get() == Some(i as u32 + 5)), || "new_array move".into());
                let w: [D; $N] = new_array(FromIterPrefix((0..).map(D::new)));
                c.ck("C09", w.iter().enumerate().all(|(i, d)| d.get() == Some(i as u32)), || "new_array iter".into());
                c.lax = true;
                if $N > 0 { let e: Vec<D> = vec![]; let r = c.caught(|| { let _: [D; $N] = new_array(CloneFrom(&e)); }); c.ck("C09", r.is_none(), || "new_array from too little".into()); }
            }
            alloc::set(a);
        });
    })*}}
    mv!(0, 1, 2, 3, 5, 8);
}

pub fn run(c: &mut Ctx) {
    if c.want("C10") { lengths(c) }
    if c.want("C09") || c.want("C07") { inits(c) }
    if c.want("C11") || c.want("C03") || c.want("C12") { strings(c) }
    if c.want("C02") || c.want("C01") { overflow(c) }
    if "C10 C09 C11".split(' ').any(|t| c.want(t)) { if c.want("C09") { boxes(c) } return }
    if c.want("C12") || c.want("C03") { copies(c) }
    if c.want("C12") { generations(c) }
    fixed(c);
    arrays(c);
    tuples(c);
    structs(c);
    lifted(c);
    boxes(c);
}
