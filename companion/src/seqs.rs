//! Histories of operations on sequences, against a list.
use crate::ctx::*;
use crate::el::*;
use crate::{alloc, track};
use std::ptr::NonNull;
use varlen::prelude::*;
use varlen::seq::{CheckedIndexing, Indexing, UncheckedIndexing};
use varlen::Layout;

pub const VT: &str = "C07 C17 C04";
pub const MT: &str = "C08 C04 C02";
pub const PT: &str = "C04 C05 C06 C07 C08 C15 C17 C18 C02";

#[derive(Clone, Copy, PartialEq)]
enum Bad { LayoutPanics, NoLayout, Before, After }
/// An initializer that goes wrong.
struct Wrong<T: VarLen>(VBox<T>, Bad);
unsafe impl<T: VarLen> Initializer<T> for Wrong<T> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> {
        match self.1 { Bad::LayoutPanics => panic!("layout"), Bad::NoLayout => None, _ => self.0.calculate_layout_cautious() }
    }
    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) {
        let Wrong(b, w) = self;
        if w == Bad::After {
            // bytes arrive, but the object is not finished; its values stay with the box
            std::ptr::copy_nonoverlapping(&*b as *const T as *const u8, dst.as_ptr() as *mut u8, layout.size() / 2);
        }
        panic!("initialize");
    }
}

struct M<S> { v: Vec<(usize, S)>, occ: usize, cap: usize, panicked: bool, taken: bool, need: usize, grew: usize }

fn verify<T: El, Q: Sq<T>>(c: &mut Ctx, q: &mut Q, m: &mut M<T::S>, deep: bool) {
    let x = if m.panicked { " C17" } else { "" };
    let tag = |s: &str| format!("{}{}", s, x);
    let (n, occ, cap) = q.facts();
    c.ck(&tag("C04"), n == m.v.len(), || format!("len() is {}, {} were pushed", n, m.v.len()));
    c.ck(&tag("C05"), occ == m.occ, || format!("offset() is {}, expected {}", occ, m.occ));
    c.ck("C18 C04", occ <= cap, || format!("occupied {} of capacity {}", occ, cap));
    c.ck("C18", cap >= m.cap, || format!("capacity shrank from {} to {}", m.cap, cap));
    if cap != m.cap {
        c.ck("C18", m.need > m.cap, || format!("capacity grew from {} to {} although {} fit", m.cap, cap, m.need));
        c.ck("C18", cap >= 2 * m.cap, || format!("capacity grew from {} only to {}", m.cap, cap));
        c.ck("C18", cap >= m.need, || format!("capacity grew to {}, {} needed", cap, m.need));
        m.cap = cap;
        m.grew += 1;
    }
    if n != m.v.len() { c.stop = true; return }
    // iteration, places
    let al = T::ALIGN;
    let mut base = None;
    let (mut i, mut end) = (0, 0);
    let mut addrs = Vec::new();
    {
        let mut it = q.it();
        loop {
            let rest = n - i;
            c.ck("C15", it.len() == rest && it.size_hint() == (rest, Some(rest)), || format!("{} remain, len {} size_hint {:?}", rest, it.len(), it.size_hint()));
            if i > n { break }
            let e = match it.next() { Some(e) => e, None => break };
            let a = e as *const T as *const u8 as usize;
            if i >= n { c.ck("C15 C04", false, || format!("iterator yields more than {}", n)); break }
            let (o, s) = &m.v[i];
            c.ck(&tag("C04"), a % al == 0, || format!("element {} at {:#x} is not aligned to {}", i, a, al));
            match alloc::block_of(a) {
                Some((b, sz, _)) => {
                    if base.is_none() {
                        base = Some(b);
                        let want = cap * al + if Q::CHECKED { (cap + 7) / 8 } else { 0 };
                        c.ck("C02 C08", sz >= want, || format!("block of {} bytes for capacity {} x {}{}", sz, cap, al, if Q::CHECKED { " and bitmap" } else { "" }));
                    }
                    let rel = a.wrapping_sub(b);
                    let sz = T::lay(s).0;
                    c.ck(&tag("C04"), base == Some(b) && rel >= end && rel + sz <= cap * al, || format!("element {} at byte {} (size {}) of capacity {} bytes, previous end {}", i, rel, sz, cap * al, end));
                    end = rel + sz;
                    let off = q.off_of(e);
                    c.ck(&tag("C05"), off == *o && rel == off * al, || format!("element {}: offset_of {} (byte {}), pushed at {}", i, off, rel, o));
                    c.ck(&tag("C04"), e.calculate_layout().size() == sz, || format!("element {} has size {}, expected {}", i, e.calculate_layout().size(), sz));
                }
                None => { c.ck(&tag("C04 C08"), false, || format!("element {} is outside every live block", i)); return }
            }
            let r = c.off(|| e.read());
            c.ck(&tag("C04"), r.as_ref() == Some(s), || format!("element {} reads {:?}, pushed {:?}", i, r, s));
            addrs.push(a);
            i += 1;
        }
        c.ck("C15 C04", i == n, || format!("iterator yields {} of {}", i, n));
        c.ck("C15", q.it().count() == n && q.itm().count() == n, || "count".into());
    }
    if i != n { c.stop = true; return }
    let mut i = 0;
    {
        let mut it = q.itm();
        loop {
            let rest = n - i;
            c.ck("C15", it.len() == rest && it.size_hint() == (rest, Some(rest)), || format!("mutable: {} remain, len {} size_hint {:?}", rest, it.len(), it.size_hint()));
            match it.next() {
                Some(e) if i < n => { let a = &*e as *const T as *const u8 as usize; c.ck(&tag("C04 C15"), a == addrs[i], || format!("mutable iterator: element {} is elsewhere", i)); i += 1 }
                Some(_) => { c.ck("C15", false, || "mutable iterator yields too many".into()); break }
                None => break,
            }
        }
        c.ck("C15 C04", i == n, || format!("mutable iterator yields {} of {}", i, n));
    }
    if !deep { return }
    // adaptors an iterator type may override
    for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 1] {
        let mut it = q.it();
        let e = it.nth(k).map(|e| e as *const T as *const u8 as usize);
        c.ck("C04 C15", e == addrs.get(k).copied() && it.len() == n.saturating_sub(k + 1), || format!("nth({}) of {}: then {} remain", k, n, it.len()));
        let mut it = q.itm();
        let e = it.nth(k).map(|e| &*e as *const T as *const u8 as usize);
        c.ck("C04 C15", e == addrs.get(k).copied() && it.len() == n.saturating_sub(k + 1), || format!("mutable nth({}) of {}: then {} remain", k, n, it.len()));
        let a: Vec<usize> = c.off(|| q.it().skip(k).map(|e| e as *const T as *const u8 as usize).collect());
        c.ck("C04 C15", a[..] == addrs[k.min(n)..], || format!("skip({}) of {}", k, n));
        let a: Vec<usize> = c.off(|| q.it().step_by(k + 1).map(|e| e as *const T as *const u8 as usize).collect());
        c.ck("C04 C15", a.iter().eq(addrs.iter().step_by(k + 1)), || format!("step_by({}) of {}", k + 1, n));
    }
    {
        c.ck("C04 C15", q.it().last().map(|e| e as *const T as *const u8 as usize) == addrs.last().copied(), || "last".into());
        c.ck("C04 C15", q.itm().last().map(|e| &*e as *const T as *const u8 as usize) == addrs.last().copied(), || "mutable last".into());
        let ok = q.it().fold((0, true), |(i, ok), e| (i + 1, ok && addrs.get(i) == Some(&(e as *const T as *const u8 as usize))));
        c.ck("C04 C15", ok == (n, true), || format!("fold over {}: {:?}", n, ok));
        let mut ok = (0, true);
        q.itm().for_each(|e| { ok.1 &= addrs.get(ok.0) == Some(&(&*e as *const T as *const u8 as usize)); ok.0 += 1 });
        c.ck("C04 C15", ok == (n, true), || format!("mutable for_each over {}: {:?}", n, ok));
        let mut ok = (0, true);
        let r = q.it().try_for_each(|e| { ok.1 &= addrs.get(ok.0) == Some(&(e as *const T as *const u8 as usize)); ok.0 += 1; if ok.0 > n / 2 { Err(()) } else { Ok(()) } });
        c.ck("C04 C15", ok == ((n / 2 + 1).min(n), true) && r.is_err() == (n > n / 2), || format!("try_for_each over {}: {:?}", n, ok));
    }
    // limited
    for k in [0, 1, n / 2, n.saturating_sub(1), n, n + 1, usize::MAX] {
        let a: Vec<usize> = c.off(|| q.it().limited_to(k).map(|e| e as *const T as *const u8 as usize).collect());
        c.ck("C15", a[..] == addrs[..n.min(k)] && q.it().limited_to(k).len() == n.min(k), || format!("limited_to({}) yields {} of {}", k, a.len(), n));
        let a: Vec<usize> = c.off(|| q.itm().limited_to(k).map(|e| &*e as *const T as *const u8 as usize).collect());
        c.ck("C15", a[..] == addrs[..n.min(k)], || format!("mutable limited_to({}) yields {} of {}", k, a.len(), n));
        let mut it = q.it();
        let h = n / 2;
        for _ in 0..h { it.next(); }
        c.ck("C15", it.limited_to(k).count() == (n - h).min(k), || format!("limited_to({}) after {} of {}", k, h, n));
    }
    // offsets
    for i in 0..n {
        let o = m.v[i].0;
        if o < occ {
            let (a, b) = unsafe { (q.at(o) as *const T as *const u8 as usize, &*q.at_mut(o) as *const T as *const u8 as usize) };
            c.ck(&tag("C05"), a == addrs[i] && b == a, || format!("offset {} does not lead to element {}", o, i));
        }
    }
    if occ > 0 && c.want("C05") {
        // references that are not inside
        let e = addrs[0] - m.v[0].0 * al;
        for a in [e.wrapping_add(occ * al), e.wrapping_add(cap * al), e.wrapping_sub(al), e.wrapping_add((occ + 1) * al), al, 0usize.wrapping_sub(al) & !(al - 1)] {
            if a == 0 || a.wrapping_sub(e) / al < occ { continue }
            let t: &T = unsafe { &*(a as *const u8 as *const T) };
            let r = c.quiet(|| q.off_of(t));
            c.ck("C05", r.is_none(), || format!("offset_of a reference {} bytes from the start gives {:?}, occupied {}", a.wrapping_sub(e) as isize, r, occ));
        }
    }
    if Q::CHECKED && (c.want("C06") || c.want("C17") || c.want("C05")) {
        let mut os: Vec<usize> = (0..(occ + 18).min(600)).collect();
        os.extend([cap.wrapping_sub(1), cap, cap + 1, 8 * cap, usize::MAX, usize::MAX - 1, usize::MAX / al, 1 << 63]);
        for o in os {
            let live = m.v.binary_search_by(|p| p.0.cmp(&o));
            let got = q.valid(o);
            c.ck(&tag("C06"), got == Some(live.is_ok()), || format!("is_offset_valid({}) is {:?}, occupied {} capacity {}{}", o, got, occ, cap, if live.is_ok() { ", an element starts there" } else { "" }));
            if got != Some(live.is_ok()) { break }
            if live.is_ok() || o % if o < 64 { 7 } else { 61 } == 3 || o >= occ && (c.thorough || o < occ + 2 || o >= cap.saturating_sub(1)) {
                let r = c.quiet(|| q.checked(o).map(|e| e as *const T as *const u8 as usize));
                c.ck(&tag("C06 C05"), r == live.ok().map(|i| Some(addrs[i])), || format!("from_offset({}) gives {:?}", o, r));
                let r = c.quiet(|| q.checked_mut(o).map(|e| &*e as *const T as *const u8 as usize));
                c.ck(&tag("C06 C05"), r == live.ok().map(|i| Some(addrs[i])), || format!("from_offset_mut({}) gives {:?}", o, r));
            }
        }
    }
    let mut last = None;
    for (o, _) in &m.v { c.ck("C05", last.map_or(true, |l| l < *o), || "offsets do not increase".into()); last = Some(*o); }
}

fn pushed<S>(m: &mut M<S>, s: S, sz: usize, al: usize) {
    let o = m.occ;
    m.occ += (sz.max(1) + al - 1) / al;
    m.need = m.occ;
    m.v.push((o, s));
}

pub fn history<T: El, Q: Sq<T>>(c: &mut Ctx, r: &mut Rng, steps: usize, mild: bool) {
    let al = T::ALIGN;
    let mut m = M { v: vec![], occ: 0, cap: 0, panicked: false, taken: false, need: 0, grew: 0 };
    let mut held: Vec<VBox<T>> = c.off(|| Vec::with_capacity(8));
    let mut q: Q = if r.to(4) == 0 {
        let ss: Vec<T::S> = c.off(|| (0..r.to(7)).map(|_| T::gen(r)).collect());
        c.step(|| format!("collect {:?}", ss));
        // collect may grow step by step
        let q = T::coll::<Q>(&ss);
        for s in c.off(|| ss.clone()) { let sz = T::lay(&s).0; c.off(|| pushed(&mut m, s, sz, al)) }
        m.cap = q.facts().2;
        c.off(|| drop(ss));
        q
    } else { Q::make() };
    let a = alloc::disarm();
    macro_rules! armed { ($e:expr) => {{ alloc::arm(); let r = $e; alloc::disarm(); r }} }
    verify::<T, Q>(c, &mut q, &mut m, false);
    for st in 0..steps {
        if c.stop { break }
        let op = r.to(if mild { 10 } else { 24 });
        match op {
            0..=7 => {
                let s = T::gen(r);
                c.step(|| format!("push {:?}", s));
                let o = q.facts().1;
                let bxd = r.to(5) == 0;
                if bxd { let b = armed!(T::bx(&s)); armed!(q.pushi(b)); } else { armed!(T::push(&mut q, &s)); }
                let sz = T::lay(&s).0;
                pushed(&mut m, s, sz, al);
                let l = m.v.len() - 1;
                c.ck("C05", m.v[l].0 == o, || format!("offset() before the push was {}, expected {}", o, m.v[l].0));
            }
            8 => {
                let ss: Vec<T::S> = (0..r.to(5)).map(|_| T::gen(r)).collect();
                c.step(|| format!("extend {:?}", ss));
                m.cap = q.facts().2;
                armed!(T::ext(&mut q, &ss));
                for s in ss { let sz = T::lay(&s).0; pushed(&mut m, s, sz, al) }
                // grown over several pushes: geometric growth is checked by single pushes
                if q.facts().2 != m.cap { c.ck("C18", q.facts().2 >= 2 * m.cap, || "growth in extend".into()); m.cap = q.facts().2 }
            }
            9 => {
                c.step(|| "mutate all".into());
                { let mut k = 0; for mut e in q.itm() { e.as_mut().mutate(r); if let (Some(s), true) = (e.read(), k < m.v.len()) { m.v[k].1 = s } k += 1 } }
            }
            10 | 11 => {
                let s = T::gen(r);
                let w = r.one(&[Bad::LayoutPanics, Bad::NoLayout, Bad::Before, Bad::After]);
                c.step(|| format!("push that panics {:?} ({})", s, w as u8));
                let b = armed!(T::bx(&s));
                m.need = m.occ + (T::lay(&s).0.max(1) + al - 1) / al;
                let x = c.caught(|| q.pushi(Wrong(b, w)));
                c.ck("C17 C02", x.is_none(), || "the push returned".into());
                m.panicked = true;
            }
            12 => {
                if m.v.len() < 40 {
                    let k = r.to(18);
                    let x = c.caught(|| T::push_huge(&mut q, k));
                    c.step(|| format!("push huge {} {:?}", k, x));
                    m.panicked |= x.is_none();
                    c.ck("C02 C17", x != Some(true), || format!("a push of an impossible size returned ({})", k));
                    m.need = usize::MAX;
                }
            }
            13 => {
                let s = T::gen(r);
                c.step(|| format!("push {:?}, allocation fails", s));
                let need = m.occ + (T::lay(&s).0.max(1) + al - 1) / al;
                let b = armed!(T::bx(&s));
                alloc::fail_next(1);
                let x = c.caught(|| q.pushi(b));
                alloc::fail_next(0);
                if x.is_some() {
                    c.ck("C08 C18", need <= m.cap, || "a push with no memory returned".into());
                    let sz = T::lay(&s).0;
                    pushed(&mut m, s, sz, al)
                } else { m.panicked = true }
            }
            14..=16 => {
                let k = r.to(m.v.len() + 2);
                let mode = r.to(5);
                c.step(|| format!("take_elems, consume {} ({})", k, mode));
                let mut it = armed!(q.take());
                let n = m.v.len();
                c.ck("C04", it.len() == n, || format!("take_elems has {} of {}", it.len(), n));
                let mut i = 0;
                if r.to(5) == 0 {
                    let j = r.to(n + 1);
                    let e = armed!(it.nth(j));
                    c.ck("C15 C04", e.is_some() == (j < n), || format!("owning nth({}) of {}: {}", j, n, e.is_some()));
                    c.ck("C15", it.len() == n.saturating_sub(j + 1), || format!("owning nth({}) of {}: then {} remain", j, n, it.len()));
                    if let Some(e) = e {
                        let s = e.read();
                        c.ck("C15 C04", j < n && s.as_ref() == Some(&m.v[j].1), || format!("owning nth({}) reads {:?}", j, s));
                        armed!(drop(e));
                    }
                    i = (j + 1).min(n);
                }
                while i < k {
                    c.ck("C15", it.len() == n - i.min(n) && it.size_hint() == (n - i, Some(n - i)), || format!("owning: {} remain, len {} size_hint {:?}", n - i, it.len(), it.size_hint()));
                    let e = match armed!(it.next()) { Some(e) => e, None => { c.ck("C15 C04", i == n, || format!("owning iterator stops at {} of {}", i, n)); break } };
                    if i >= n { c.ck("C15 C04", false, || "owning iterator yields too many".into()); std::mem::forget(e); break }
                    let s = e.read();
                    c.ck("C04 C07", s.as_ref() == Some(&m.v[i].1), || format!("taken element {} reads {:?}, pushed {:?}", i, s, m.v[i].1));
                    match mode {
                        0 | 1 => armed!(drop(e)),
                        2 if held.len() < 8 => { let b = armed!(VBox::new(e)); c.ck("C03 C07", b.read().as_ref() == Some(&m.v[i].1), || "moved into a box".into()); held.push(b) }
                        3 => { for id in e.ids() { track::leak(id) } let l = armed!(e.leak()); c.ck("C07", l.read().as_ref() == Some(&m.v[i].1), || "leaked".into()) ; if T::NAME.starts_with("FixedLen<zero") { track::ZN.with(|z| z.set((z.get().0 - 1, z.get().1))) } }
                        4 => { for id in e.ids() { track::leak(id) } unsafe { armed!(e.into_raw()); } if T::NAME.starts_with("FixedLen<zero") { track::ZN.with(|z| z.set((z.get().0 - 1, z.get().1))) } }
                        _ => armed!(drop(e)),
                    }
                    i += 1;
                }
                let rest = it.len();
                if mode == 0 { let mut f = 0; armed!(it.for_each(|e| { f += 1; drop(e) })); c.ck("C15", f == rest, || format!("owning for_each over {} of {}", f, rest)); }
                else if mode == 2 && held.len() < 8 { let e = armed!(it.last()); c.ck("C15", e.is_some() == (rest > 0), || format!("owning last of {}: {}", rest, e.is_some())); if let Some(e) = e { let s = e.read(); c.ck("C15 C04", s.as_ref() == m.v.last().map(|v| &v.1), || format!("owning last reads {:?}", s)); armed!(drop(e)); } }
                else if mode == 1 { let c2 = armed!(it.count()); c.ck("C15", c2 == rest, || format!("owning count {} of {}", c2, rest)) ; } else { armed!(drop(it)) }
                m.v.clear();
                m.occ = 0;
                m.need = 0;
                m.taken = true;
            }
            17 => if let Some(b) = held.pop() {
                let s = b.read();
                c.step(|| format!("push box {:?}", s));
                armed!(q.pushi(b));
                if let Some(s) = s { let sz = T::lay(&s).0; pushed(&mut m, s, sz, al) }
            }
            18 => {
                let i = r.to(m.v.len().max(1));
                if i < m.v.len() {
                    let o = m.v[i].0;
                    c.step(|| format!("mutate at offset {}", o));
                    let mut e = unsafe { q.at_mut(o) };
                    e.as_mut().mutate(r);
                    if let Some(s) = e.read() { m.v[i].1 = s }
                }
            }
            _ => {}
        }
        if !c.stop { let deep = mild || st % 4 == 0 || op >= 10; verify::<T, Q>(c, &mut q, &mut m, deep); }
        if op < 14 && op != 12 && q.facts().2 != m.cap { m.cap = q.facts().2 }
    }
    if m.v.len() > 60 { let bound = 4 + (usize::BITS - m.occ.leading_zeros()) as usize; c.ck("C18", m.grew <= bound, || format!("{} reallocations for {} offsets", m.grew, m.occ)); }
    if c.stop { std::mem::forget(q); std::mem::forget(held); c.lax = true; c.left = alloc::live(); alloc::set(a); return }
    armed!(drop(q));
    for b in held.drain(..) { armed!(drop(b)) }
    drop(held);
    drop(m);
    alloc::set(a);
}

fn both<T: El>(c: &mut Ctx, hs: usize, steps: usize) {
    for h in 0..hs {
        let sd = c.seed.wrapping_mul(1000003).wrapping_add(h as u64);
        let mild = h % 4 == 1;
        let steps = if h % 10 == 0 { 2 * steps } else { 3 + (h * 7) % steps };
        c.case(format!("{} unchecked history {}", T::NAME, sd), VT, MT, PT, |c| history::<T, Seq<T, UncheckedIndexing>>(c, &mut Rng(sd), steps, mild));
        c.case(format!("{} checked history {}", T::NAME, sd), VT, MT, PT, |c| history::<T, Seq<T, CheckedIndexing>>(c, &mut Rng(sd + (1 << 40)), steps, mild));
    }
}
pub fn run(c: &mut Ctx) {
    c.test = "sequence histories".into();
    let (h, s) = if c.thorough { (1500, 60) } else { (110, 40) };
    both::<Str<u8>>(c, h, s);
    both::<Str>(c, h, s);
    both::<Array<u16, u8>>(c, h, s);
    both::<Array<u64>>(c, h, s);
    both::<Array<u8>>(c, h, s);
    both::<Array<D8, u8>>(c, h, s);
    both::<T2>(c, h, s);
    both::<FixedLen<()>>(c, h, s);
    both::<FixedLen<Al>>(c, h, s);
    both::<FixedLen<[u8; 3]>>(c, h, s);
    both::<Array<Al, u8>>(c, h, s);
    both::<Array<u8, u32>>(c, h / 2, s);
    both::<Array<u32, u16>>(c, h / 2, s);
    both::<FixedLen<A64>>(c, h / 2, s);
    both::<T3>(c, h, s);
    both::<FixedLen<crate::track::Z>>(c, h, s);
    long(c);
}
type D8 = crate::track::D;

/// Long fills, so that bitmaps of many bytes are moved and cleared.
fn long(c: &mut Ctx) {
    c.test = "long sequences".into();
    for (n, k) in [(70, 0), (130, 3), (300, 7), (1000, 1)] {
        c.case(format!("{} strings, {} long", n, k), VT, MT, PT, |c| {
            let a = alloc::disarm();
            alloc::arm();
            let mut q: Seq<Str<u8>, CheckedIndexing> = Seq::new_indexable();
            for round in 0..2 {
                let mut want = Vec::with_capacity(if round == 0 { n } else { n / 2 });
                for i in 0..if round == 0 { n } else { n / 2 } {
                    let s = "x".repeat((k * (i + round)) % 11);
                    let o = q.offset();
                    q.push(Str::try_copy(&s).unwrap());
                    want.push((o, s));
                }
                let occ = q.offset();
                let mut w = want.iter().peekable();
                for o in 0..occ + 64 {
                    let live = w.peek().map_or(false, |p| p.0 == o);
                    c.ck("C06", q.is_offset_valid(o) == live, || format!("round {} is_offset_valid({}) is {}", round, o, !live));
                    if live { let s = &w.next().unwrap().1; c.ck("C06 C04 C05", &q.from_offset(o)[..] == s.as_str(), || format!("from_offset({})", o)); }
                    if c.stop { break }
                }
                c.ck("C04", q.iter().map(|s| &s[..]).eq(want.iter().map(|p| p.1.as_str())), || "contents".into());
                drop(q.take_elems());
                for o in 0..occ + 64 { c.ck("C06", !q.is_offset_valid(o), || format!("is_offset_valid({}) after take_elems", o)); if c.stop { break } }
            }
            drop(q);
            alloc::set(a);
        });
    }
    // extend and collect that are cut short: by the iterator, by an initializer, by a size that overflows
    fn cut<I: Indexing>(c: &mut Ctx, before: usize, k: usize, kind: u8, q: Seq<Array<D8>, I>) {
        let mut q = q;
        let item = |i: usize, bad: u8| {
            if bad == 1 { panic!("no more items") }
            let n = if bad == 3 { usize::MAX - 5 } else { i % 4 + (bad == 2) as usize };
            SizedInit(n, FillSequentially(move |j| { if bad != 0 { panic!("not this one") } D8::new((10 * i + j) as u32) }))
        };
        for i in 0..before { q.push(item(i, 0)) }
        let r = c.caught(|| q.extend((before..before + k + 3).map(|i| item(i, if i == before + k { kind } else { 0 }))));
        c.ck("C17", r.is_none(), || "extend returned".into());
        for round in 0..2 {
            let n = before + k + round;
            c.ck("C17 C04", q.len() == n && q.iter().len() == n, || format!("{} elements, {} were pushed", q.len(), n));
            let mut i = 0;
            for a in q.iter().take(n + 1) {
                c.ck("C17 C04", a.len() == i % 4 && a.iter().enumerate().all(|(j, d)| d.get() == Some((10 * i + j) as u32)), || format!("element {}", i));
                i += 1;
            }
            c.ck("C17 C04", i == n, || format!("{} elements visited, {} were pushed", i, n));
            if round == 0 { q.push(item(n, 0)) }
        }
        drop(q);
    }
    for before in [0usize, 1, 3, 9] { for k in [0usize, 1, 2, 3, 5, 8, 20] { for kind in 1..4u8 {
        let what = ["the iterator panics", "an initializer panics", "a size overflows"][kind as usize - 1];
        c.case(format!("extend after {} elements, {} after {} more", before, what, k), VT, MT, PT, |c| cut::<UncheckedIndexing>(c, before, k, kind, Seq::new()));
        c.case(format!("extend of a checked sequence after {} elements, {} after {} more", before, what, k), VT, MT, PT, |c| cut::<CheckedIndexing>(c, before, k, kind, Seq::new()));
    } } }
    // iterators that say nothing, little or too much about how many items they have
    for n in [0usize, 3, 255, 256, 257, 2000] {
        for hint in 0..4 {
            c.case(format!("extend and collect from an iterator of {} items, hint {}", n, hint), VT, MT, PT, |c| {
                struct It(usize, usize, u8);
                impl Iterator for It {
                    type Item = FixedLen<u16>;
                    fn next(&mut self) -> Option<FixedLen<u16>> { if self.0 == self.1 { return None } self.0 += 1; Some(FixedLen(self.0 as u16 - 1)) }
                    fn size_hint(&self) -> (usize, Option<usize>) {
                        let l = self.1 - self.0;
                        match self.2 { 0 => (0, None), 1 => (l, Some(l)), 2 => (l / 2, Some(l + 1)), _ => (0, Some(usize::MAX)) }
                    }
                }
                let mut q: Seq<FixedLen<u16>> = It(0, n, hint).collect();
                c.ck("C04", q.len() == n && q.iter().enumerate().all(|(i, e)| e.0 == i as u16), || format!("collect gives {} elements", q.len()));
                q.extend(It(0, n, hint));
                c.ck("C04 C17", q.len() == 2 * n && q.iter().enumerate().all(|(i, e)| e.0 as usize == i % n.max(1)), || format!("extend gives {} elements", q.len()));
            });
        }
    }
    c.case("70000 elements".into(), VT, MT, PT, |c| {
        let mut q: Seq<FixedLen<u8>, CheckedIndexing> = Seq::new_indexable();
        for i in 0..70000usize { q.push(FixedLen(i as u8)) }
        c.ck("C04", q.len() == 70000 && q.iter().enumerate().all(|(i, e)| e.0 == i as u8), || "contents".into());
        let o = q.offset();
        c.ck("C05 C15", o == 70000, || format!("offset() is {}", o));
        for i in [0usize, 1, 63, 64, 255, 256, 32767, 32768, 65535, 65536, 65537, 69999] {
            c.ck("C06 C05", q.is_offset_valid(i) && q.from_offset(i).0 == i as u8, || format!("offset {}", i));
            let at = unsafe { q.from_offset_unchecked(i) };
            c.ck("C05", q.offset_of(at) == i, || format!("offset_of at {}", i));
        }
        for i in [0usize, 1, 255, 256, 32768, 65535, 65536, 65537, 69999] {
            let k = unsafe { let mut m = q.from_offset_unchecked_mut(i); let k = m.0; m.0 = !k; k };
            c.ck("C05", k == i as u8 && q.from_offset(i).0 == !k, || format!("mutable lookup of offset {}", i));
            q.from_offset_mut(i).0 = k;
            c.ck("C05", q.from_offset(i).0 == k, || format!("checked mutable lookup of offset {}", i));
        }
        for i in [70000usize, 70001, 131072, 1 << 32, usize::MAX] { c.ck("C06", !q.is_offset_valid(i), || format!("offset {} past the end", i)); }
        let k = q.take_elems().count();
        c.ck("C15 C07", k == 70000 && q.len() == 0, || format!("{} taken", k));
    });
    c.case("70000 elements of eight bytes".into(), VT, MT, PT, |c| {
        let mut q: Seq<FixedLen<u64>, CheckedIndexing> = Seq::new_indexable();
        for i in 0..70000u64 { q.push(FixedLen(i)) }
        let o = q.offset();
        c.ck("C05 C15", o == 70000, || format!("offset() is {}", o));
        for i in [0usize, 1, 63, 255, 256, 8191, 8192, 8193, 32768, 65535, 65536, 65537, 69999] {
            c.ck("C06 C05", q.is_offset_valid(i) && q.from_offset(i).0 == i as u64, || format!("offset {}", i));
            let k = unsafe { let mut m = q.from_offset_unchecked_mut(i); let k = m.0; m.0 = !k; k };
            c.ck("C05", k == i as u64 && q.from_offset(i).0 == !k, || format!("mutable lookup of offset {}", i));
            q.from_offset_mut(i).0 = k;
            let at = unsafe { q.from_offset_unchecked(i) };
            c.ck("C05", at.0 == k && q.offset_of(at) == i, || format!("offset_of at {}", i));
        }
        c.ck("C04", q.iter_mut().enumerate().all(|(i, e)| e.0 == i as u64), || "contents".into());
    });
    // growth, measured
    c.case("growth of 100000 pushes".into(), "", "", "C18", |c| {
        alloc::disarm();
        let mut q: Seq<Array<u64>> = Seq::new();
        let (mut cap, mut grew) = (0, 0);
        for i in 0..100000usize {
            q.push(Array::copy(&[i as u64; 3][..i % 4]));
            if q.capacity_in_offsets() != cap { c.ck("C18", q.capacity_in_offsets() >= 2 * cap, || format!("{} -> {}", cap, q.capacity_in_offsets())); cap = q.capacity_in_offsets(); grew += 1 }
        }
        c.ck("C18", grew <= 24, || format!("{} reallocations", grew));
    });
}
