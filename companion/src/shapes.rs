//! Drawn by ../mirv/shapes/make.py: the structs that are under contract, checked with values in them.
#![allow(unused_mut, unused_variables)]
use crate::ctx::*;
use crate::el::up;
use crate::objs::{adr, place};
use crate::track::{Bd, D, Z};
use varlen::prelude::*;
use varlen::Layout;

const VT: &str = "C07 C12";
const MT: &str = "C08 C03";
const PT: &str = "C01 C02 C03 C07 C08 C12 C13 C14";

#[define_varlen]
pub struct Sa<F: VarLen = Array<D, u16>, G: VarLen = Str<u32>> {
    #[varlen] pub w: G,
    #[varlen] pub base: Str,
    pub ptr: u64,
    #[controls_layout] pub size: u32,
    #[varlen] pub arr: F,
    #[varlen_array] pub refs: [u32; *size as usize],
    pub field: Z,
}
fn sa(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sa>();
    let mut al = std::mem::align_of::<Sa>();
    let n_size = r.to(7);
    let n_w = r.to(9);
    let s_w = "stuvwxyzab"[..n_w].to_string();
    let n_base = r.to(9);
    let s_base = "stuvwxyzab"[..n_base].to_string();
    let n_arr = r.to(9);
    let o_w = up(e, 4); e = o_w + 4 + n_w; al = al.max(4);
    let o_base = up(e, 8); e = o_base + 8 + n_base; al = al.max(8);
    let o_arr = up(e, 4); e = o_arr + 4 + 12 * n_arr; al = al.max(4);
    let o_refs = up(e, 4); e = o_refs + 4 * (n_size); al = al.max(4);
    c.case(format!("drawn struct Sa size {} w {} base {} arr {}", n_size, n_w, n_base, n_arr), VT, MT, PT, |c| place::<Sa, _>(c, sa::Init { w: Str::try_copy(&s_w).unwrap(), base: Str::try_copy(&s_base).unwrap(), ptr: 46, size: n_size as u32, arr: SizedInit(n_arr as u16, FillSequentially(|i| D::new(72 + i as u32))), refs: FillSequentially(|i| (85 + i) as u32), field: Z::new() }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sa| { let y = x.refs(); [&y.w[..] == s_w.as_str(), &y.base[..] == s_base.as_str(), *y.ptr == 46, *y.size == n_size as u32, y.arr.len() == n_arr && y.arr.iter().enumerate().all(|(i, q)| q.get() == Some(72 + i as u32)), y.refs.len() == n_size && y.refs.iter().enumerate().all(|(i, q)| *q == (85 + i) as u32), adr(y.field) == adr(&x.field)] };
        let names = ["w", "base", "ptr", "size", "arr", "refs", "field"];
        let bad = |g: [bool; 7], w: [bool; 7]| (0..7).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 7];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sa as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().w) - b; c.ck("C14 C01", p == o_w, || format!("field w at {}, expected {}", p, o_w)); }
        { let p = adr(&*x.as_mut().muts().w) - b; c.ck("C14", p == o_w, || format!("mutable field w at {}, expected {}", p, o_w)); }
        { let p = adr(x.refs().base) - b; c.ck("C14 C01", p == o_base, || format!("field base at {}, expected {}", p, o_base)); }
        { let p = adr(&*x.as_mut().muts().base) - b; c.ck("C14", p == o_base, || format!("mutable field base at {}, expected {}", p, o_base)); }
        { let p = adr(x.refs().arr) - b; c.ck("C14 C01", p == o_arr, || format!("field arr at {}, expected {}", p, o_arr)); }
        { let p = adr(&*x.as_mut().muts().arr) - b; c.ck("C14", p == o_arr, || format!("mutable field arr at {}, expected {}", p, o_arr)); }
        { let p = adr(x.refs().refs) - b; c.ck("C14 C01", p == o_refs, || format!("field refs at {}, expected {}", p, o_refs)); }
        { let p = adr(&*x.as_mut().muts().refs) - b; c.ck("C14", p == o_refs, || format!("mutable field refs at {}, expected {}", p, o_refs)); }
        { let p = x.as_mut().muts().refs.len(); c.ck("C14 C03", p == x.refs().refs.len(), || format!("mutable field refs has length {}", p)); }
        c.ck("C14", adr(x.refs().ptr) == adr(&x.ptr), || "header field ptr".into());
        c.ck("C14", adr(x.refs().size) == adr(&x.size), || "header field size".into());
        c.ck("C14", adr(x.refs().field) == adr(&x.field), || "header field field".into());
        for d in 0..3 {
            let m_size: usize = match d { 1 => n_size + 1, 2 => n_size.wrapping_sub(1) % 251, _ => n_size };
            let same = n_size == m_size;
            let ok = x.as_mut().try_set_layout_controllers(sa::LayoutControllers { size: m_size as u32 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sa::LayoutControllers { size: n_size as u32 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); y.w.mut_slice().make_ascii_uppercase(); } w[0] = !(n_w > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote w: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.base.mut_slice().make_ascii_uppercase(); } w[1] = !(n_base > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote base: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.ptr += 1; } w[2] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote ptr: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.arr.mut_slice() { q.val += 1 }; } w[4] = !(n_arr > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote arr: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.refs.iter_mut() { *q += 1 }; } w[5] = !(n_size > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote refs: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
#[repr(C)]
pub struct Sb<F: VarLen = Array<D, u16>, G: VarLen = Str<u32>> {
    #[controls_layout] pub a: u8,
    #[varlen_array] pub init: [u16; p.n()],
    #[varlen] pub base: G,
    #[varlen_array] pub w: [u16; p.n()],
    #[controls_layout] pub p: Bd,
    pub size: u16,
    #[varlen] pub item: Array<u8, u16>,
    #[varlen] pub z: F,
    #[varlen] pub field: Str,
}
fn sb(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sb>();
    let mut al = std::mem::align_of::<Sb>();
    let n_a = r.to(7);
    let n_p = r.to(7);
    let n_base = r.to(9);
    let s_base = "stuvwxyzab"[..n_base].to_string();
    let n_item = r.to(9);
    let n_z = r.to(9);
    let n_field = r.to(9);
    let s_field = "stuvwxyzab"[..n_field].to_string();
    let o_init = up(e, 2); e = o_init + 2 * (n_p); al = al.max(2);
    let o_base = up(e, 4); e = o_base + 4 + n_base; al = al.max(4);
    let o_w = up(e, 2); e = o_w + 2 * (n_p); al = al.max(2);
    let o_item = up(e, 2); e = o_item + 2 + 1 * n_item; al = al.max(2);
    let o_z = up(e, 4); e = o_z + 4 + 12 * n_z; al = al.max(4);
    let o_field = up(e, 8); e = o_field + 8 + n_field; al = al.max(8);
    c.case(format!("drawn struct Sb a {} p {} base {} item {} z {} field {}", n_a, n_p, n_base, n_item, n_z, n_field), VT, MT, PT, |c| place::<Sb, _>(c, sb::Init { a: n_a as u8, init: FillSequentially(|i| (33 + i) as u16), base: Str::try_copy(&s_base).unwrap(), w: FillSequentially(|i| (59 + i) as u16), p: Bd::new(n_p as u8, false), size: 85, item: SizedInit(n_item as u16, FillSequentially(|i| (98 + i) as u8)), z: SizedInit(n_z as u16, FillSequentially(|i| D::new(111 + i as u32))), field: Str::try_copy(&s_field).unwrap() }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sb| { let y = x.refs(); [*y.a == n_a as u8, y.init.len() == n_p && y.init.iter().enumerate().all(|(i, q)| *q == (33 + i) as u16), &y.base[..] == s_base.as_str(), y.w.len() == n_p && y.w.iter().enumerate().all(|(i, q)| *q == (59 + i) as u16), y.p.n() == n_p && y.p.get().is_some(), *y.size == 85, y.item.len() == n_item && y.item.iter().enumerate().all(|(i, q)| *q == (98 + i) as u8), y.z.len() == n_z && y.z.iter().enumerate().all(|(i, q)| q.get() == Some(111 + i as u32)), &y.field[..] == s_field.as_str()] };
        let names = ["a", "init", "base", "w", "p", "size", "item", "z", "field"];
        let bad = |g: [bool; 9], w: [bool; 9]| (0..9).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 9];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sb as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().init) - b; c.ck("C14 C01", p == o_init, || format!("field init at {}, expected {}", p, o_init)); }
        { let p = adr(&*x.as_mut().muts().init) - b; c.ck("C14", p == o_init, || format!("mutable field init at {}, expected {}", p, o_init)); }
        { let p = x.as_mut().muts().init.len(); c.ck("C14 C03", p == x.refs().init.len(), || format!("mutable field init has length {}", p)); }
        { let p = adr(x.refs().base) - b; c.ck("C14 C01", p == o_base, || format!("field base at {}, expected {}", p, o_base)); }
        { let p = adr(&*x.as_mut().muts().base) - b; c.ck("C14", p == o_base, || format!("mutable field base at {}, expected {}", p, o_base)); }
        { let p = adr(x.refs().w) - b; c.ck("C14 C01", p == o_w, || format!("field w at {}, expected {}", p, o_w)); }
        { let p = adr(&*x.as_mut().muts().w) - b; c.ck("C14", p == o_w, || format!("mutable field w at {}, expected {}", p, o_w)); }
        { let p = x.as_mut().muts().w.len(); c.ck("C14 C03", p == x.refs().w.len(), || format!("mutable field w has length {}", p)); }
        { let p = adr(x.refs().item) - b; c.ck("C14 C01", p == o_item, || format!("field item at {}, expected {}", p, o_item)); }
        { let p = adr(&*x.as_mut().muts().item) - b; c.ck("C14", p == o_item, || format!("mutable field item at {}, expected {}", p, o_item)); }
        { let p = adr(x.refs().z) - b; c.ck("C14 C01", p == o_z, || format!("field z at {}, expected {}", p, o_z)); }
        { let p = adr(&*x.as_mut().muts().z) - b; c.ck("C14", p == o_z, || format!("mutable field z at {}, expected {}", p, o_z)); }
        { let p = adr(x.refs().field) - b; c.ck("C14 C01", p == o_field, || format!("field field at {}, expected {}", p, o_field)); }
        { let p = adr(&*x.as_mut().muts().field) - b; c.ck("C14", p == o_field, || format!("mutable field field at {}, expected {}", p, o_field)); }
        c.ck("C14", adr(x.refs().a) == adr(&x.a), || "header field a".into());
        c.ck("C14", adr(x.refs().p) == adr(&x.p), || "header field p".into());
        c.ck("C14", adr(x.refs().size) == adr(&x.size), || "header field size".into());
        for d in 0..5 {
            let m_a: usize = match d { 1 => n_a + 1, 2 => n_a.wrapping_sub(1) % 251, _ => n_a };
            let m_p: usize = match d { 3 => n_p + 1, 4 => n_p.wrapping_sub(1) % 251, _ => n_p };
            let same = n_p == m_p && n_p == m_p;
            let ok = x.as_mut().try_set_layout_controllers(sb::LayoutControllers { a: m_a as u8, p: Bd::new(m_p as u8, false) }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sb::LayoutControllers { a: n_a as u8, p: Bd::new(n_p as u8, false) }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); for q in y.init.iter_mut() { *q += 1 }; } w[1] = !(n_p > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote init: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.base.mut_slice().make_ascii_uppercase(); } w[2] = !(n_base > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote base: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.w.iter_mut() { *q += 1 }; } w[3] = !(n_p > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote w: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.size += 1; } w[5] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote size: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.item.mut_slice() { *q += 1 }; } w[6] = !(n_item > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote item: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.z.mut_slice() { q.val += 1 }; } w[7] = !(n_z > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote z: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.field.mut_slice().make_ascii_uppercase(); } w[8] = !(n_field > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote field: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Sc<F: VarLen = Array<D, u16>, G: VarLen = Str<u32>> {
    #[varlen] pub k: F,
    #[varlen] pub item: Str,
    #[varlen] pub base: G,
}
fn sc(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sc>();
    let mut al = std::mem::align_of::<Sc>();
    let n_k = r.to(9);
    let n_item = r.to(9);
    let s_item = "stuvwxyzab"[..n_item].to_string();
    let n_base = r.to(9);
    let s_base = "stuvwxyzab"[..n_base].to_string();
    let o_k = up(e, 4); e = o_k + 4 + 12 * n_k; al = al.max(4);
    let o_item = up(e, 8); e = o_item + 8 + n_item; al = al.max(8);
    let o_base = up(e, 4); e = o_base + 4 + n_base; al = al.max(4);
    c.case(format!("drawn struct Sc k {} item {} base {}", n_k, n_item, n_base), VT, MT, PT, |c| place::<Sc, _>(c, sc::Init { k: SizedInit(n_k as u16, FillSequentially(|i| D::new(20 + i as u32))), item: Str::try_copy(&s_item).unwrap(), base: Str::try_copy(&s_base).unwrap() }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sc| { let y = x.refs(); [y.k.len() == n_k && y.k.iter().enumerate().all(|(i, q)| q.get() == Some(20 + i as u32)), &y.item[..] == s_item.as_str(), &y.base[..] == s_base.as_str()] };
        let names = ["k", "item", "base"];
        let bad = |g: [bool; 3], w: [bool; 3]| (0..3).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 3];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sc as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().k) - b; c.ck("C14 C01", p == o_k, || format!("field k at {}, expected {}", p, o_k)); }
        { let p = adr(&*x.as_mut().muts().k) - b; c.ck("C14", p == o_k, || format!("mutable field k at {}, expected {}", p, o_k)); }
        { let p = adr(x.refs().item) - b; c.ck("C14 C01", p == o_item, || format!("field item at {}, expected {}", p, o_item)); }
        { let p = adr(&*x.as_mut().muts().item) - b; c.ck("C14", p == o_item, || format!("mutable field item at {}, expected {}", p, o_item)); }
        { let p = adr(x.refs().base) - b; c.ck("C14 C01", p == o_base, || format!("field base at {}, expected {}", p, o_base)); }
        { let p = adr(&*x.as_mut().muts().base) - b; c.ck("C14", p == o_base, || format!("mutable field base at {}, expected {}", p, o_base)); }
        { let y = x.as_mut().muts(); for q in y.k.mut_slice() { q.val += 1 }; } w[0] = !(n_k > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote k: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.item.mut_slice().make_ascii_uppercase(); } w[1] = !(n_item > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote item: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.base.mut_slice().make_ascii_uppercase(); } w[2] = !(n_base > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote base: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Sd {
    pub header: u32,
    #[controls_layout] pub base: u32,
    pub init: D,
    pub muts: Z,
}
fn sd(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sd>();
    let mut al = std::mem::align_of::<Sd>();
    let n_base = r.to(7);
    c.case(format!("drawn struct Sd base {}", n_base), VT, MT, PT, |c| place::<Sd, _>(c, sd::Init { header: 20, base: n_base as u32, init: D::new(46), muts: Z::new() }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sd| { let y = x.refs(); [*y.header == 20, *y.base == n_base as u32, y.init.get() == Some(46), adr(y.muts) == adr(&x.muts)] };
        let names = ["header", "base", "init", "muts"];
        let bad = |g: [bool; 4], w: [bool; 4]| (0..4).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 4];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sd as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        c.ck("C14", adr(x.refs().header) == adr(&x.header), || "header field header".into());
        c.ck("C14", adr(x.refs().base) == adr(&x.base), || "header field base".into());
        c.ck("C14", adr(x.refs().init) == adr(&x.init), || "header field init".into());
        c.ck("C14", adr(x.refs().muts) == adr(&x.muts), || "header field muts".into());
        { let y = x.as_mut().muts(); *y.header += 1; } w[0] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote header: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.init.val += 1; } w[2] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote init: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
#[repr(C)]
pub struct Se {
    #[controls_layout] pub k: Bd,
    #[controls_layout] pub b: Bd,
    #[varlen_array] pub end: [u16; (*size as usize + 1)],
    #[controls_layout] pub size: u8,
    #[controls_layout] pub layout: u16,
}
fn se(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Se>();
    let mut al = std::mem::align_of::<Se>();
    let n_k = r.to(7);
    let n_b = r.to(7);
    let n_size = r.to(7);
    let n_layout = r.to(7);
    let o_end = up(e, 2); e = o_end + 2 * ((n_size + 1)); al = al.max(2);
    c.case(format!("drawn struct Se k {} b {} size {} layout {}", n_k, n_b, n_size, n_layout), VT, MT, PT, |c| place::<Se, _>(c, se::Init { k: Bd::new(n_k as u8, false), b: Bd::new(n_b as u8, false), end: FillSequentially(|i| (46 + i) as u16), size: n_size as u8, layout: n_layout as u16 }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Se| { let y = x.refs(); [y.k.n() == n_k && y.k.get().is_some(), y.b.n() == n_b && y.b.get().is_some(), y.end.len() == (n_size + 1) && y.end.iter().enumerate().all(|(i, q)| *q == (46 + i) as u16), *y.size == n_size as u8, *y.layout == n_layout as u16] };
        let names = ["k", "b", "end", "size", "layout"];
        let bad = |g: [bool; 5], w: [bool; 5]| (0..5).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 5];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Se as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().end) - b; c.ck("C14 C01", p == o_end, || format!("field end at {}, expected {}", p, o_end)); }
        { let p = adr(&*x.as_mut().muts().end) - b; c.ck("C14", p == o_end, || format!("mutable field end at {}, expected {}", p, o_end)); }
        { let p = x.as_mut().muts().end.len(); c.ck("C14 C03", p == x.refs().end.len(), || format!("mutable field end has length {}", p)); }
        c.ck("C14", adr(x.refs().k) == adr(&x.k), || "header field k".into());
        c.ck("C14", adr(x.refs().b) == adr(&x.b), || "header field b".into());
        c.ck("C14", adr(x.refs().size) == adr(&x.size), || "header field size".into());
        c.ck("C14", adr(x.refs().layout) == adr(&x.layout), || "header field layout".into());
        for d in 0..9 {
            let m_k: usize = match d { 1 => n_k + 1, 2 => n_k.wrapping_sub(1) % 251, _ => n_k };
            let m_b: usize = match d { 3 => n_b + 1, 4 => n_b.wrapping_sub(1) % 251, _ => n_b };
            let m_size: usize = match d { 5 => n_size + 1, 6 => n_size.wrapping_sub(1) % 251, _ => n_size };
            let m_layout: usize = match d { 7 => n_layout + 1, 8 => n_layout.wrapping_sub(1) % 251, _ => n_layout };
            let same = (n_size + 1) == (m_size + 1);
            let ok = x.as_mut().try_set_layout_controllers(se::LayoutControllers { k: Bd::new(m_k as u8, false), b: Bd::new(m_b as u8, false), size: m_size as u8, layout: m_layout as u16 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(se::LayoutControllers { k: Bd::new(n_k as u8, false), b: Bd::new(n_b as u8, false), size: n_size as u8, layout: n_layout as u16 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); for q in y.end.iter_mut() { *q += 1 }; } w[2] = !((n_size + 1) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote end: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Sf<F: VarLen = Array<D, u16>, G: VarLen = Str<u32>> {
    pub item: Z,
    pub field: D,
    #[varlen] pub b: Str,
    #[varlen] pub layout: F,
    #[varlen] pub header: Array<u8, u16>,
    #[varlen] pub offset: Str<u32>,
    pub muts: Z,
    #[varlen] pub p: G,
}
fn sf(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sf>();
    let mut al = std::mem::align_of::<Sf>();
    let n_b = r.to(9);
    let s_b = "stuvwxyzab"[..n_b].to_string();
    let n_layout = r.to(9);
    let n_header = r.to(9);
    let n_offset = r.to(9);
    let s_offset = "stuvwxyzab"[..n_offset].to_string();
    let n_p = r.to(9);
    let s_p = "stuvwxyzab"[..n_p].to_string();
    let o_b = up(e, 8); e = o_b + 8 + n_b; al = al.max(8);
    let o_layout = up(e, 4); e = o_layout + 4 + 12 * n_layout; al = al.max(4);
    let o_header = up(e, 2); e = o_header + 2 + 1 * n_header; al = al.max(2);
    let o_offset = up(e, 4); e = o_offset + 4 + n_offset; al = al.max(4);
    let o_p = up(e, 4); e = o_p + 4 + n_p; al = al.max(4);
    c.case(format!("drawn struct Sf b {} layout {} header {} offset {} p {}", n_b, n_layout, n_header, n_offset, n_p), VT, MT, PT, |c| place::<Sf, _>(c, sf::Init { item: Z::new(), field: D::new(33), b: Str::try_copy(&s_b).unwrap(), layout: SizedInit(n_layout as u16, FillSequentially(|i| D::new(59 + i as u32))), header: SizedInit(n_header as u16, FillSequentially(|i| (72 + i) as u8)), offset: Str::try_copy(&s_offset).unwrap(), muts: Z::new(), p: Str::try_copy(&s_p).unwrap() }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sf| { let y = x.refs(); [adr(y.item) == adr(&x.item), y.field.get() == Some(33), &y.b[..] == s_b.as_str(), y.layout.len() == n_layout && y.layout.iter().enumerate().all(|(i, q)| q.get() == Some(59 + i as u32)), y.header.len() == n_header && y.header.iter().enumerate().all(|(i, q)| *q == (72 + i) as u8), &y.offset[..] == s_offset.as_str(), adr(y.muts) == adr(&x.muts), &y.p[..] == s_p.as_str()] };
        let names = ["item", "field", "b", "layout", "header", "offset", "muts", "p"];
        let bad = |g: [bool; 8], w: [bool; 8]| (0..8).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 8];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sf as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().b) - b; c.ck("C14 C01", p == o_b, || format!("field b at {}, expected {}", p, o_b)); }
        { let p = adr(&*x.as_mut().muts().b) - b; c.ck("C14", p == o_b, || format!("mutable field b at {}, expected {}", p, o_b)); }
        { let p = adr(x.refs().layout) - b; c.ck("C14 C01", p == o_layout, || format!("field layout at {}, expected {}", p, o_layout)); }
        { let p = adr(&*x.as_mut().muts().layout) - b; c.ck("C14", p == o_layout, || format!("mutable field layout at {}, expected {}", p, o_layout)); }
        { let p = adr(x.refs().header) - b; c.ck("C14 C01", p == o_header, || format!("field header at {}, expected {}", p, o_header)); }
        { let p = adr(&*x.as_mut().muts().header) - b; c.ck("C14", p == o_header, || format!("mutable field header at {}, expected {}", p, o_header)); }
        { let p = adr(x.refs().offset) - b; c.ck("C14 C01", p == o_offset, || format!("field offset at {}, expected {}", p, o_offset)); }
        { let p = adr(&*x.as_mut().muts().offset) - b; c.ck("C14", p == o_offset, || format!("mutable field offset at {}, expected {}", p, o_offset)); }
        { let p = adr(x.refs().p) - b; c.ck("C14 C01", p == o_p, || format!("field p at {}, expected {}", p, o_p)); }
        { let p = adr(&*x.as_mut().muts().p) - b; c.ck("C14", p == o_p, || format!("mutable field p at {}, expected {}", p, o_p)); }
        c.ck("C14", adr(x.refs().item) == adr(&x.item), || "header field item".into());
        c.ck("C14", adr(x.refs().field) == adr(&x.field), || "header field field".into());
        c.ck("C14", adr(x.refs().muts) == adr(&x.muts), || "header field muts".into());
        { let y = x.as_mut().muts(); y.field.val += 1; } w[1] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote field: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.b.mut_slice().make_ascii_uppercase(); } w[2] = !(n_b > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote b: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.layout.mut_slice() { q.val += 1 }; } w[3] = !(n_layout > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote layout: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.header.mut_slice() { *q += 1 }; } w[4] = !(n_header > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote header: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.offset.mut_slice().make_ascii_uppercase(); } w[5] = !(n_offset > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote offset: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.p.mut_slice().make_ascii_uppercase(); } w[7] = !(n_p > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote p: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Sg {
    pub layout: u64,
    pub field: u32,
    #[controls_layout] pub arr: u8,
    pub k: D,
    #[varlen] pub offset: Str,
    #[varlen_array] pub end: [u64; (*a as usize + 1)],
    pub size: D,
    #[controls_layout] pub a: u8,
    #[varlen_array] pub dst: [D; *refs as usize],
    #[controls_layout] pub refs: u32,
}
fn sg(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sg>();
    let mut al = std::mem::align_of::<Sg>();
    let n_arr = r.to(7);
    let n_a = r.to(7);
    let n_refs = r.to(7);
    let n_offset = r.to(9);
    let s_offset = "stuvwxyzab"[..n_offset].to_string();
    let o_offset = up(e, 8); e = o_offset + 8 + n_offset; al = al.max(8);
    let o_end = up(e, 8); e = o_end + 8 * ((n_a + 1)); al = al.max(8);
    let o_dst = up(e, 4); e = o_dst + 12 * (n_refs); al = al.max(4);
    c.case(format!("drawn struct Sg arr {} a {} refs {} offset {}", n_arr, n_a, n_refs, n_offset), VT, MT, PT, |c| place::<Sg, _>(c, sg::Init { layout: 20, field: 33, arr: n_arr as u8, k: D::new(59), offset: Str::try_copy(&s_offset).unwrap(), end: FillSequentially(|i| (85 + i) as u64), size: D::new(98), a: n_a as u8, dst: FillSequentially(|i| D::new(124 + i as u32)), refs: n_refs as u32 }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sg| { let y = x.refs(); [*y.layout == 20, *y.field == 33, *y.arr == n_arr as u8, y.k.get() == Some(59), &y.offset[..] == s_offset.as_str(), y.end.len() == (n_a + 1) && y.end.iter().enumerate().all(|(i, q)| *q == (85 + i) as u64), y.size.get() == Some(98), *y.a == n_a as u8, y.dst.len() == n_refs && y.dst.iter().enumerate().all(|(i, q)| q.get() == Some(124 + i as u32)), *y.refs == n_refs as u32] };
        let names = ["layout", "field", "arr", "k", "offset", "end", "size", "a", "dst", "refs"];
        let bad = |g: [bool; 10], w: [bool; 10]| (0..10).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 10];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sg as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().offset) - b; c.ck("C14 C01", p == o_offset, || format!("field offset at {}, expected {}", p, o_offset)); }
        { let p = adr(&*x.as_mut().muts().offset) - b; c.ck("C14", p == o_offset, || format!("mutable field offset at {}, expected {}", p, o_offset)); }
        { let p = adr(x.refs().end) - b; c.ck("C14 C01", p == o_end, || format!("field end at {}, expected {}", p, o_end)); }
        { let p = adr(&*x.as_mut().muts().end) - b; c.ck("C14", p == o_end, || format!("mutable field end at {}, expected {}", p, o_end)); }
        { let p = x.as_mut().muts().end.len(); c.ck("C14 C03", p == x.refs().end.len(), || format!("mutable field end has length {}", p)); }
        { let p = adr(x.refs().dst) - b; c.ck("C14 C01", p == o_dst, || format!("field dst at {}, expected {}", p, o_dst)); }
        { let p = adr(&*x.as_mut().muts().dst) - b; c.ck("C14", p == o_dst, || format!("mutable field dst at {}, expected {}", p, o_dst)); }
        { let p = x.as_mut().muts().dst.len(); c.ck("C14 C03", p == x.refs().dst.len(), || format!("mutable field dst has length {}", p)); }
        c.ck("C14", adr(x.refs().layout) == adr(&x.layout), || "header field layout".into());
        c.ck("C14", adr(x.refs().field) == adr(&x.field), || "header field field".into());
        c.ck("C14", adr(x.refs().arr) == adr(&x.arr), || "header field arr".into());
        c.ck("C14", adr(x.refs().k) == adr(&x.k), || "header field k".into());
        c.ck("C14", adr(x.refs().size) == adr(&x.size), || "header field size".into());
        c.ck("C14", adr(x.refs().a) == adr(&x.a), || "header field a".into());
        c.ck("C14", adr(x.refs().refs) == adr(&x.refs), || "header field refs".into());
        for d in 0..7 {
            let m_arr: usize = match d { 1 => n_arr + 1, 2 => n_arr.wrapping_sub(1) % 251, _ => n_arr };
            let m_a: usize = match d { 3 => n_a + 1, 4 => n_a.wrapping_sub(1) % 251, _ => n_a };
            let m_refs: usize = match d { 5 => n_refs + 1, 6 => n_refs.wrapping_sub(1) % 251, _ => n_refs };
            let same = (n_a + 1) == (m_a + 1) && n_refs == m_refs;
            let ok = x.as_mut().try_set_layout_controllers(sg::LayoutControllers { arr: m_arr as u8, a: m_a as u8, refs: m_refs as u32 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sg::LayoutControllers { arr: n_arr as u8, a: n_a as u8, refs: n_refs as u32 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); *y.layout += 1; } w[0] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote layout: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.field += 1; } w[1] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote field: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.k.val += 1; } w[3] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote k: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.offset.mut_slice().make_ascii_uppercase(); } w[4] = !(n_offset > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote offset: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.end.iter_mut() { *q += 1 }; } w[5] = !((n_a + 1) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote end: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.size.val += 1; } w[6] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote size: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.dst.iter_mut() { q.val += 1 }; } w[8] = !(n_refs > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote dst: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
#[repr(C)]
pub struct Sh<G: VarLen = Str<u32>, E = D> {
    #[varlen] pub layout: G,
    #[varlen_array] pub header: [u64; *w as usize],
    #[varlen_array] pub z: [Z; *w as usize],
    #[varlen_array] pub muts: [E; (*w as usize / 2)],
    #[varlen] pub p: Array<u8, u16>,
    #[controls_layout] pub w: u8,
}
fn sh(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sh>();
    let mut al = std::mem::align_of::<Sh>();
    let n_w = r.to(7);
    let n_layout = r.to(9);
    let s_layout = "stuvwxyzab"[..n_layout].to_string();
    let n_p = r.to(9);
    let o_layout = up(e, 4); e = o_layout + 4 + n_layout; al = al.max(4);
    let o_header = up(e, 8); e = o_header + 8 * (n_w); al = al.max(8);
    let o_z = up(e, 1); e = o_z + 0 * (n_w); al = al.max(1);
    let o_muts = up(e, 4); e = o_muts + 12 * ((n_w / 2)); al = al.max(4);
    let o_p = up(e, 2); e = o_p + 2 + 1 * n_p; al = al.max(2);
    c.case(format!("drawn struct Sh w {} layout {} p {}", n_w, n_layout, n_p), VT, MT, PT, |c| place::<Sh, _>(c, sh::Init { layout: Str::try_copy(&s_layout).unwrap(), header: FillSequentially(|i| (33 + i) as u64), z: FillSequentially(|_| Z::new()), muts: FillSequentially(|i| D::new(59 + i as u32)), p: SizedInit(n_p as u16, FillSequentially(|i| (72 + i) as u8)), w: n_w as u8 }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sh| { let y = x.refs(); [&y.layout[..] == s_layout.as_str(), y.header.len() == n_w && y.header.iter().enumerate().all(|(i, q)| *q == (33 + i) as u64), y.z.len() == n_w, y.muts.len() == (n_w / 2) && y.muts.iter().enumerate().all(|(i, q)| q.get() == Some(59 + i as u32)), y.p.len() == n_p && y.p.iter().enumerate().all(|(i, q)| *q == (72 + i) as u8), *y.w == n_w as u8] };
        let names = ["layout", "header", "z", "muts", "p", "w"];
        let bad = |g: [bool; 6], w: [bool; 6]| (0..6).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 6];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sh as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().layout) - b; c.ck("C14 C01", p == o_layout, || format!("field layout at {}, expected {}", p, o_layout)); }
        { let p = adr(&*x.as_mut().muts().layout) - b; c.ck("C14", p == o_layout, || format!("mutable field layout at {}, expected {}", p, o_layout)); }
        { let p = adr(x.refs().header) - b; c.ck("C14 C01", p == o_header, || format!("field header at {}, expected {}", p, o_header)); }
        { let p = adr(&*x.as_mut().muts().header) - b; c.ck("C14", p == o_header, || format!("mutable field header at {}, expected {}", p, o_header)); }
        { let p = x.as_mut().muts().header.len(); c.ck("C14 C03", p == x.refs().header.len(), || format!("mutable field header has length {}", p)); }
        { let p = adr(x.refs().z) - b; c.ck("C14 C01", p == o_z, || format!("field z at {}, expected {}", p, o_z)); }
        { let p = adr(&*x.as_mut().muts().z) - b; c.ck("C14", p == o_z, || format!("mutable field z at {}, expected {}", p, o_z)); }
        { let p = x.as_mut().muts().z.len(); c.ck("C14 C03", p == x.refs().z.len(), || format!("mutable field z has length {}", p)); }
        { let p = adr(x.refs().muts) - b; c.ck("C14 C01", p == o_muts, || format!("field muts at {}, expected {}", p, o_muts)); }
        { let p = adr(&*x.as_mut().muts().muts) - b; c.ck("C14", p == o_muts, || format!("mutable field muts at {}, expected {}", p, o_muts)); }
        { let p = x.as_mut().muts().muts.len(); c.ck("C14 C03", p == x.refs().muts.len(), || format!("mutable field muts has length {}", p)); }
        { let p = adr(x.refs().p) - b; c.ck("C14 C01", p == o_p, || format!("field p at {}, expected {}", p, o_p)); }
        { let p = adr(&*x.as_mut().muts().p) - b; c.ck("C14", p == o_p, || format!("mutable field p at {}, expected {}", p, o_p)); }
        c.ck("C14", adr(x.refs().w) == adr(&x.w), || "header field w".into());
        for d in 0..3 {
            let m_w: usize = match d { 1 => n_w + 1, 2 => n_w.wrapping_sub(1) % 251, _ => n_w };
            let same = n_w == m_w && n_w == m_w && (n_w / 2) == (m_w / 2);
            let ok = x.as_mut().try_set_layout_controllers(sh::LayoutControllers { w: m_w as u8 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sh::LayoutControllers { w: n_w as u8 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); y.layout.mut_slice().make_ascii_uppercase(); } w[0] = !(n_layout > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote layout: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.header.iter_mut() { *q += 1 }; } w[1] = !(n_w > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote header: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.muts.iter_mut() { q.val += 1 }; } w[3] = !((n_w / 2) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote muts: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.p.mut_slice() { *q += 1 }; } w[4] = !(n_p > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote p: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Si<G: VarLen = Str<u32>> {
    #[varlen] pub item: Array<u16, u8>,
    pub k: u16,
    pub muts: u32,
    #[varlen] pub a: G,
    pub b: u64,
    pub field: u8,
    #[controls_layout] pub arr: u16,
    pub header: D,
    pub ptr: u8,
    pub refs: u8,
    #[controls_layout] pub p: u32,
    pub layout: u16,
}
fn si(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Si>();
    let mut al = std::mem::align_of::<Si>();
    let n_arr = r.to(7);
    let n_p = r.to(7);
    let n_item = r.to(9);
    let n_a = r.to(9);
    let s_a = "stuvwxyzab"[..n_a].to_string();
    let o_item = up(e, 2); e = o_item + 2 + 2 * n_item; al = al.max(2);
    let o_a = up(e, 4); e = o_a + 4 + n_a; al = al.max(4);
    c.case(format!("drawn struct Si arr {} p {} item {} a {}", n_arr, n_p, n_item, n_a), VT, MT, PT, |c| place::<Si, _>(c, si::Init { item: SizedInit(n_item as u8, FillSequentially(|i| (20 + i) as u16)), k: 33, muts: 46, a: Str::try_copy(&s_a).unwrap(), b: 72, field: 85, arr: n_arr as u16, header: D::new(111), ptr: 124, refs: 137, p: n_p as u32, layout: 163 }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Si| { let y = x.refs(); [y.item.len() == n_item && y.item.iter().enumerate().all(|(i, q)| *q == (20 + i) as u16), *y.k == 33, *y.muts == 46, &y.a[..] == s_a.as_str(), *y.b == 72, *y.field == 85, *y.arr == n_arr as u16, y.header.get() == Some(111), *y.ptr == 124, *y.refs == 137, *y.p == n_p as u32, *y.layout == 163] };
        let names = ["item", "k", "muts", "a", "b", "field", "arr", "header", "ptr", "refs", "p", "layout"];
        let bad = |g: [bool; 12], w: [bool; 12]| (0..12).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 12];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Si as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().item) - b; c.ck("C14 C01", p == o_item, || format!("field item at {}, expected {}", p, o_item)); }
        { let p = adr(&*x.as_mut().muts().item) - b; c.ck("C14", p == o_item, || format!("mutable field item at {}, expected {}", p, o_item)); }
        { let p = adr(x.refs().a) - b; c.ck("C14 C01", p == o_a, || format!("field a at {}, expected {}", p, o_a)); }
        { let p = adr(&*x.as_mut().muts().a) - b; c.ck("C14", p == o_a, || format!("mutable field a at {}, expected {}", p, o_a)); }
        c.ck("C14", adr(x.refs().k) == adr(&x.k), || "header field k".into());
        c.ck("C14", adr(x.refs().muts) == adr(&x.muts), || "header field muts".into());
        c.ck("C14", adr(x.refs().b) == adr(&x.b), || "header field b".into());
        c.ck("C14", adr(x.refs().field) == adr(&x.field), || "header field field".into());
        c.ck("C14", adr(x.refs().arr) == adr(&x.arr), || "header field arr".into());
        c.ck("C14", adr(x.refs().header) == adr(&x.header), || "header field header".into());
        c.ck("C14", adr(x.refs().ptr) == adr(&x.ptr), || "header field ptr".into());
        c.ck("C14", adr(x.refs().refs) == adr(&x.refs), || "header field refs".into());
        c.ck("C14", adr(x.refs().p) == adr(&x.p), || "header field p".into());
        c.ck("C14", adr(x.refs().layout) == adr(&x.layout), || "header field layout".into());
        { let y = x.as_mut().muts(); for q in y.item.mut_slice() { *q += 1 }; } w[0] = !(n_item > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote item: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.k += 1; } w[1] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote k: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.muts += 1; } w[2] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote muts: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.a.mut_slice().make_ascii_uppercase(); } w[3] = !(n_a > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote a: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.b += 1; } w[4] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote b: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.field += 1; } w[5] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote field: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.header.val += 1; } w[7] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote header: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.ptr += 1; } w[8] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote ptr: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.refs += 1; } w[9] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote refs: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.layout += 1; } w[11] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote layout: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Sj<E = D> {
    #[varlen_array] pub header: [E; *offset as usize],
    #[controls_layout] pub offset: u32,
}
fn sj(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sj>();
    let mut al = std::mem::align_of::<Sj>();
    let n_offset = r.to(7);
    let o_header = up(e, 4); e = o_header + 12 * (n_offset); al = al.max(4);
    c.case(format!("drawn struct Sj offset {}", n_offset), VT, MT, PT, |c| place::<Sj, _>(c, sj::Init { header: FillSequentially(|i| D::new(20 + i as u32)), offset: n_offset as u32 }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sj| { let y = x.refs(); [y.header.len() == n_offset && y.header.iter().enumerate().all(|(i, q)| q.get() == Some(20 + i as u32)), *y.offset == n_offset as u32] };
        let names = ["header", "offset"];
        let bad = |g: [bool; 2], w: [bool; 2]| (0..2).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 2];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sj as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().header) - b; c.ck("C14 C01", p == o_header, || format!("field header at {}, expected {}", p, o_header)); }
        { let p = adr(&*x.as_mut().muts().header) - b; c.ck("C14", p == o_header, || format!("mutable field header at {}, expected {}", p, o_header)); }
        { let p = x.as_mut().muts().header.len(); c.ck("C14 C03", p == x.refs().header.len(), || format!("mutable field header has length {}", p)); }
        c.ck("C14", adr(x.refs().offset) == adr(&x.offset), || "header field offset".into());
        for d in 0..3 {
            let m_offset: usize = match d { 1 => n_offset + 1, 2 => n_offset.wrapping_sub(1) % 251, _ => n_offset };
            let same = n_offset == m_offset;
            let ok = x.as_mut().try_set_layout_controllers(sj::LayoutControllers { offset: m_offset as u32 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sj::LayoutControllers { offset: n_offset as u32 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); for q in y.header.iter_mut() { q.val += 1 }; } w[0] = !(n_offset > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote header: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
#[repr(C)]
pub struct Sk<F: VarLen = Array<D, u16>, G: VarLen = Str<u32>> {
    pub size: u16,
    #[varlen] pub field: F,
    #[varlen] pub arr: Array<u8, u16>,
    #[varlen] pub dst: G,
    pub ptr: u64,
    #[controls_layout] pub item: u32,
}
fn sk(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sk>();
    let mut al = std::mem::align_of::<Sk>();
    let n_item = r.to(7);
    let n_field = r.to(9);
    let n_arr = r.to(9);
    let n_dst = r.to(9);
    let s_dst = "stuvwxyzab"[..n_dst].to_string();
    let o_field = up(e, 4); e = o_field + 4 + 12 * n_field; al = al.max(4);
    let o_arr = up(e, 2); e = o_arr + 2 + 1 * n_arr; al = al.max(2);
    let o_dst = up(e, 4); e = o_dst + 4 + n_dst; al = al.max(4);
    c.case(format!("drawn struct Sk item {} field {} arr {} dst {}", n_item, n_field, n_arr, n_dst), VT, MT, PT, |c| place::<Sk, _>(c, sk::Init { size: 20, field: SizedInit(n_field as u16, FillSequentially(|i| D::new(33 + i as u32))), arr: SizedInit(n_arr as u16, FillSequentially(|i| (46 + i) as u8)), dst: Str::try_copy(&s_dst).unwrap(), ptr: 72, item: n_item as u32 }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sk| { let y = x.refs(); [*y.size == 20, y.field.len() == n_field && y.field.iter().enumerate().all(|(i, q)| q.get() == Some(33 + i as u32)), y.arr.len() == n_arr && y.arr.iter().enumerate().all(|(i, q)| *q == (46 + i) as u8), &y.dst[..] == s_dst.as_str(), *y.ptr == 72, *y.item == n_item as u32] };
        let names = ["size", "field", "arr", "dst", "ptr", "item"];
        let bad = |g: [bool; 6], w: [bool; 6]| (0..6).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 6];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sk as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().field) - b; c.ck("C14 C01", p == o_field, || format!("field field at {}, expected {}", p, o_field)); }
        { let p = adr(&*x.as_mut().muts().field) - b; c.ck("C14", p == o_field, || format!("mutable field field at {}, expected {}", p, o_field)); }
        { let p = adr(x.refs().arr) - b; c.ck("C14 C01", p == o_arr, || format!("field arr at {}, expected {}", p, o_arr)); }
        { let p = adr(&*x.as_mut().muts().arr) - b; c.ck("C14", p == o_arr, || format!("mutable field arr at {}, expected {}", p, o_arr)); }
        { let p = adr(x.refs().dst) - b; c.ck("C14 C01", p == o_dst, || format!("field dst at {}, expected {}", p, o_dst)); }
        { let p = adr(&*x.as_mut().muts().dst) - b; c.ck("C14", p == o_dst, || format!("mutable field dst at {}, expected {}", p, o_dst)); }
        c.ck("C14", adr(x.refs().size) == adr(&x.size), || "header field size".into());
        c.ck("C14", adr(x.refs().ptr) == adr(&x.ptr), || "header field ptr".into());
        c.ck("C14", adr(x.refs().item) == adr(&x.item), || "header field item".into());
        { let y = x.as_mut().muts(); *y.size += 1; } w[0] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote size: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.field.mut_slice() { q.val += 1 }; } w[1] = !(n_field > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote field: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.arr.mut_slice() { *q += 1 }; } w[2] = !(n_arr > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote arr: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.dst.mut_slice().make_ascii_uppercase(); } w[3] = !(n_dst > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote dst: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.ptr += 1; } w[4] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote ptr: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Sl {
    pub header: u16,
    pub w: u8,
    pub dst: Z,
    pub item: u8,
    pub refs: u64,
    #[controls_layout] pub p: u8,
    #[varlen_array] pub z: [u8; (*a as usize + 1)],
    pub field: u32,
    pub end: u16,
    #[varlen_array] pub arr: [u16; ptr.n()],
    #[controls_layout] pub ptr: Bd,
    pub size: u64,
    #[controls_layout] pub a: u32,
    pub init: Z,
    pub base: D,
    pub k: u16,
}
fn sl(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sl>();
    let mut al = std::mem::align_of::<Sl>();
    let n_p = r.to(7);
    let n_ptr = r.to(7);
    let n_a = r.to(7);
    let o_z = up(e, 1); e = o_z + 1 * ((n_a + 1)); al = al.max(1);
    let o_arr = up(e, 2); e = o_arr + 2 * (n_ptr); al = al.max(2);
    c.case(format!("drawn struct Sl p {} ptr {} a {}", n_p, n_ptr, n_a), VT, MT, PT, |c| place::<Sl, _>(c, sl::Init { header: 20, w: 33, dst: Z::new(), item: 59, refs: 72, p: n_p as u8, z: FillSequentially(|i| (98 + i) as u8), field: 111, end: 124, arr: FillSequentially(|i| (137 + i) as u16), ptr: Bd::new(n_ptr as u8, false), size: 163, a: n_a as u32, init: Z::new(), base: D::new(202), k: 215 }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sl| { let y = x.refs(); [*y.header == 20, *y.w == 33, adr(y.dst) == adr(&x.dst), *y.item == 59, *y.refs == 72, *y.p == n_p as u8, y.z.len() == (n_a + 1) && y.z.iter().enumerate().all(|(i, q)| *q == (98 + i) as u8), *y.field == 111, *y.end == 124, y.arr.len() == n_ptr && y.arr.iter().enumerate().all(|(i, q)| *q == (137 + i) as u16), y.ptr.n() == n_ptr && y.ptr.get().is_some(), *y.size == 163, *y.a == n_a as u32, adr(y.init) == adr(&x.init), y.base.get() == Some(202), *y.k == 215] };
        let names = ["header", "w", "dst", "item", "refs", "p", "z", "field", "end", "arr", "ptr", "size", "a", "init", "base", "k"];
        let bad = |g: [bool; 16], w: [bool; 16]| (0..16).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 16];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sl as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().z) - b; c.ck("C14 C01", p == o_z, || format!("field z at {}, expected {}", p, o_z)); }
        { let p = adr(&*x.as_mut().muts().z) - b; c.ck("C14", p == o_z, || format!("mutable field z at {}, expected {}", p, o_z)); }
        { let p = x.as_mut().muts().z.len(); c.ck("C14 C03", p == x.refs().z.len(), || format!("mutable field z has length {}", p)); }
        { let p = adr(x.refs().arr) - b; c.ck("C14 C01", p == o_arr, || format!("field arr at {}, expected {}", p, o_arr)); }
        { let p = adr(&*x.as_mut().muts().arr) - b; c.ck("C14", p == o_arr, || format!("mutable field arr at {}, expected {}", p, o_arr)); }
        { let p = x.as_mut().muts().arr.len(); c.ck("C14 C03", p == x.refs().arr.len(), || format!("mutable field arr has length {}", p)); }
        c.ck("C14", adr(x.refs().header) == adr(&x.header), || "header field header".into());
        c.ck("C14", adr(x.refs().w) == adr(&x.w), || "header field w".into());
        c.ck("C14", adr(x.refs().dst) == adr(&x.dst), || "header field dst".into());
        c.ck("C14", adr(x.refs().item) == adr(&x.item), || "header field item".into());
        c.ck("C14", adr(x.refs().refs) == adr(&x.refs), || "header field refs".into());
        c.ck("C14", adr(x.refs().p) == adr(&x.p), || "header field p".into());
        c.ck("C14", adr(x.refs().field) == adr(&x.field), || "header field field".into());
        c.ck("C14", adr(x.refs().end) == adr(&x.end), || "header field end".into());
        c.ck("C14", adr(x.refs().ptr) == adr(&x.ptr), || "header field ptr".into());
        c.ck("C14", adr(x.refs().size) == adr(&x.size), || "header field size".into());
        c.ck("C14", adr(x.refs().a) == adr(&x.a), || "header field a".into());
        c.ck("C14", adr(x.refs().init) == adr(&x.init), || "header field init".into());
        c.ck("C14", adr(x.refs().base) == adr(&x.base), || "header field base".into());
        c.ck("C14", adr(x.refs().k) == adr(&x.k), || "header field k".into());
        for d in 0..7 {
            let m_p: usize = match d { 1 => n_p + 1, 2 => n_p.wrapping_sub(1) % 251, _ => n_p };
            let m_ptr: usize = match d { 3 => n_ptr + 1, 4 => n_ptr.wrapping_sub(1) % 251, _ => n_ptr };
            let m_a: usize = match d { 5 => n_a + 1, 6 => n_a.wrapping_sub(1) % 251, _ => n_a };
            let same = (n_a + 1) == (m_a + 1) && n_ptr == m_ptr;
            let ok = x.as_mut().try_set_layout_controllers(sl::LayoutControllers { p: m_p as u8, ptr: Bd::new(m_ptr as u8, false), a: m_a as u32 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sl::LayoutControllers { p: n_p as u8, ptr: Bd::new(n_ptr as u8, false), a: n_a as u32 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); *y.header += 1; } w[0] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote header: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.w += 1; } w[1] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote w: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.item += 1; } w[3] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote item: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.refs += 1; } w[4] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote refs: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.z.iter_mut() { *q += 1 }; } w[6] = !((n_a + 1) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote z: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.field += 1; } w[7] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote field: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.end += 1; } w[8] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote end: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.arr.iter_mut() { *q += 1 }; } w[9] = !(n_ptr > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote arr: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.size += 1; } w[11] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote size: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.base.val += 1; } w[14] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote base: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.k += 1; } w[15] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote k: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Sm<E = D> {
    #[varlen_array] pub field: [u16; 3],
    #[varlen_array] pub item: [E; (*muts as usize + 1)],
    #[controls_layout] pub muts: u8,
    #[varlen_array] pub base: [u32; *muts as usize],
    #[varlen_array] pub refs: [E; (*muts as usize + *muts as usize)],
    #[varlen_array] pub k: [u32; *muts as usize],
    #[varlen_array] pub b: [u32; (*muts as usize + *muts as usize)],
}
fn sm(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sm>();
    let mut al = std::mem::align_of::<Sm>();
    let n_muts = r.to(7);
    let o_field = up(e, 2); e = o_field + 2 * (3); al = al.max(2);
    let o_item = up(e, 4); e = o_item + 12 * ((n_muts + 1)); al = al.max(4);
    let o_base = up(e, 4); e = o_base + 4 * (n_muts); al = al.max(4);
    let o_refs = up(e, 4); e = o_refs + 12 * ((n_muts + n_muts)); al = al.max(4);
    let o_k = up(e, 4); e = o_k + 4 * (n_muts); al = al.max(4);
    let o_b = up(e, 4); e = o_b + 4 * ((n_muts + n_muts)); al = al.max(4);
    c.case(format!("drawn struct Sm muts {}", n_muts), VT, MT, PT, |c| place::<Sm, _>(c, sm::Init { field: FillSequentially(|i| (20 + i) as u16), item: FillSequentially(|i| D::new(33 + i as u32)), muts: n_muts as u8, base: FillSequentially(|i| (59 + i) as u32), refs: FillSequentially(|i| D::new(72 + i as u32)), k: FillSequentially(|i| (85 + i) as u32), b: FillSequentially(|i| (98 + i) as u32) }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sm| { let y = x.refs(); [y.field.len() == 3 && y.field.iter().enumerate().all(|(i, q)| *q == (20 + i) as u16), y.item.len() == (n_muts + 1) && y.item.iter().enumerate().all(|(i, q)| q.get() == Some(33 + i as u32)), *y.muts == n_muts as u8, y.base.len() == n_muts && y.base.iter().enumerate().all(|(i, q)| *q == (59 + i) as u32), y.refs.len() == (n_muts + n_muts) && y.refs.iter().enumerate().all(|(i, q)| q.get() == Some(72 + i as u32)), y.k.len() == n_muts && y.k.iter().enumerate().all(|(i, q)| *q == (85 + i) as u32), y.b.len() == (n_muts + n_muts) && y.b.iter().enumerate().all(|(i, q)| *q == (98 + i) as u32)] };
        let names = ["field", "item", "muts", "base", "refs", "k", "b"];
        let bad = |g: [bool; 7], w: [bool; 7]| (0..7).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 7];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sm as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().field) - b; c.ck("C14 C01", p == o_field, || format!("field field at {}, expected {}", p, o_field)); }
        { let p = adr(&*x.as_mut().muts().field) - b; c.ck("C14", p == o_field, || format!("mutable field field at {}, expected {}", p, o_field)); }
        { let p = x.as_mut().muts().field.len(); c.ck("C14 C03", p == x.refs().field.len(), || format!("mutable field field has length {}", p)); }
        { let p = adr(x.refs().item) - b; c.ck("C14 C01", p == o_item, || format!("field item at {}, expected {}", p, o_item)); }
        { let p = adr(&*x.as_mut().muts().item) - b; c.ck("C14", p == o_item, || format!("mutable field item at {}, expected {}", p, o_item)); }
        { let p = x.as_mut().muts().item.len(); c.ck("C14 C03", p == x.refs().item.len(), || format!("mutable field item has length {}", p)); }
        { let p = adr(x.refs().base) - b; c.ck("C14 C01", p == o_base, || format!("field base at {}, expected {}", p, o_base)); }
        { let p = adr(&*x.as_mut().muts().base) - b; c.ck("C14", p == o_base, || format!("mutable field base at {}, expected {}", p, o_base)); }
        { let p = x.as_mut().muts().base.len(); c.ck("C14 C03", p == x.refs().base.len(), || format!("mutable field base has length {}", p)); }
        { let p = adr(x.refs().refs) - b; c.ck("C14 C01", p == o_refs, || format!("field refs at {}, expected {}", p, o_refs)); }
        { let p = adr(&*x.as_mut().muts().refs) - b; c.ck("C14", p == o_refs, || format!("mutable field refs at {}, expected {}", p, o_refs)); }
        { let p = x.as_mut().muts().refs.len(); c.ck("C14 C03", p == x.refs().refs.len(), || format!("mutable field refs has length {}", p)); }
        { let p = adr(x.refs().k) - b; c.ck("C14 C01", p == o_k, || format!("field k at {}, expected {}", p, o_k)); }
        { let p = adr(&*x.as_mut().muts().k) - b; c.ck("C14", p == o_k, || format!("mutable field k at {}, expected {}", p, o_k)); }
        { let p = x.as_mut().muts().k.len(); c.ck("C14 C03", p == x.refs().k.len(), || format!("mutable field k has length {}", p)); }
        { let p = adr(x.refs().b) - b; c.ck("C14 C01", p == o_b, || format!("field b at {}, expected {}", p, o_b)); }
        { let p = adr(&*x.as_mut().muts().b) - b; c.ck("C14", p == o_b, || format!("mutable field b at {}, expected {}", p, o_b)); }
        { let p = x.as_mut().muts().b.len(); c.ck("C14 C03", p == x.refs().b.len(), || format!("mutable field b has length {}", p)); }
        c.ck("C14", adr(x.refs().muts) == adr(&x.muts), || "header field muts".into());
        for d in 0..3 {
            let m_muts: usize = match d { 1 => n_muts + 1, 2 => n_muts.wrapping_sub(1) % 251, _ => n_muts };
            let same = 3 == 3 && (n_muts + 1) == (m_muts + 1) && n_muts == m_muts && (n_muts + n_muts) == (m_muts + m_muts) && n_muts == m_muts && (n_muts + n_muts) == (m_muts + m_muts);
            let ok = x.as_mut().try_set_layout_controllers(sm::LayoutControllers { muts: m_muts as u8 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sm::LayoutControllers { muts: n_muts as u8 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); for q in y.field.iter_mut() { *q += 1 }; } w[0] = !(3 > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote field: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.item.iter_mut() { q.val += 1 }; } w[1] = !((n_muts + 1) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote item: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.base.iter_mut() { *q += 1 }; } w[3] = !(n_muts > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote base: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.refs.iter_mut() { q.val += 1 }; } w[4] = !((n_muts + n_muts) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote refs: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.k.iter_mut() { *q += 1 }; } w[5] = !(n_muts > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote k: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.b.iter_mut() { *q += 1 }; } w[6] = !((n_muts + n_muts) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote b: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
#[repr(C)]
pub struct Sn<E = D> {
    #[varlen] pub a: Str,
    #[varlen_array] pub init: [u64; *muts as usize],
    #[varlen_array] pub sz: [E; (*muts as usize + *muts as usize)],
    #[controls_layout] pub muts: u8,
}
fn sn(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sn>();
    let mut al = std::mem::align_of::<Sn>();
    let n_muts = r.to(7);
    let n_a = r.to(9);
    let s_a = "stuvwxyzab"[..n_a].to_string();
    let o_a = up(e, 8); e = o_a + 8 + n_a; al = al.max(8);
    let o_init = up(e, 8); e = o_init + 8 * (n_muts); al = al.max(8);
    let o_sz = up(e, 4); e = o_sz + 12 * ((n_muts + n_muts)); al = al.max(4);
    c.case(format!("drawn struct Sn muts {} a {}", n_muts, n_a), VT, MT, PT, |c| place::<Sn, _>(c, sn::Init { a: Str::try_copy(&s_a).unwrap(), init: FillSequentially(|i| (33 + i) as u64), sz: FillSequentially(|i| D::new(46 + i as u32)), muts: n_muts as u8 }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sn| { let y = x.refs(); [&y.a[..] == s_a.as_str(), y.init.len() == n_muts && y.init.iter().enumerate().all(|(i, q)| *q == (33 + i) as u64), y.sz.len() == (n_muts + n_muts) && y.sz.iter().enumerate().all(|(i, q)| q.get() == Some(46 + i as u32)), *y.muts == n_muts as u8] };
        let names = ["a", "init", "sz", "muts"];
        let bad = |g: [bool; 4], w: [bool; 4]| (0..4).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 4];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sn as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().a) - b; c.ck("C14 C01", p == o_a, || format!("field a at {}, expected {}", p, o_a)); }
        { let p = adr(&*x.as_mut().muts().a) - b; c.ck("C14", p == o_a, || format!("mutable field a at {}, expected {}", p, o_a)); }
        { let p = adr(x.refs().init) - b; c.ck("C14 C01", p == o_init, || format!("field init at {}, expected {}", p, o_init)); }
        { let p = adr(&*x.as_mut().muts().init) - b; c.ck("C14", p == o_init, || format!("mutable field init at {}, expected {}", p, o_init)); }
        { let p = x.as_mut().muts().init.len(); c.ck("C14 C03", p == x.refs().init.len(), || format!("mutable field init has length {}", p)); }
        { let p = adr(x.refs().sz) - b; c.ck("C14 C01", p == o_sz, || format!("field sz at {}, expected {}", p, o_sz)); }
        { let p = adr(&*x.as_mut().muts().sz) - b; c.ck("C14", p == o_sz, || format!("mutable field sz at {}, expected {}", p, o_sz)); }
        { let p = x.as_mut().muts().sz.len(); c.ck("C14 C03", p == x.refs().sz.len(), || format!("mutable field sz has length {}", p)); }
        c.ck("C14", adr(x.refs().muts) == adr(&x.muts), || "header field muts".into());
        for d in 0..3 {
            let m_muts: usize = match d { 1 => n_muts + 1, 2 => n_muts.wrapping_sub(1) % 251, _ => n_muts };
            let same = n_muts == m_muts && (n_muts + n_muts) == (m_muts + m_muts);
            let ok = x.as_mut().try_set_layout_controllers(sn::LayoutControllers { muts: m_muts as u8 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sn::LayoutControllers { muts: n_muts as u8 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); y.a.mut_slice().make_ascii_uppercase(); } w[0] = !(n_a > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote a: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.init.iter_mut() { *q += 1 }; } w[1] = !(n_muts > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote init: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.sz.iter_mut() { q.val += 1 }; } w[2] = !((n_muts + n_muts) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote sz: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct So {
    #[varlen] pub field: Array<u16, u8>,
    #[varlen] pub refs: Array<u16, u8>,
    pub layout: u16,
    pub header: u8,
    #[varlen] pub base: Str,
}
fn so(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<So>();
    let mut al = std::mem::align_of::<So>();
    let n_field = r.to(9);
    let n_refs = r.to(9);
    let n_base = r.to(9);
    let s_base = "stuvwxyzab"[..n_base].to_string();
    let o_field = up(e, 2); e = o_field + 2 + 2 * n_field; al = al.max(2);
    let o_refs = up(e, 2); e = o_refs + 2 + 2 * n_refs; al = al.max(2);
    let o_base = up(e, 8); e = o_base + 8 + n_base; al = al.max(8);
    c.case(format!("drawn struct So field {} refs {} base {}", n_field, n_refs, n_base), VT, MT, PT, |c| place::<So, _>(c, so::Init { field: SizedInit(n_field as u8, FillSequentially(|i| (20 + i) as u16)), refs: SizedInit(n_refs as u8, FillSequentially(|i| (33 + i) as u16)), layout: 46, header: 59, base: Str::try_copy(&s_base).unwrap() }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &So| { let y = x.refs(); [y.field.len() == n_field && y.field.iter().enumerate().all(|(i, q)| *q == (20 + i) as u16), y.refs.len() == n_refs && y.refs.iter().enumerate().all(|(i, q)| *q == (33 + i) as u16), *y.layout == 46, *y.header == 59, &y.base[..] == s_base.as_str()] };
        let names = ["field", "refs", "layout", "header", "base"];
        let bad = |g: [bool; 5], w: [bool; 5]| (0..5).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 5];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <So as VarLen>::NEEDS_VDROP == false, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().field) - b; c.ck("C14 C01", p == o_field, || format!("field field at {}, expected {}", p, o_field)); }
        { let p = adr(&*x.as_mut().muts().field) - b; c.ck("C14", p == o_field, || format!("mutable field field at {}, expected {}", p, o_field)); }
        { let p = adr(x.refs().refs) - b; c.ck("C14 C01", p == o_refs, || format!("field refs at {}, expected {}", p, o_refs)); }
        { let p = adr(&*x.as_mut().muts().refs) - b; c.ck("C14", p == o_refs, || format!("mutable field refs at {}, expected {}", p, o_refs)); }
        { let p = adr(x.refs().base) - b; c.ck("C14 C01", p == o_base, || format!("field base at {}, expected {}", p, o_base)); }
        { let p = adr(&*x.as_mut().muts().base) - b; c.ck("C14", p == o_base, || format!("mutable field base at {}, expected {}", p, o_base)); }
        c.ck("C14", adr(x.refs().layout) == adr(&x.layout), || "header field layout".into());
        c.ck("C14", adr(x.refs().header) == adr(&x.header), || "header field header".into());
        { let y = x.as_mut().muts(); for q in y.field.mut_slice() { *q += 1 }; } w[0] = !(n_field > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote field: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.refs.mut_slice() { *q += 1 }; } w[1] = !(n_refs > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote refs: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.layout += 1; } w[2] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote layout: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.header += 1; } w[3] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote header: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.base.mut_slice().make_ascii_uppercase(); } w[4] = !(n_base > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote base: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Sp {
    #[varlen_array] pub k: [u32; 3],
    #[varlen_array] pub ptr: [u32; (*refs as usize / 2)],
    #[varlen_array] pub arr: [u16; 3],
    #[varlen_array] pub muts: [Z; *refs as usize],
    #[varlen_array] pub init: [u16; *refs as usize],
    #[controls_layout] pub refs: u8,
}
fn sp(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sp>();
    let mut al = std::mem::align_of::<Sp>();
    let n_refs = r.to(7);
    let o_k = up(e, 4); e = o_k + 4 * (3); al = al.max(4);
    let o_ptr = up(e, 4); e = o_ptr + 4 * ((n_refs / 2)); al = al.max(4);
    let o_arr = up(e, 2); e = o_arr + 2 * (3); al = al.max(2);
    let o_muts = up(e, 1); e = o_muts + 0 * (n_refs); al = al.max(1);
    let o_init = up(e, 2); e = o_init + 2 * (n_refs); al = al.max(2);
    c.case(format!("drawn struct Sp refs {}", n_refs), VT, MT, PT, |c| place::<Sp, _>(c, sp::Init { k: FillSequentially(|i| (20 + i) as u32), ptr: FillSequentially(|i| (33 + i) as u32), arr: FillSequentially(|i| (46 + i) as u16), muts: FillSequentially(|_| Z::new()), init: FillSequentially(|i| (72 + i) as u16), refs: n_refs as u8 }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sp| { let y = x.refs(); [y.k.len() == 3 && y.k.iter().enumerate().all(|(i, q)| *q == (20 + i) as u32), y.ptr.len() == (n_refs / 2) && y.ptr.iter().enumerate().all(|(i, q)| *q == (33 + i) as u32), y.arr.len() == 3 && y.arr.iter().enumerate().all(|(i, q)| *q == (46 + i) as u16), y.muts.len() == n_refs, y.init.len() == n_refs && y.init.iter().enumerate().all(|(i, q)| *q == (72 + i) as u16), *y.refs == n_refs as u8] };
        let names = ["k", "ptr", "arr", "muts", "init", "refs"];
        let bad = |g: [bool; 6], w: [bool; 6]| (0..6).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 6];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sp as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().k) - b; c.ck("C14 C01", p == o_k, || format!("field k at {}, expected {}", p, o_k)); }
        { let p = adr(&*x.as_mut().muts().k) - b; c.ck("C14", p == o_k, || format!("mutable field k at {}, expected {}", p, o_k)); }
        { let p = x.as_mut().muts().k.len(); c.ck("C14 C03", p == x.refs().k.len(), || format!("mutable field k has length {}", p)); }
        { let p = adr(x.refs().ptr) - b; c.ck("C14 C01", p == o_ptr, || format!("field ptr at {}, expected {}", p, o_ptr)); }
        { let p = adr(&*x.as_mut().muts().ptr) - b; c.ck("C14", p == o_ptr, || format!("mutable field ptr at {}, expected {}", p, o_ptr)); }
        { let p = x.as_mut().muts().ptr.len(); c.ck("C14 C03", p == x.refs().ptr.len(), || format!("mutable field ptr has length {}", p)); }
        { let p = adr(x.refs().arr) - b; c.ck("C14 C01", p == o_arr, || format!("field arr at {}, expected {}", p, o_arr)); }
        { let p = adr(&*x.as_mut().muts().arr) - b; c.ck("C14", p == o_arr, || format!("mutable field arr at {}, expected {}", p, o_arr)); }
        { let p = x.as_mut().muts().arr.len(); c.ck("C14 C03", p == x.refs().arr.len(), || format!("mutable field arr has length {}", p)); }
        { let p = adr(x.refs().muts) - b; c.ck("C14 C01", p == o_muts, || format!("field muts at {}, expected {}", p, o_muts)); }
        { let p = adr(&*x.as_mut().muts().muts) - b; c.ck("C14", p == o_muts, || format!("mutable field muts at {}, expected {}", p, o_muts)); }
        { let p = x.as_mut().muts().muts.len(); c.ck("C14 C03", p == x.refs().muts.len(), || format!("mutable field muts has length {}", p)); }
        { let p = adr(x.refs().init) - b; c.ck("C14 C01", p == o_init, || format!("field init at {}, expected {}", p, o_init)); }
        { let p = adr(&*x.as_mut().muts().init) - b; c.ck("C14", p == o_init, || format!("mutable field init at {}, expected {}", p, o_init)); }
        { let p = x.as_mut().muts().init.len(); c.ck("C14 C03", p == x.refs().init.len(), || format!("mutable field init has length {}", p)); }
        c.ck("C14", adr(x.refs().refs) == adr(&x.refs), || "header field refs".into());
        for d in 0..3 {
            let m_refs: usize = match d { 1 => n_refs + 1, 2 => n_refs.wrapping_sub(1) % 251, _ => n_refs };
            let same = 3 == 3 && (n_refs / 2) == (m_refs / 2) && 3 == 3 && n_refs == m_refs && n_refs == m_refs;
            let ok = x.as_mut().try_set_layout_controllers(sp::LayoutControllers { refs: m_refs as u8 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sp::LayoutControllers { refs: n_refs as u8 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); for q in y.k.iter_mut() { *q += 1 }; } w[0] = !(3 > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote k: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.ptr.iter_mut() { *q += 1 }; } w[1] = !((n_refs / 2) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote ptr: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.arr.iter_mut() { *q += 1 }; } w[2] = !(3 > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote arr: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.init.iter_mut() { *q += 1 }; } w[4] = !(n_refs > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote init: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
#[repr(C)]
pub struct Sq {
    #[varlen] pub sz: Array<u16, u8>,
}
fn sq(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sq>();
    let mut al = std::mem::align_of::<Sq>();
    let n_sz = r.to(9);
    let o_sz = up(e, 2); e = o_sz + 2 + 2 * n_sz; al = al.max(2);
    c.case(format!("drawn struct Sq sz {}", n_sz), VT, MT, PT, |c| place::<Sq, _>(c, sq::Init { sz: SizedInit(n_sz as u8, FillSequentially(|i| (20 + i) as u16)) }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sq| { let y = x.refs(); [y.sz.len() == n_sz && y.sz.iter().enumerate().all(|(i, q)| *q == (20 + i) as u16)] };
        let names = ["sz"];
        let bad = |g: [bool; 1], w: [bool; 1]| (0..1).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 1];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sq as VarLen>::NEEDS_VDROP == false, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().sz) - b; c.ck("C14 C01", p == o_sz, || format!("field sz at {}, expected {}", p, o_sz)); }
        { let p = adr(&*x.as_mut().muts().sz) - b; c.ck("C14", p == o_sz, || format!("mutable field sz at {}, expected {}", p, o_sz)); }
        { let y = x.as_mut().muts(); for q in y.sz.mut_slice() { *q += 1 }; } w[0] = !(n_sz > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote sz: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Sr {
    pub field: Z,
    pub muts: D,
}
fn sr(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sr>();
    let mut al = std::mem::align_of::<Sr>();
    c.case(format!("drawn struct Sr "), VT, MT, PT, |c| place::<Sr, _>(c, sr::Init { field: Z::new(), muts: D::new(33) }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sr| { let y = x.refs(); [adr(y.field) == adr(&x.field), y.muts.get() == Some(33)] };
        let names = ["field", "muts"];
        let bad = |g: [bool; 2], w: [bool; 2]| (0..2).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 2];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sr as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        c.ck("C14", adr(x.refs().field) == adr(&x.field), || "header field field".into());
        c.ck("C14", adr(x.refs().muts) == adr(&x.muts), || "header field muts".into());
        { let y = x.as_mut().muts(); y.muts.val += 1; } w[1] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote muts: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Ss {
    pub k: Z,
    pub base: u8,
    pub layout: u64,
    pub a: u8,
    pub b: u64,
    pub p: u16,
    pub header: u8,
    pub arr: u32,
    pub muts: u16,
}
fn ss(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Ss>();
    let mut al = std::mem::align_of::<Ss>();
    c.case(format!("drawn struct Ss "), VT, MT, PT, |c| place::<Ss, _>(c, ss::Init { k: Z::new(), base: 33, layout: 46, a: 59, b: 72, p: 85, header: 98, arr: 111, muts: 124 }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Ss| { let y = x.refs(); [adr(y.k) == adr(&x.k), *y.base == 33, *y.layout == 46, *y.a == 59, *y.b == 72, *y.p == 85, *y.header == 98, *y.arr == 111, *y.muts == 124] };
        let names = ["k", "base", "layout", "a", "b", "p", "header", "arr", "muts"];
        let bad = |g: [bool; 9], w: [bool; 9]| (0..9).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 9];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Ss as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        c.ck("C14", adr(x.refs().k) == adr(&x.k), || "header field k".into());
        c.ck("C14", adr(x.refs().base) == adr(&x.base), || "header field base".into());
        c.ck("C14", adr(x.refs().layout) == adr(&x.layout), || "header field layout".into());
        c.ck("C14", adr(x.refs().a) == adr(&x.a), || "header field a".into());
        c.ck("C14", adr(x.refs().b) == adr(&x.b), || "header field b".into());
        c.ck("C14", adr(x.refs().p) == adr(&x.p), || "header field p".into());
        c.ck("C14", adr(x.refs().header) == adr(&x.header), || "header field header".into());
        c.ck("C14", adr(x.refs().arr) == adr(&x.arr), || "header field arr".into());
        c.ck("C14", adr(x.refs().muts) == adr(&x.muts), || "header field muts".into());
        { let y = x.as_mut().muts(); *y.base += 1; } w[1] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote base: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.layout += 1; } w[2] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote layout: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.a += 1; } w[3] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote a: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.b += 1; } w[4] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote b: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.p += 1; } w[5] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote p: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.header += 1; } w[6] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote header: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.arr += 1; } w[7] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote arr: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.muts += 1; } w[8] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote muts: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
#[repr(C)]
pub struct St<E = D> {
    #[varlen_array] pub z: [Z; (*p as usize + *base as usize)],
    #[controls_layout] pub b: u8,
    #[varlen_array] pub sz: [u16; *base as usize],
    #[controls_layout] pub base: u8,
    #[varlen_array] pub w: [E; (*base as usize + 1)],
    #[varlen_array] pub arr: [u8; *b as usize],
    #[varlen_array] pub offset: [Z; (*b as usize + *p as usize)],
    #[controls_layout] pub p: u8,
}
fn st(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<St>();
    let mut al = std::mem::align_of::<St>();
    let n_b = r.to(7);
    let n_base = r.to(7);
    let n_p = r.to(7);
    let o_z = up(e, 1); e = o_z + 0 * ((n_p + n_base)); al = al.max(1);
    let o_sz = up(e, 2); e = o_sz + 2 * (n_base); al = al.max(2);
    let o_w = up(e, 4); e = o_w + 12 * ((n_base + 1)); al = al.max(4);
    let o_arr = up(e, 1); e = o_arr + 1 * (n_b); al = al.max(1);
    let o_offset = up(e, 1); e = o_offset + 0 * ((n_b + n_p)); al = al.max(1);
    c.case(format!("drawn struct St b {} base {} p {}", n_b, n_base, n_p), VT, MT, PT, |c| place::<St, _>(c, st::Init { z: FillSequentially(|_| Z::new()), b: n_b as u8, sz: FillSequentially(|i| (46 + i) as u16), base: n_base as u8, w: FillSequentially(|i| D::new(72 + i as u32)), arr: FillSequentially(|i| (85 + i) as u8), offset: FillSequentially(|_| Z::new()), p: n_p as u8 }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &St| { let y = x.refs(); [y.z.len() == (n_p + n_base), *y.b == n_b as u8, y.sz.len() == n_base && y.sz.iter().enumerate().all(|(i, q)| *q == (46 + i) as u16), *y.base == n_base as u8, y.w.len() == (n_base + 1) && y.w.iter().enumerate().all(|(i, q)| q.get() == Some(72 + i as u32)), y.arr.len() == n_b && y.arr.iter().enumerate().all(|(i, q)| *q == (85 + i) as u8), y.offset.len() == (n_b + n_p), *y.p == n_p as u8] };
        let names = ["z", "b", "sz", "base", "w", "arr", "offset", "p"];
        let bad = |g: [bool; 8], w: [bool; 8]| (0..8).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 8];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <St as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().z) - b; c.ck("C14 C01", p == o_z, || format!("field z at {}, expected {}", p, o_z)); }
        { let p = adr(&*x.as_mut().muts().z) - b; c.ck("C14", p == o_z, || format!("mutable field z at {}, expected {}", p, o_z)); }
        { let p = x.as_mut().muts().z.len(); c.ck("C14 C03", p == x.refs().z.len(), || format!("mutable field z has length {}", p)); }
        { let p = adr(x.refs().sz) - b; c.ck("C14 C01", p == o_sz, || format!("field sz at {}, expected {}", p, o_sz)); }
        { let p = adr(&*x.as_mut().muts().sz) - b; c.ck("C14", p == o_sz, || format!("mutable field sz at {}, expected {}", p, o_sz)); }
        { let p = x.as_mut().muts().sz.len(); c.ck("C14 C03", p == x.refs().sz.len(), || format!("mutable field sz has length {}", p)); }
        { let p = adr(x.refs().w) - b; c.ck("C14 C01", p == o_w, || format!("field w at {}, expected {}", p, o_w)); }
        { let p = adr(&*x.as_mut().muts().w) - b; c.ck("C14", p == o_w, || format!("mutable field w at {}, expected {}", p, o_w)); }
        { let p = x.as_mut().muts().w.len(); c.ck("C14 C03", p == x.refs().w.len(), || format!("mutable field w has length {}", p)); }
        { let p = adr(x.refs().arr) - b; c.ck("C14 C01", p == o_arr, || format!("field arr at {}, expected {}", p, o_arr)); }
        { let p = adr(&*x.as_mut().muts().arr) - b; c.ck("C14", p == o_arr, || format!("mutable field arr at {}, expected {}", p, o_arr)); }
        { let p = x.as_mut().muts().arr.len(); c.ck("C14 C03", p == x.refs().arr.len(), || format!("mutable field arr has length {}", p)); }
        { let p = adr(x.refs().offset) - b; c.ck("C14 C01", p == o_offset, || format!("field offset at {}, expected {}", p, o_offset)); }
        { let p = adr(&*x.as_mut().muts().offset) - b; c.ck("C14", p == o_offset, || format!("mutable field offset at {}, expected {}", p, o_offset)); }
        { let p = x.as_mut().muts().offset.len(); c.ck("C14 C03", p == x.refs().offset.len(), || format!("mutable field offset has length {}", p)); }
        c.ck("C14", adr(x.refs().b) == adr(&x.b), || "header field b".into());
        c.ck("C14", adr(x.refs().base) == adr(&x.base), || "header field base".into());
        c.ck("C14", adr(x.refs().p) == adr(&x.p), || "header field p".into());
        for d in 0..7 {
            let m_b: usize = match d { 1 => n_b + 1, 2 => n_b.wrapping_sub(1) % 251, _ => n_b };
            let m_base: usize = match d { 3 => n_base + 1, 4 => n_base.wrapping_sub(1) % 251, _ => n_base };
            let m_p: usize = match d { 5 => n_p + 1, 6 => n_p.wrapping_sub(1) % 251, _ => n_p };
            let same = (n_p + n_base) == (m_p + m_base) && n_base == m_base && (n_base + 1) == (m_base + 1) && n_b == m_b && (n_b + n_p) == (m_b + m_p);
            let ok = x.as_mut().try_set_layout_controllers(st::LayoutControllers { b: m_b as u8, base: m_base as u8, p: m_p as u8 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(st::LayoutControllers { b: n_b as u8, base: n_base as u8, p: n_p as u8 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); for q in y.sz.iter_mut() { *q += 1 }; } w[2] = !(n_base > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote sz: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.w.iter_mut() { q.val += 1 }; } w[4] = !((n_base + 1) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote w: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.arr.iter_mut() { *q += 1 }; } w[5] = !(n_b > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote arr: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Su<E = D> {
    #[varlen_array] pub w: [E; *b as usize],
    #[controls_layout] pub muts: u8,
    #[controls_layout] pub b: u32,
    #[varlen_array] pub offset: [u64; (*b as usize + 1)],
    #[varlen_array] pub sz: [Z; (*b as usize + 1)],
}
fn su(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Su>();
    let mut al = std::mem::align_of::<Su>();
    let n_muts = r.to(7);
    let n_b = r.to(7);
    let o_w = up(e, 4); e = o_w + 12 * (n_b); al = al.max(4);
    let o_offset = up(e, 8); e = o_offset + 8 * ((n_b + 1)); al = al.max(8);
    let o_sz = up(e, 1); e = o_sz + 0 * ((n_b + 1)); al = al.max(1);
    c.case(format!("drawn struct Su muts {} b {}", n_muts, n_b), VT, MT, PT, |c| place::<Su, _>(c, su::Init { w: FillSequentially(|i| D::new(20 + i as u32)), muts: n_muts as u8, b: n_b as u32, offset: FillSequentially(|i| (59 + i) as u64), sz: FillSequentially(|_| Z::new()) }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Su| { let y = x.refs(); [y.w.len() == n_b && y.w.iter().enumerate().all(|(i, q)| q.get() == Some(20 + i as u32)), *y.muts == n_muts as u8, *y.b == n_b as u32, y.offset.len() == (n_b + 1) && y.offset.iter().enumerate().all(|(i, q)| *q == (59 + i) as u64), y.sz.len() == (n_b + 1)] };
        let names = ["w", "muts", "b", "offset", "sz"];
        let bad = |g: [bool; 5], w: [bool; 5]| (0..5).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 5];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Su as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().w) - b; c.ck("C14 C01", p == o_w, || format!("field w at {}, expected {}", p, o_w)); }
        { let p = adr(&*x.as_mut().muts().w) - b; c.ck("C14", p == o_w, || format!("mutable field w at {}, expected {}", p, o_w)); }
        { let p = x.as_mut().muts().w.len(); c.ck("C14 C03", p == x.refs().w.len(), || format!("mutable field w has length {}", p)); }
        { let p = adr(x.refs().offset) - b; c.ck("C14 C01", p == o_offset, || format!("field offset at {}, expected {}", p, o_offset)); }
        { let p = adr(&*x.as_mut().muts().offset) - b; c.ck("C14", p == o_offset, || format!("mutable field offset at {}, expected {}", p, o_offset)); }
        { let p = x.as_mut().muts().offset.len(); c.ck("C14 C03", p == x.refs().offset.len(), || format!("mutable field offset has length {}", p)); }
        { let p = adr(x.refs().sz) - b; c.ck("C14 C01", p == o_sz, || format!("field sz at {}, expected {}", p, o_sz)); }
        { let p = adr(&*x.as_mut().muts().sz) - b; c.ck("C14", p == o_sz, || format!("mutable field sz at {}, expected {}", p, o_sz)); }
        { let p = x.as_mut().muts().sz.len(); c.ck("C14 C03", p == x.refs().sz.len(), || format!("mutable field sz has length {}", p)); }
        c.ck("C14", adr(x.refs().muts) == adr(&x.muts), || "header field muts".into());
        c.ck("C14", adr(x.refs().b) == adr(&x.b), || "header field b".into());
        for d in 0..5 {
            let m_muts: usize = match d { 1 => n_muts + 1, 2 => n_muts.wrapping_sub(1) % 251, _ => n_muts };
            let m_b: usize = match d { 3 => n_b + 1, 4 => n_b.wrapping_sub(1) % 251, _ => n_b };
            let same = n_b == m_b && (n_b + 1) == (m_b + 1) && (n_b + 1) == (m_b + 1);
            let ok = x.as_mut().try_set_layout_controllers(su::LayoutControllers { muts: m_muts as u8, b: m_b as u32 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(su::LayoutControllers { muts: n_muts as u8, b: n_b as u32 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); for q in y.w.iter_mut() { q.val += 1 }; } w[0] = !(n_b > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote w: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.offset.iter_mut() { *q += 1 }; } w[3] = !((n_b + 1) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote offset: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Sv<E = D> {
    pub base: Z,
    pub init: D,
    pub dst: D,
    pub a: Z,
    pub arr: u8,
    #[controls_layout] pub z: u32,
    #[varlen] pub p: Str,
    #[controls_layout] pub refs: u32,
    pub field: u64,
    #[controls_layout] pub offset: u32,
    #[controls_layout] pub layout: u32,
    pub size: D,
    pub b: u32,
    pub w: u64,
    pub ptr: u64,
    #[varlen] pub end: Str<u32>,
    pub muts: u64,
    #[varlen_array] pub k: [E; (*refs as usize + 1)],
}
fn sv(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sv>();
    let mut al = std::mem::align_of::<Sv>();
    let n_z = r.to(7);
    let n_refs = r.to(7);
    let n_offset = r.to(7);
    let n_layout = r.to(7);
    let n_p = r.to(9);
    let s_p = "stuvwxyzab"[..n_p].to_string();
    let n_end = r.to(9);
    let s_end = "stuvwxyzab"[..n_end].to_string();
    let o_p = up(e, 8); e = o_p + 8 + n_p; al = al.max(8);
    let o_end = up(e, 4); e = o_end + 4 + n_end; al = al.max(4);
    let o_k = up(e, 4); e = o_k + 12 * ((n_refs + 1)); al = al.max(4);
    c.case(format!("drawn struct Sv z {} refs {} offset {} layout {} p {} end {}", n_z, n_refs, n_offset, n_layout, n_p, n_end), VT, MT, PT, |c| place::<Sv, _>(c, sv::Init { base: Z::new(), init: D::new(33), dst: D::new(46), a: Z::new(), arr: 72, z: n_z as u32, p: Str::try_copy(&s_p).unwrap(), refs: n_refs as u32, field: 124, offset: n_offset as u32, layout: n_layout as u32, size: D::new(163), b: 176, w: 189, ptr: 202, end: Str::try_copy(&s_end).unwrap(), muts: 228, k: FillSequentially(|i| D::new(241 + i as u32)) }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sv| { let y = x.refs(); [adr(y.base) == adr(&x.base), y.init.get() == Some(33), y.dst.get() == Some(46), adr(y.a) == adr(&x.a), *y.arr == 72, *y.z == n_z as u32, &y.p[..] == s_p.as_str(), *y.refs == n_refs as u32, *y.field == 124, *y.offset == n_offset as u32, *y.layout == n_layout as u32, y.size.get() == Some(163), *y.b == 176, *y.w == 189, *y.ptr == 202, &y.end[..] == s_end.as_str(), *y.muts == 228, y.k.len() == (n_refs + 1) && y.k.iter().enumerate().all(|(i, q)| q.get() == Some(241 + i as u32))] };
        let names = ["base", "init", "dst", "a", "arr", "z", "p", "refs", "field", "offset", "layout", "size", "b", "w", "ptr", "end", "muts", "k"];
        let bad = |g: [bool; 18], w: [bool; 18]| (0..18).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 18];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sv as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().p) - b; c.ck("C14 C01", p == o_p, || format!("field p at {}, expected {}", p, o_p)); }
        { let p = adr(&*x.as_mut().muts().p) - b; c.ck("C14", p == o_p, || format!("mutable field p at {}, expected {}", p, o_p)); }
        { let p = adr(x.refs().end) - b; c.ck("C14 C01", p == o_end, || format!("field end at {}, expected {}", p, o_end)); }
        { let p = adr(&*x.as_mut().muts().end) - b; c.ck("C14", p == o_end, || format!("mutable field end at {}, expected {}", p, o_end)); }
        { let p = adr(x.refs().k) - b; c.ck("C14 C01", p == o_k, || format!("field k at {}, expected {}", p, o_k)); }
        { let p = adr(&*x.as_mut().muts().k) - b; c.ck("C14", p == o_k, || format!("mutable field k at {}, expected {}", p, o_k)); }
        { let p = x.as_mut().muts().k.len(); c.ck("C14 C03", p == x.refs().k.len(), || format!("mutable field k has length {}", p)); }
        c.ck("C14", adr(x.refs().base) == adr(&x.base), || "header field base".into());
        c.ck("C14", adr(x.refs().init) == adr(&x.init), || "header field init".into());
        c.ck("C14", adr(x.refs().dst) == adr(&x.dst), || "header field dst".into());
        c.ck("C14", adr(x.refs().a) == adr(&x.a), || "header field a".into());
        c.ck("C14", adr(x.refs().arr) == adr(&x.arr), || "header field arr".into());
        c.ck("C14", adr(x.refs().z) == adr(&x.z), || "header field z".into());
        c.ck("C14", adr(x.refs().refs) == adr(&x.refs), || "header field refs".into());
        c.ck("C14", adr(x.refs().field) == adr(&x.field), || "header field field".into());
        c.ck("C14", adr(x.refs().offset) == adr(&x.offset), || "header field offset".into());
        c.ck("C14", adr(x.refs().layout) == adr(&x.layout), || "header field layout".into());
        c.ck("C14", adr(x.refs().size) == adr(&x.size), || "header field size".into());
        c.ck("C14", adr(x.refs().b) == adr(&x.b), || "header field b".into());
        c.ck("C14", adr(x.refs().w) == adr(&x.w), || "header field w".into());
        c.ck("C14", adr(x.refs().ptr) == adr(&x.ptr), || "header field ptr".into());
        c.ck("C14", adr(x.refs().muts) == adr(&x.muts), || "header field muts".into());
        for d in 0..9 {
            let m_z: usize = match d { 1 => n_z + 1, 2 => n_z.wrapping_sub(1) % 251, _ => n_z };
            let m_refs: usize = match d { 3 => n_refs + 1, 4 => n_refs.wrapping_sub(1) % 251, _ => n_refs };
            let m_offset: usize = match d { 5 => n_offset + 1, 6 => n_offset.wrapping_sub(1) % 251, _ => n_offset };
            let m_layout: usize = match d { 7 => n_layout + 1, 8 => n_layout.wrapping_sub(1) % 251, _ => n_layout };
            let same = (n_refs + 1) == (m_refs + 1);
            let ok = x.as_mut().try_set_layout_controllers(sv::LayoutControllers { z: m_z as u32, refs: m_refs as u32, offset: m_offset as u32, layout: m_layout as u32 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sv::LayoutControllers { z: n_z as u32, refs: n_refs as u32, offset: n_offset as u32, layout: n_layout as u32 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); y.init.val += 1; } w[1] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote init: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.dst.val += 1; } w[2] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote dst: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.arr += 1; } w[4] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote arr: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.p.mut_slice().make_ascii_uppercase(); } w[6] = !(n_p > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote p: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.field += 1; } w[8] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote field: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.size.val += 1; } w[11] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote size: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.b += 1; } w[12] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote b: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.w += 1; } w[13] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote w: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.ptr += 1; } w[14] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote ptr: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.end.mut_slice().make_ascii_uppercase(); } w[15] = !(n_end > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote end: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); *y.muts += 1; } w[16] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote muts: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.k.iter_mut() { q.val += 1 }; } w[17] = !((n_refs + 1) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote k: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
#[repr(C)]
pub struct Sw {
    #[controls_layout] pub item: u32,
    #[varlen] pub end: Array<u16, u8>,
    #[varlen_array] pub a: [u64; (*item as usize + 1)],
}
fn sw(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sw>();
    let mut al = std::mem::align_of::<Sw>();
    let n_item = r.to(7);
    let n_end = r.to(9);
    let o_end = up(e, 2); e = o_end + 2 + 2 * n_end; al = al.max(2);
    let o_a = up(e, 8); e = o_a + 8 * ((n_item + 1)); al = al.max(8);
    c.case(format!("drawn struct Sw item {} end {}", n_item, n_end), VT, MT, PT, |c| place::<Sw, _>(c, sw::Init { item: n_item as u32, end: SizedInit(n_end as u8, FillSequentially(|i| (33 + i) as u16)), a: FillSequentially(|i| (46 + i) as u64) }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sw| { let y = x.refs(); [*y.item == n_item as u32, y.end.len() == n_end && y.end.iter().enumerate().all(|(i, q)| *q == (33 + i) as u16), y.a.len() == (n_item + 1) && y.a.iter().enumerate().all(|(i, q)| *q == (46 + i) as u64)] };
        let names = ["item", "end", "a"];
        let bad = |g: [bool; 3], w: [bool; 3]| (0..3).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 3];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sw as VarLen>::NEEDS_VDROP == false, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().end) - b; c.ck("C14 C01", p == o_end, || format!("field end at {}, expected {}", p, o_end)); }
        { let p = adr(&*x.as_mut().muts().end) - b; c.ck("C14", p == o_end, || format!("mutable field end at {}, expected {}", p, o_end)); }
        { let p = adr(x.refs().a) - b; c.ck("C14 C01", p == o_a, || format!("field a at {}, expected {}", p, o_a)); }
        { let p = adr(&*x.as_mut().muts().a) - b; c.ck("C14", p == o_a, || format!("mutable field a at {}, expected {}", p, o_a)); }
        { let p = x.as_mut().muts().a.len(); c.ck("C14 C03", p == x.refs().a.len(), || format!("mutable field a has length {}", p)); }
        c.ck("C14", adr(x.refs().item) == adr(&x.item), || "header field item".into());
        for d in 0..3 {
            let m_item: usize = match d { 1 => n_item + 1, 2 => n_item.wrapping_sub(1) % 251, _ => n_item };
            let same = (n_item + 1) == (m_item + 1);
            let ok = x.as_mut().try_set_layout_controllers(sw::LayoutControllers { item: m_item as u32 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sw::LayoutControllers { item: n_item as u32 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); for q in y.end.mut_slice() { *q += 1 }; } w[1] = !(n_end > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote end: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.a.iter_mut() { *q += 1 }; } w[2] = !((n_item + 1) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote a: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Sx<E = D> {
    #[controls_layout] pub p: Bd,
    pub base: Z,
    #[varlen_array] pub refs: [E; 3],
    #[varlen_array] pub field: [Z; p.n()],
    #[controls_layout] pub item: u8,
    #[controls_layout] pub dst: u8,
    pub end: Z,
}
fn sx(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sx>();
    let mut al = std::mem::align_of::<Sx>();
    let n_p = r.to(7);
    let n_item = r.to(7);
    let n_dst = r.to(7);
    let o_refs = up(e, 4); e = o_refs + 12 * (3); al = al.max(4);
    let o_field = up(e, 1); e = o_field + 0 * (n_p); al = al.max(1);
    c.case(format!("drawn struct Sx p {} item {} dst {}", n_p, n_item, n_dst), VT, MT, PT, |c| place::<Sx, _>(c, sx::Init { p: Bd::new(n_p as u8, false), base: Z::new(), refs: FillSequentially(|i| D::new(46 + i as u32)), field: FillSequentially(|_| Z::new()), item: n_item as u8, dst: n_dst as u8, end: Z::new() }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sx| { let y = x.refs(); [y.p.n() == n_p && y.p.get().is_some(), adr(y.base) == adr(&x.base), y.refs.len() == 3 && y.refs.iter().enumerate().all(|(i, q)| q.get() == Some(46 + i as u32)), y.field.len() == n_p, *y.item == n_item as u8, *y.dst == n_dst as u8, adr(y.end) == adr(&x.end)] };
        let names = ["p", "base", "refs", "field", "item", "dst", "end"];
        let bad = |g: [bool; 7], w: [bool; 7]| (0..7).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 7];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sx as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().refs) - b; c.ck("C14 C01", p == o_refs, || format!("field refs at {}, expected {}", p, o_refs)); }
        { let p = adr(&*x.as_mut().muts().refs) - b; c.ck("C14", p == o_refs, || format!("mutable field refs at {}, expected {}", p, o_refs)); }
        { let p = x.as_mut().muts().refs.len(); c.ck("C14 C03", p == x.refs().refs.len(), || format!("mutable field refs has length {}", p)); }
        { let p = adr(x.refs().field) - b; c.ck("C14 C01", p == o_field, || format!("field field at {}, expected {}", p, o_field)); }
        { let p = adr(&*x.as_mut().muts().field) - b; c.ck("C14", p == o_field, || format!("mutable field field at {}, expected {}", p, o_field)); }
        { let p = x.as_mut().muts().field.len(); c.ck("C14 C03", p == x.refs().field.len(), || format!("mutable field field has length {}", p)); }
        c.ck("C14", adr(x.refs().p) == adr(&x.p), || "header field p".into());
        c.ck("C14", adr(x.refs().base) == adr(&x.base), || "header field base".into());
        c.ck("C14", adr(x.refs().item) == adr(&x.item), || "header field item".into());
        c.ck("C14", adr(x.refs().dst) == adr(&x.dst), || "header field dst".into());
        c.ck("C14", adr(x.refs().end) == adr(&x.end), || "header field end".into());
        for d in 0..7 {
            let m_p: usize = match d { 1 => n_p + 1, 2 => n_p.wrapping_sub(1) % 251, _ => n_p };
            let m_item: usize = match d { 3 => n_item + 1, 4 => n_item.wrapping_sub(1) % 251, _ => n_item };
            let m_dst: usize = match d { 5 => n_dst + 1, 6 => n_dst.wrapping_sub(1) % 251, _ => n_dst };
            let same = 3 == 3 && n_p == m_p;
            let ok = x.as_mut().try_set_layout_controllers(sx::LayoutControllers { p: Bd::new(m_p as u8, false), item: m_item as u8, dst: m_dst as u8 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sx::LayoutControllers { p: Bd::new(n_p as u8, false), item: n_item as u8, dst: n_dst as u8 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); for q in y.refs.iter_mut() { q.val += 1 }; } w[2] = !(3 > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote refs: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
pub struct Sy<G: VarLen = Str<u32>> {
    #[varlen] pub sz: Str,
    #[controls_layout] pub muts: Bd,
    #[varlen] pub header: Str<u32>,
    #[controls_layout] pub base: u8,
    #[varlen] pub ptr: G,
    #[controls_layout] pub layout: u16,
}
fn sy(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sy>();
    let mut al = std::mem::align_of::<Sy>();
    let n_muts = r.to(7);
    let n_base = r.to(7);
    let n_layout = r.to(7);
    let n_sz = r.to(9);
    let s_sz = "stuvwxyzab"[..n_sz].to_string();
    let n_header = r.to(9);
    let s_header = "stuvwxyzab"[..n_header].to_string();
    let n_ptr = r.to(9);
    let s_ptr = "stuvwxyzab"[..n_ptr].to_string();
    let o_sz = up(e, 8); e = o_sz + 8 + n_sz; al = al.max(8);
    let o_header = up(e, 4); e = o_header + 4 + n_header; al = al.max(4);
    let o_ptr = up(e, 4); e = o_ptr + 4 + n_ptr; al = al.max(4);
    c.case(format!("drawn struct Sy muts {} base {} layout {} sz {} header {} ptr {}", n_muts, n_base, n_layout, n_sz, n_header, n_ptr), VT, MT, PT, |c| place::<Sy, _>(c, sy::Init { sz: Str::try_copy(&s_sz).unwrap(), muts: Bd::new(n_muts as u8, false), header: Str::try_copy(&s_header).unwrap(), base: n_base as u8, ptr: Str::try_copy(&s_ptr).unwrap(), layout: n_layout as u16 }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sy| { let y = x.refs(); [&y.sz[..] == s_sz.as_str(), y.muts.n() == n_muts && y.muts.get().is_some(), &y.header[..] == s_header.as_str(), *y.base == n_base as u8, &y.ptr[..] == s_ptr.as_str(), *y.layout == n_layout as u16] };
        let names = ["sz", "muts", "header", "base", "ptr", "layout"];
        let bad = |g: [bool; 6], w: [bool; 6]| (0..6).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 6];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sy as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().sz) - b; c.ck("C14 C01", p == o_sz, || format!("field sz at {}, expected {}", p, o_sz)); }
        { let p = adr(&*x.as_mut().muts().sz) - b; c.ck("C14", p == o_sz, || format!("mutable field sz at {}, expected {}", p, o_sz)); }
        { let p = adr(x.refs().header) - b; c.ck("C14 C01", p == o_header, || format!("field header at {}, expected {}", p, o_header)); }
        { let p = adr(&*x.as_mut().muts().header) - b; c.ck("C14", p == o_header, || format!("mutable field header at {}, expected {}", p, o_header)); }
        { let p = adr(x.refs().ptr) - b; c.ck("C14 C01", p == o_ptr, || format!("field ptr at {}, expected {}", p, o_ptr)); }
        { let p = adr(&*x.as_mut().muts().ptr) - b; c.ck("C14", p == o_ptr, || format!("mutable field ptr at {}, expected {}", p, o_ptr)); }
        c.ck("C14", adr(x.refs().muts) == adr(&x.muts), || "header field muts".into());
        c.ck("C14", adr(x.refs().base) == adr(&x.base), || "header field base".into());
        c.ck("C14", adr(x.refs().layout) == adr(&x.layout), || "header field layout".into());
        { let y = x.as_mut().muts(); y.sz.mut_slice().make_ascii_uppercase(); } w[0] = !(n_sz > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote sz: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.header.mut_slice().make_ascii_uppercase(); } w[2] = !(n_header > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote header: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); y.ptr.mut_slice().make_ascii_uppercase(); } w[4] = !(n_ptr > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote ptr: fields {:?}", bad(good(&x), w)));
    }));
}

#[define_varlen]
#[repr(C)]
pub struct Sz<E = D> {
    pub p: u32,
    #[controls_layout] pub muts: u8,
    #[controls_layout] pub header: Bd,
    #[controls_layout] pub refs: u32,
    #[varlen_array] pub a: [E; (*refs as usize + 1)],
}
fn sz(c: &mut Ctx, r: &mut Rng) {
    let mut e = std::mem::size_of::<Sz>();
    let mut al = std::mem::align_of::<Sz>();
    let n_muts = r.to(7);
    let n_header = r.to(7);
    let n_refs = r.to(7);
    let o_a = up(e, 4); e = o_a + 12 * ((n_refs + 1)); al = al.max(4);
    c.case(format!("drawn struct Sz muts {} header {} refs {}", n_muts, n_header, n_refs), VT, MT, PT, |c| place::<Sz, _>(c, sz::Init { p: 20, muts: n_muts as u8, header: Bd::new(n_header as u8, false), refs: n_refs as u32, a: FillSequentially(|i| D::new(72 + i as u32)) }, (e, al), |c, mut x| {
        let b = adr(&*x);
        let good = |x: &Sz| { let y = x.refs(); [*y.p == 20, *y.muts == n_muts as u8, y.header.n() == n_header && y.header.get().is_some(), *y.refs == n_refs as u32, y.a.len() == (n_refs + 1) && y.a.iter().enumerate().all(|(i, q)| q.get() == Some(72 + i as u32))] };
        let names = ["p", "muts", "header", "refs", "a"];
        let bad = |g: [bool; 5], w: [bool; 5]| (0..5).filter(|&j| g[j] != w[j]).map(|j| names[j]).collect::<Vec<_>>();
        let mut w = [true; 5];
        c.ck("C03", bad(good(&x), w).is_empty(), || format!("fields {:?} are not as initialized", bad(good(&x), w)));
        c.ck("C16", <Sz as VarLen>::NEEDS_VDROP == true, || "NEEDS_VDROP".into());
        { let p = adr(x.refs().a) - b; c.ck("C14 C01", p == o_a, || format!("field a at {}, expected {}", p, o_a)); }
        { let p = adr(&*x.as_mut().muts().a) - b; c.ck("C14", p == o_a, || format!("mutable field a at {}, expected {}", p, o_a)); }
        { let p = x.as_mut().muts().a.len(); c.ck("C14 C03", p == x.refs().a.len(), || format!("mutable field a has length {}", p)); }
        c.ck("C14", adr(x.refs().p) == adr(&x.p), || "header field p".into());
        c.ck("C14", adr(x.refs().muts) == adr(&x.muts), || "header field muts".into());
        c.ck("C14", adr(x.refs().header) == adr(&x.header), || "header field header".into());
        c.ck("C14", adr(x.refs().refs) == adr(&x.refs), || "header field refs".into());
        for d in 0..7 {
            let m_muts: usize = match d { 1 => n_muts + 1, 2 => n_muts.wrapping_sub(1) % 251, _ => n_muts };
            let m_header: usize = match d { 3 => n_header + 1, 4 => n_header.wrapping_sub(1) % 251, _ => n_header };
            let m_refs: usize = match d { 5 => n_refs + 1, 6 => n_refs.wrapping_sub(1) % 251, _ => n_refs };
            let same = (n_refs + 1) == (m_refs + 1);
            let ok = x.as_mut().try_set_layout_controllers(sz::LayoutControllers { muts: m_muts as u8, header: Bd::new(m_header as u8, false), refs: m_refs as u32 }).is_ok();
            c.ck("C13", ok == same, || format!("change {} of the controllers: {}", d, ok));
            c.ck("C13", x.calculate_layout().size() == e, || format!("change {} of the controllers: size {}", d, x.calculate_layout().size()));
            if ok { let back = x.as_mut().try_set_layout_controllers(sz::LayoutControllers { muts: n_muts as u8, header: Bd::new(n_header as u8, false), refs: n_refs as u32 }).is_ok(); c.ck("C13", back, || "cannot be set back".into()); }
            c.ck("C13", bad(good(&x), w).is_empty(), || format!("change {} of the controllers: fields {:?}", d, bad(good(&x), w)));
        }
        { let y = x.as_mut().muts(); *y.p += 1; } w[0] = !(true);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote p: fields {:?}", bad(good(&x), w)));
        { let y = x.as_mut().muts(); for q in y.a.iter_mut() { q.val += 1 }; } w[4] = !((n_refs + 1) > 0);
        c.ck("C14", bad(good(&x), w).is_empty(), || format!("wrote a: fields {:?}", bad(good(&x), w)));
    }));
}

pub fn run(c: &mut Ctx) {
    c.test = "drawn structs".into();
    let mut r = Rng(c.seed ^ 0x5a5a);
    for _ in 0..if c.thorough { 400 } else { 30 } {
        sa(c, &mut r);
        sb(c, &mut r);
        sc(c, &mut r);
        sd(c, &mut r);
        se(c, &mut r);
        sf(c, &mut r);
        sg(c, &mut r);
        sh(c, &mut r);
        si(c, &mut r);
        sj(c, &mut r);
        sk(c, &mut r);
        sl(c, &mut r);
        sm(c, &mut r);
        sn(c, &mut r);
        so(c, &mut r);
        sp(c, &mut r);
        sq(c, &mut r);
        sr(c, &mut r);
        ss(c, &mut r);
        st(c, &mut r);
        su(c, &mut r);
        sv(c, &mut r);
        sw(c, &mut r);
        sx(c, &mut r);
        sy(c, &mut r);
        sz(c, &mut r);
    }
}