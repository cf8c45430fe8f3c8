//! Drawn by shapes/make.py: more structs defined with #[define_varlen], and their roots.
use super::*;

#[define_varlen]
pub struct Sa<F: VarLen = Str, G: VarLen = Str> {
    #[varlen] pub w: G,
    #[varlen] pub base: Str,
    pub ptr: u64,
    #[controls_layout] pub size: u32,
    #[varlen] pub arr: F,
    #[varlen_array] pub refs: [u32; *size as usize],
    pub field: Dz,
}
pub unsafe fn root_m_sa_build<'a, F: VarLen, G: VarLen, I0: Initializer<G>, I1: Initializer<Str>, I4: Initializer<F>, I5: ArrayInitializer<u32>>(w: I0, base: I1, ptr: u64, size: u32, arr: I4, refs: I5, field: Dz) -> Option<(usize, usize, usize, &'a mut Sa<F, G>)> { build(sa::Init { w, base, ptr, size, arr, refs, field }) }
pub fn root_m_sa_refs<'a, F: VarLen, G: VarLen>(x: &'a Sa<F, G>) -> (&'a G, &'a Str, &'a u64, &'a u32, &'a F, &'a [u32], &'a Dz) { let y = x.refs(); (y.w, y.base, y.ptr, y.size, y.arr, y.refs, y.field) }
pub fn root_m_sa_muts<'a, F: VarLen, G: VarLen>(x: Pin<&'a mut Sa<F, G>>) -> (Pin<&'a mut G>, Pin<&'a mut Str>, &'a mut u64, &'a u32, Pin<&'a mut F>, &'a mut [u32], &'a mut Dz) { let y = x.muts(); (y.w, y.base, y.ptr, y.size, y.arr, y.refs, y.field) }
pub unsafe fn root_m_sa_vdrop<F: VarLen, G: VarLen>(x: Pin<&mut Sa<F, G>>) { vdrop_it(x) }
pub fn root_m_sa_consts<F: VarLen, G: VarLen>() -> (usize, bool) { consts_of::<Sa<F, G>>() }
pub fn root_m_sa_set<F: VarLen, G: VarLen>(x: Pin<&mut Sa<F, G>>, size: u32) -> bool { x.try_set_layout_controllers(sa::LayoutControllers { size }).is_ok() }

#[define_varlen]
#[repr(C)]
pub struct Sb<F: VarLen = Str, G: VarLen = Str> {
    #[controls_layout] pub a: u8,
    #[varlen_array] pub init: [u16; p.get()],
    #[varlen] pub base: G,
    #[varlen_array] pub w: [u16; p.get()],
    #[controls_layout] pub p: Dr,
    pub size: u16,
    #[varlen] pub item: Array<u8, u16>,
    #[varlen] pub z: F,
    #[varlen] pub field: Str,
}
pub unsafe fn root_m_sb_build<'a, F: VarLen, G: VarLen, I1: ArrayInitializer<u16>, I2: Initializer<G>, I3: ArrayInitializer<u16>, I6: Initializer<Array<u8, u16>>, I7: Initializer<F>, I8: Initializer<Str>>(a: u8, init: I1, base: I2, w: I3, p: Dr, size: u16, item: I6, z: I7, field: I8) -> Option<(usize, usize, usize, &'a mut Sb<F, G>)> { build(sb::Init { a, init, base, w, p, size, item, z, field }) }
pub fn root_m_sb_refs<'a, F: VarLen, G: VarLen>(x: &'a Sb<F, G>) -> (&'a u8, &'a [u16], &'a G, &'a [u16], &'a Dr, &'a u16, &'a Array<u8, u16>, &'a F, &'a Str) { let y = x.refs(); (y.a, y.init, y.base, y.w, y.p, y.size, y.item, y.z, y.field) }
pub fn root_m_sb_muts<'a, F: VarLen, G: VarLen>(x: Pin<&'a mut Sb<F, G>>) -> (&'a u8, &'a mut [u16], Pin<&'a mut G>, &'a mut [u16], &'a Dr, &'a mut u16, Pin<&'a mut Array<u8, u16>>, Pin<&'a mut F>, Pin<&'a mut Str>) { let y = x.muts(); (y.a, y.init, y.base, y.w, y.p, y.size, y.item, y.z, y.field) }
pub unsafe fn root_m_sb_vdrop<F: VarLen, G: VarLen>(x: Pin<&mut Sb<F, G>>) { vdrop_it(x) }
pub fn root_m_sb_consts<F: VarLen, G: VarLen>() -> (usize, bool) { consts_of::<Sb<F, G>>() }
pub fn root_m_sb_set<F: VarLen, G: VarLen>(x: Pin<&mut Sb<F, G>>, a: u8, p: Dr) -> bool { x.try_set_layout_controllers(sb::LayoutControllers { a, p }).is_ok() }

#[define_varlen]
pub struct Sc<F: VarLen = Str, G: VarLen = Str> {
    #[varlen] pub k: F,
    #[varlen] pub item: Str,
    #[varlen] pub base: G,
}
pub unsafe fn root_m_sc_build<'a, F: VarLen, G: VarLen, I0: Initializer<F>, I1: Initializer<Str>, I2: Initializer<G>>(k: I0, item: I1, base: I2) -> Option<(usize, usize, usize, &'a mut Sc<F, G>)> { build(sc::Init { k, item, base }) }
pub fn root_m_sc_refs<'a, F: VarLen, G: VarLen>(x: &'a Sc<F, G>) -> (&'a F, &'a Str, &'a G) { let y = x.refs(); (y.k, y.item, y.base) }
pub fn root_m_sc_muts<'a, F: VarLen, G: VarLen>(x: Pin<&'a mut Sc<F, G>>) -> (Pin<&'a mut F>, Pin<&'a mut Str>, Pin<&'a mut G>) { let y = x.muts(); (y.k, y.item, y.base) }
pub unsafe fn root_m_sc_vdrop<F: VarLen, G: VarLen>(x: Pin<&mut Sc<F, G>>) { vdrop_it(x) }
pub fn root_m_sc_consts<F: VarLen, G: VarLen>() -> (usize, bool) { consts_of::<Sc<F, G>>() }

#[define_varlen]
pub struct Sd {
    pub header: u32,
    #[controls_layout] pub base: u32,
    pub init: Dr,
    pub muts: Dz,
}
pub unsafe fn root_m_sd_build<'a>(header: u32, base: u32, init: Dr, muts: Dz) -> Option<(usize, usize, usize, &'a mut Sd)> { build(sd::Init { header, base, init, muts }) }
pub fn root_m_sd_refs<'a>(x: &'a Sd) -> (&'a u32, &'a u32, &'a Dr, &'a Dz) { let y = x.refs(); (y.header, y.base, y.init, y.muts) }
pub fn root_m_sd_muts<'a>(x: Pin<&'a mut Sd>) -> (&'a mut u32, &'a u32, &'a mut Dr, &'a mut Dz) { let y = x.muts(); (y.header, y.base, y.init, y.muts) }
pub unsafe fn root_m_sd_vdrop(x: Pin<&mut Sd>) { vdrop_it(x) }
pub fn root_m_sd_consts() -> (usize, bool) { consts_of::<Sd>() }

#[define_varlen]
#[repr(C)]
pub struct Se {
    #[controls_layout] pub k: Dr,
    #[controls_layout] pub b: Dr,
    #[varlen_array] pub end: [u16; *size as usize + 1],
    #[controls_layout] pub size: u8,
    #[controls_layout] pub layout: u16,
}
pub unsafe fn root_m_se_build<'a, I2: ArrayInitializer<u16>>(k: Dr, b: Dr, end: I2, size: u8, layout: u16) -> Option<(usize, usize, usize, &'a mut Se)> { build(se::Init { k, b, end, size, layout }) }
pub fn root_m_se_refs<'a>(x: &'a Se) -> (&'a Dr, &'a Dr, &'a [u16], &'a u8, &'a u16) { let y = x.refs(); (y.k, y.b, y.end, y.size, y.layout) }
pub fn root_m_se_muts<'a>(x: Pin<&'a mut Se>) -> (&'a Dr, &'a Dr, &'a mut [u16], &'a u8, &'a u16) { let y = x.muts(); (y.k, y.b, y.end, y.size, y.layout) }
pub unsafe fn root_m_se_vdrop(x: Pin<&mut Se>) { vdrop_it(x) }
pub fn root_m_se_consts() -> (usize, bool) { consts_of::<Se>() }
pub fn root_m_se_set(x: Pin<&mut Se>, k: Dr, b: Dr, size: u8, layout: u16) -> bool { x.try_set_layout_controllers(se::LayoutControllers { k, b, size, layout }).is_ok() }

#[define_varlen]
pub struct Sf<F: VarLen = Str, G: VarLen = Str> {
    pub item: Dz,
    pub field: Dr,
    #[varlen] pub b: Str,
    #[varlen] pub layout: F,
    #[varlen] pub header: Array<u8, u16>,
    #[varlen] pub offset: Str<u32>,
    pub muts: Dz,
    #[varlen] pub p: G,
}
pub unsafe fn root_m_sf_build<'a, F: VarLen, G: VarLen, I2: Initializer<Str>, I3: Initializer<F>, I4: Initializer<Array<u8, u16>>, I5: Initializer<Str<u32>>, I7: Initializer<G>>(item: Dz, field: Dr, b: I2, layout: I3, header: I4, offset: I5, muts: Dz, p: I7) -> Option<(usize, usize, usize, &'a mut Sf<F, G>)> { build(sf::Init { item, field, b, layout, header, offset, muts, p }) }
pub fn root_m_sf_refs<'a, F: VarLen, G: VarLen>(x: &'a Sf<F, G>) -> (&'a Dz, &'a Dr, &'a Str, &'a F, &'a Array<u8, u16>, &'a Str<u32>, &'a Dz, &'a G) { let y = x.refs(); (y.item, y.field, y.b, y.layout, y.header, y.offset, y.muts, y.p) }
pub fn root_m_sf_muts<'a, F: VarLen, G: VarLen>(x: Pin<&'a mut Sf<F, G>>) -> (&'a mut Dz, &'a mut Dr, Pin<&'a mut Str>, Pin<&'a mut F>, Pin<&'a mut Array<u8, u16>>, Pin<&'a mut Str<u32>>, &'a mut Dz, Pin<&'a mut G>) { let y = x.muts(); (y.item, y.field, y.b, y.layout, y.header, y.offset, y.muts, y.p) }
pub unsafe fn root_m_sf_vdrop<F: VarLen, G: VarLen>(x: Pin<&mut Sf<F, G>>) { vdrop_it(x) }
pub fn root_m_sf_consts<F: VarLen, G: VarLen>() -> (usize, bool) { consts_of::<Sf<F, G>>() }

#[define_varlen]
pub struct Sg {
    pub layout: u64,
    pub field: u32,
    #[controls_layout] pub arr: u8,
    pub k: Dr,
    #[varlen] pub offset: Str,
    #[varlen_array] pub end: [u64; *a as usize + 1],
    pub size: Dr,
    #[controls_layout] pub a: u8,
    #[varlen_array] pub dst: [Dr; *refs as usize],
    #[controls_layout] pub refs: u32,
}
pub unsafe fn root_m_sg_build<'a, I4: Initializer<Str>, I5: ArrayInitializer<u64>, I8: ArrayInitializer<Dr>>(layout: u64, field: u32, arr: u8, k: Dr, offset: I4, end: I5, size: Dr, a: u8, dst: I8, refs: u32) -> Option<(usize, usize, usize, &'a mut Sg)> { build(sg::Init { layout, field, arr, k, offset, end, size, a, dst, refs }) }
pub fn root_m_sg_refs<'a>(x: &'a Sg) -> (&'a u64, &'a u32, &'a u8, &'a Dr, &'a Str, &'a [u64], &'a Dr, &'a u8, &'a [Dr], &'a u32) { let y = x.refs(); (y.layout, y.field, y.arr, y.k, y.offset, y.end, y.size, y.a, y.dst, y.refs) }
pub fn root_m_sg_muts<'a>(x: Pin<&'a mut Sg>) -> (&'a mut u64, &'a mut u32, &'a u8, &'a mut Dr, Pin<&'a mut Str>, &'a mut [u64], &'a mut Dr, &'a u8, &'a mut [Dr], &'a u32) { let y = x.muts(); (y.layout, y.field, y.arr, y.k, y.offset, y.end, y.size, y.a, y.dst, y.refs) }
pub unsafe fn root_m_sg_vdrop(x: Pin<&mut Sg>) { vdrop_it(x) }
pub fn root_m_sg_consts() -> (usize, bool) { consts_of::<Sg>() }
pub fn root_m_sg_set(x: Pin<&mut Sg>, arr: u8, a: u8, refs: u32) -> bool { x.try_set_layout_controllers(sg::LayoutControllers { arr, a, refs }).is_ok() }

#[define_varlen]
#[repr(C)]
pub struct Sh<G: VarLen = Str, E = u8> {
    #[varlen] pub layout: G,
    #[varlen_array] pub header: [u64; *w as usize],
    #[varlen_array] pub z: [Dz; *w as usize],
    #[varlen_array] pub muts: [E; (*w as usize) / 2],
    #[varlen] pub p: Array<u8, u16>,
    #[controls_layout] pub w: u8,
}
pub unsafe fn root_m_sh_build<'a, G: VarLen, E, I0: Initializer<G>, I1: ArrayInitializer<u64>, I2: ArrayInitializer<Dz>, I3: ArrayInitializer<E>, I4: Initializer<Array<u8, u16>>>(layout: I0, header: I1, z: I2, muts: I3, p: I4, w: u8) -> Option<(usize, usize, usize, &'a mut Sh<G, E>)> { build(sh::Init { layout, header, z, muts, p, w }) }
pub fn root_m_sh_refs<'a, G: VarLen, E>(x: &'a Sh<G, E>) -> (&'a G, &'a [u64], &'a [Dz], &'a [E], &'a Array<u8, u16>, &'a u8) { let y = x.refs(); (y.layout, y.header, y.z, y.muts, y.p, y.w) }
pub fn root_m_sh_muts<'a, G: VarLen, E>(x: Pin<&'a mut Sh<G, E>>) -> (Pin<&'a mut G>, &'a mut [u64], &'a mut [Dz], &'a mut [E], Pin<&'a mut Array<u8, u16>>, &'a u8) { let y = x.muts(); (y.layout, y.header, y.z, y.muts, y.p, y.w) }
pub unsafe fn root_m_sh_vdrop<G: VarLen, E>(x: Pin<&mut Sh<G, E>>) { vdrop_it(x) }
pub fn root_m_sh_consts<G: VarLen, E>() -> (usize, bool) { consts_of::<Sh<G, E>>() }
pub fn root_m_sh_set<G: VarLen, E>(x: Pin<&mut Sh<G, E>>, w: u8) -> bool { x.try_set_layout_controllers(sh::LayoutControllers { w }).is_ok() }

#[define_varlen]
pub struct Si<G: VarLen = Str> {
    #[varlen] pub item: Array<u16, u8>,
    pub k: u16,
    pub muts: u32,
    #[varlen] pub a: G,
    pub b: u64,
    pub field: u8,
    #[controls_layout] pub arr: u16,
    pub header: Dr,
    pub ptr: u8,
    pub refs: u8,
    #[controls_layout] pub p: u32,
    pub layout: u16,
}
pub unsafe fn root_m_si_build<'a, G: VarLen, I0: Initializer<Array<u16, u8>>, I3: Initializer<G>>(item: I0, k: u16, muts: u32, a: I3, b: u64, field: u8, arr: u16, header: Dr, ptr: u8, refs: u8, p: u32, layout: u16) -> Option<(usize, usize, usize, &'a mut Si<G>)> { build(si::Init { item, k, muts, a, b, field, arr, header, ptr, refs, p, layout }) }
pub fn root_m_si_refs<'a, G: VarLen>(x: &'a Si<G>) -> (&'a Array<u16, u8>, &'a u16, &'a u32, &'a G, &'a u64, &'a u8, &'a u16, &'a Dr, &'a u8, &'a u8, &'a u32, &'a u16) { let y = x.refs(); (y.item, y.k, y.muts, y.a, y.b, y.field, y.arr, y.header, y.ptr, y.refs, y.p, y.layout) }
pub fn root_m_si_muts<'a, G: VarLen>(x: Pin<&'a mut Si<G>>) -> (Pin<&'a mut Array<u16, u8>>, &'a mut u16, &'a mut u32, Pin<&'a mut G>, &'a mut u64, &'a mut u8, &'a u16, &'a mut Dr, &'a mut u8, &'a mut u8, &'a u32, &'a mut u16) { let y = x.muts(); (y.item, y.k, y.muts, y.a, y.b, y.field, y.arr, y.header, y.ptr, y.refs, y.p, y.layout) }
pub unsafe fn root_m_si_vdrop<G: VarLen>(x: Pin<&mut Si<G>>) { vdrop_it(x) }
pub fn root_m_si_consts<G: VarLen>() -> (usize, bool) { consts_of::<Si<G>>() }

#[define_varlen]
pub struct Sj<E = u8> {
    #[varlen_array] pub header: [E; *offset as usize],
    #[controls_layout] pub offset: u32,
}
pub unsafe fn root_m_sj_build<'a, E, I0: ArrayInitializer<E>>(header: I0, offset: u32) -> Option<(usize, usize, usize, &'a mut Sj<E>)> { build(sj::Init { header, offset }) }
pub fn root_m_sj_refs<'a, E>(x: &'a Sj<E>) -> (&'a [E], &'a u32) { let y = x.refs(); (y.header, y.offset) }
pub fn root_m_sj_muts<'a, E>(x: Pin<&'a mut Sj<E>>) -> (&'a mut [E], &'a u32) { let y = x.muts(); (y.header, y.offset) }
pub unsafe fn root_m_sj_vdrop<E>(x: Pin<&mut Sj<E>>) { vdrop_it(x) }
pub fn root_m_sj_consts<E>() -> (usize, bool) { consts_of::<Sj<E>>() }
pub fn root_m_sj_set<E>(x: Pin<&mut Sj<E>>, offset: u32) -> bool { x.try_set_layout_controllers(sj::LayoutControllers { offset }).is_ok() }

#[define_varlen]
#[repr(C)]
pub struct Sk<F: VarLen = Str, G: VarLen = Str> {
    pub size: u16,
    #[varlen] pub field: F,
    #[varlen] pub arr: Array<u8, u16>,
    #[varlen] pub dst: G,
    pub ptr: u64,
    #[controls_layout] pub item: u32,
}
pub unsafe fn root_m_sk_build<'a, F: VarLen, G: VarLen, I1: Initializer<F>, I2: Initializer<Array<u8, u16>>, I3: Initializer<G>>(size: u16, field: I1, arr: I2, dst: I3, ptr: u64, item: u32) -> Option<(usize, usize, usize, &'a mut Sk<F, G>)> { build(sk::Init { size, field, arr, dst, ptr, item }) }
pub fn root_m_sk_refs<'a, F: VarLen, G: VarLen>(x: &'a Sk<F, G>) -> (&'a u16, &'a F, &'a Array<u8, u16>, &'a G, &'a u64, &'a u32) { let y = x.refs(); (y.size, y.field, y.arr, y.dst, y.ptr, y.item) }
pub fn root_m_sk_muts<'a, F: VarLen, G: VarLen>(x: Pin<&'a mut Sk<F, G>>) -> (&'a mut u16, Pin<&'a mut F>, Pin<&'a mut Array<u8, u16>>, Pin<&'a mut G>, &'a mut u64, &'a u32) { let y = x.muts(); (y.size, y.field, y.arr, y.dst, y.ptr, y.item) }
pub unsafe fn root_m_sk_vdrop<F: VarLen, G: VarLen>(x: Pin<&mut Sk<F, G>>) { vdrop_it(x) }
pub fn root_m_sk_consts<F: VarLen, G: VarLen>() -> (usize, bool) { consts_of::<Sk<F, G>>() }

#[define_varlen]
pub struct Sl {
    pub header: u16,
    pub w: u8,
    pub dst: Dz,
    pub item: u8,
    pub refs: u64,
    #[controls_layout] pub p: u8,
    #[varlen_array] pub z: [u8; *a as usize + 1],
    pub field: u32,
    pub end: u16,
    #[varlen_array] pub arr: [u16; ptr.get()],
    #[controls_layout] pub ptr: Dr,
    pub size: u64,
    #[controls_layout] pub a: u32,
    pub init: Dz,
    pub base: Dr,
    pub k: u16,
}
pub unsafe fn root_m_sl_build<'a, I6: ArrayInitializer<u8>, I9: ArrayInitializer<u16>>(header: u16, w: u8, dst: Dz, item: u8, refs: u64, p: u8, z: I6, field: u32, end: u16, arr: I9, ptr: Dr, size: u64, a: u32, init: Dz, base: Dr, k: u16) -> Option<(usize, usize, usize, &'a mut Sl)> { build(sl::Init { header, w, dst, item, refs, p, z, field, end, arr, ptr, size, a, init, base, k }) }
pub fn root_m_sl_refs<'a>(x: &'a Sl) -> (&'a u16, &'a u8, &'a Dz, &'a u8, &'a u64, &'a u8, &'a [u8], &'a u32, &'a u16, &'a [u16], &'a Dr, &'a u64, &'a u32, &'a Dz, &'a Dr, &'a u16) { let y = x.refs(); (y.header, y.w, y.dst, y.item, y.refs, y.p, y.z, y.field, y.end, y.arr, y.ptr, y.size, y.a, y.init, y.base, y.k) }
pub fn root_m_sl_muts<'a>(x: Pin<&'a mut Sl>) -> (&'a mut u16, &'a mut u8, &'a mut Dz, &'a mut u8, &'a mut u64, &'a u8, &'a mut [u8], &'a mut u32, &'a mut u16, &'a mut [u16], &'a Dr, &'a mut u64, &'a u32, &'a mut Dz, &'a mut Dr, &'a mut u16) { let y = x.muts(); (y.header, y.w, y.dst, y.item, y.refs, y.p, y.z, y.field, y.end, y.arr, y.ptr, y.size, y.a, y.init, y.base, y.k) }
pub unsafe fn root_m_sl_vdrop(x: Pin<&mut Sl>) { vdrop_it(x) }
pub fn root_m_sl_consts() -> (usize, bool) { consts_of::<Sl>() }
pub fn root_m_sl_set(x: Pin<&mut Sl>, p: u8, ptr: Dr, a: u32) -> bool { x.try_set_layout_controllers(sl::LayoutControllers { p, ptr, a }).is_ok() }

#[define_varlen]
pub struct Sm<E = u8> {
    #[varlen_array] pub field: [u16; 3],
    #[varlen_array] pub item: [E; *muts as usize + 1],
    #[controls_layout] pub muts: u8,
    #[varlen_array] pub base: [u32; *muts as usize],
    #[varlen_array] pub refs: [E; *muts as usize + *muts as usize],
    #[varlen_array] pub k: [u32; *muts as usize],
    #[varlen_array] pub b: [u32; *muts as usize + *muts as usize],
}
pub unsafe fn root_m_sm_build<'a, E, I0: ArrayInitializer<u16>, I1: ArrayInitializer<E>, I3: ArrayInitializer<u32>, I4: ArrayInitializer<E>, I5: ArrayInitializer<u32>, I6: ArrayInitializer<u32>>(field: I0, item: I1, muts: u8, base: I3, refs: I4, k: I5, b: I6) -> Option<(usize, usize, usize, &'a mut Sm<E>)> { build(sm::Init { field, item, muts, base, refs, k, b }) }
pub fn root_m_sm_refs<'a, E>(x: &'a Sm<E>) -> (&'a [u16], &'a [E], &'a u8, &'a [u32], &'a [E], &'a [u32], &'a [u32]) { let y = x.refs(); (y.field, y.item, y.muts, y.base, y.refs, y.k, y.b) }
pub fn root_m_sm_muts<'a, E>(x: Pin<&'a mut Sm<E>>) -> (&'a mut [u16], &'a mut [E], &'a u8, &'a mut [u32], &'a mut [E], &'a mut [u32], &'a mut [u32]) { let y = x.muts(); (y.field, y.item, y.muts, y.base, y.refs, y.k, y.b) }
pub unsafe fn root_m_sm_vdrop<E>(x: Pin<&mut Sm<E>>) { vdrop_it(x) }
pub fn root_m_sm_consts<E>() -> (usize, bool) { consts_of::<Sm<E>>() }
pub fn root_m_sm_set<E>(x: Pin<&mut Sm<E>>, muts: u8) -> bool { x.try_set_layout_controllers(sm::LayoutControllers { muts }).is_ok() }

#[define_varlen]
#[repr(C)]
pub struct Sn<E = u8> {
    #[varlen] pub a: Str,
    #[varlen_array] pub init: [u64; *muts as usize],
    #[varlen_array] pub sz: [E; *muts as usize + *muts as usize],
    #[controls_layout] pub muts: u8,
}
pub unsafe fn root_m_sn_build<'a, E, I0: Initializer<Str>, I1: ArrayInitializer<u64>, I2: ArrayInitializer<E>>(a: I0, init: I1, sz: I2, muts: u8) -> Option<(usize, usize, usize, &'a mut Sn<E>)> { build(sn::Init { a, init, sz, muts }) }
pub fn root_m_sn_refs<'a, E>(x: &'a Sn<E>) -> (&'a Str, &'a [u64], &'a [E], &'a u8) { let y = x.refs(); (y.a, y.init, y.sz, y.muts) }
pub fn root_m_sn_muts<'a, E>(x: Pin<&'a mut Sn<E>>) -> (Pin<&'a mut Str>, &'a mut [u64], &'a mut [E], &'a u8) { let y = x.muts(); (y.a, y.init, y.sz, y.muts) }
pub unsafe fn root_m_sn_vdrop<E>(x: Pin<&mut Sn<E>>) { vdrop_it(x) }
pub fn root_m_sn_consts<E>() -> (usize, bool) { consts_of::<Sn<E>>() }
pub fn root_m_sn_set<E>(x: Pin<&mut Sn<E>>, muts: u8) -> bool { x.try_set_layout_controllers(sn::LayoutControllers { muts }).is_ok() }

#[define_varlen]
pub struct So {
    #[varlen] pub field: Array<u16, u8>,
    #[varlen] pub refs: Array<u16, u8>,
    pub layout: u16,
    pub header: u8,
    #[varlen] pub base: Str,
}
pub unsafe fn root_m_so_build<'a, I0: Initializer<Array<u16, u8>>, I1: Initializer<Array<u16, u8>>, I4: Initializer<Str>>(field: I0, refs: I1, layout: u16, header: u8, base: I4) -> Option<(usize, usize, usize, &'a mut So)> { build(so::Init { field, refs, layout, header, base }) }
pub fn root_m_so_refs<'a>(x: &'a So) -> (&'a Array<u16, u8>, &'a Array<u16, u8>, &'a u16, &'a u8, &'a Str) { let y = x.refs(); (y.field, y.refs, y.layout, y.header, y.base) }
pub fn root_m_so_muts<'a>(x: Pin<&'a mut So>) -> (Pin<&'a mut Array<u16, u8>>, Pin<&'a mut Array<u16, u8>>, &'a mut u16, &'a mut u8, Pin<&'a mut Str>) { let y = x.muts(); (y.field, y.refs, y.layout, y.header, y.base) }
pub unsafe fn root_m_so_vdrop(x: Pin<&mut So>) { vdrop_it(x) }
pub fn root_m_so_consts() -> (usize, bool) { consts_of::<So>() }

#[define_varlen]
pub struct Sp {
    #[varlen_array] pub k: [u32; 3],
    #[varlen_array] pub ptr: [u32; (*refs as usize) / 2],
    #[varlen_array] pub arr: [u16; 3],
    #[varlen_array] pub muts: [Dz; *refs as usize],
    #[varlen_array] pub init: [u16; *refs as usize],
    #[controls_layout] pub refs: u8,
}
pub unsafe fn root_m_sp_build<'a, I0: ArrayInitializer<u32>, I1: ArrayInitializer<u32>, I2: ArrayInitializer<u16>, I3: ArrayInitializer<Dz>, I4: ArrayInitializer<u16>>(k: I0, ptr: I1, arr: I2, muts: I3, init: I4, refs: u8) -> Option<(usize, usize, usize, &'a mut Sp)> { build(sp::Init { k, ptr, arr, muts, init, refs }) }
pub fn root_m_sp_refs<'a>(x: &'a Sp) -> (&'a [u32], &'a [u32], &'a [u16], &'a [Dz], &'a [u16], &'a u8) { let y = x.refs(); (y.k, y.ptr, y.arr, y.muts, y.init, y.refs) }
pub fn root_m_sp_muts<'a>(x: Pin<&'a mut Sp>) -> (&'a mut [u32], &'a mut [u32], &'a mut [u16], &'a mut [Dz], &'a mut [u16], &'a u8) { let y = x.muts(); (y.k, y.ptr, y.arr, y.muts, y.init, y.refs) }
pub unsafe fn root_m_sp_vdrop(x: Pin<&mut Sp>) { vdrop_it(x) }
pub fn root_m_sp_consts() -> (usize, bool) { consts_of::<Sp>() }
pub fn root_m_sp_set(x: Pin<&mut Sp>, refs: u8) -> bool { x.try_set_layout_controllers(sp::LayoutControllers { refs }).is_ok() }

#[define_varlen]
#[repr(C)]
pub struct Sq {
    #[varlen] pub sz: Array<u16, u8>,
}
pub unsafe fn root_m_sq_build<'a, I0: Initializer<Array<u16, u8>>>(sz: I0) -> Option<(usize, usize, usize, &'a mut Sq)> { build(sq::Init { sz }) }
pub fn root_m_sq_refs<'a>(x: &'a Sq) -> &'a Array<u16, u8> { let y = x.refs(); y.sz }
pub fn root_m_sq_muts<'a>(x: Pin<&'a mut Sq>) -> Pin<&'a mut Array<u16, u8>> { let y = x.muts(); y.sz }
pub unsafe fn root_m_sq_vdrop(x: Pin<&mut Sq>) { vdrop_it(x) }
pub fn root_m_sq_consts() -> (usize, bool) { consts_of::<Sq>() }

#[define_varlen]
pub struct Sr {
    pub field: Dz,
    pub muts: Dr,
}
pub unsafe fn root_m_sr_build<'a>(field: Dz, muts: Dr) -> Option<(usize, usize, usize, &'a mut Sr)> { build(sr::Init { field, muts }) }
pub fn root_m_sr_refs<'a>(x: &'a Sr) -> (&'a Dz, &'a Dr) { let y = x.refs(); (y.field, y.muts) }
pub fn root_m_sr_muts<'a>(x: Pin<&'a mut Sr>) -> (&'a mut Dz, &'a mut Dr) { let y = x.muts(); (y.field, y.muts) }
pub unsafe fn root_m_sr_vdrop(x: Pin<&mut Sr>) { vdrop_it(x) }
pub fn root_m_sr_consts() -> (usize, bool) { consts_of::<Sr>() }

#[define_varlen]
pub struct Ss {
    pub k: Dz,
    pub base: u8,
    pub layout: u64,
    pub a: u8,
    pub b: u64,
    pub p: u16,
    pub header: u8,
    pub arr: u32,
    pub muts: u16,
}
pub unsafe fn root_m_ss_build<'a>(k: Dz, base: u8, layout: u64, a: u8, b: u64, p: u16, header: u8, arr: u32, muts: u16) -> Option<(usize, usize, usize, &'a mut Ss)> { build(ss::Init { k, base, layout, a, b, p, header, arr, muts }) }
pub fn root_m_ss_refs<'a>(x: &'a Ss) -> (&'a Dz, &'a u8, &'a u64, &'a u8, &'a u64, &'a u16, &'a u8, &'a u32, &'a u16) { let y = x.refs(); (y.k, y.base, y.layout, y.a, y.b, y.p, y.header, y.arr, y.muts) }
pub fn root_m_ss_muts<'a>(x: Pin<&'a mut Ss>) -> (&'a mut Dz, &'a mut u8, &'a mut u64, &'a mut u8, &'a mut u64, &'a mut u16, &'a mut u8, &'a mut u32, &'a mut u16) { let y = x.muts(); (y.k, y.base, y.layout, y.a, y.b, y.p, y.header, y.arr, y.muts) }
pub unsafe fn root_m_ss_vdrop(x: Pin<&mut Ss>) { vdrop_it(x) }
pub fn root_m_ss_consts() -> (usize, bool) { consts_of::<Ss>() }

#[define_varlen]
#[repr(C)]
pub struct St<E = u8> {
    #[varlen_array] pub z: [Dz; *p as usize + *base as usize],
    #[controls_layout] pub b: u8,
    #[varlen_array] pub sz: [u16; *base as usize],
    #[controls_layout] pub base: u8,
    #[varlen_array] pub w: [E; *base as usize + 1],
    #[varlen_array] pub arr: [u8; *b as usize],
    #[varlen_array] pub offset: [Dz; *b as usize + *p as usize],
    #[controls_layout] pub p: u8,
}
pub unsafe fn root_m_st_build<'a, E, I0: ArrayInitializer<Dz>, I2: ArrayInitializer<u16>, I4: ArrayInitializer<E>, I5: ArrayInitializer<u8>, I6: ArrayInitializer<Dz>>(z: I0, b: u8, sz: I2, base: u8, w: I4, arr: I5, offset: I6, p: u8) -> Option<(usize, usize, usize, &'a mut St<E>)> { build(st::Init { z, b, sz, base, w, arr, offset, p }) }
pub fn root_m_st_refs<'a, E>(x: &'a St<E>) -> (&'a [Dz], &'a u8, &'a [u16], &'a u8, &'a [E], &'a [u8], &'a [Dz], &'a u8) { let y = x.refs(); (y.z, y.b, y.sz, y.base, y.w, y.arr, y.offset, y.p) }
pub fn root_m_st_muts<'a, E>(x: Pin<&'a mut St<E>>) -> (&'a mut [Dz], &'a u8, &'a mut [u16], &'a u8, &'a mut [E], &'a mut [u8], &'a mut [Dz], &'a u8) { let y = x.muts(); (y.z, y.b, y.sz, y.base, y.w, y.arr, y.offset, y.p) }
pub unsafe fn root_m_st_vdrop<E>(x: Pin<&mut St<E>>) { vdrop_it(x) }
pub fn root_m_st_consts<E>() -> (usize, bool) { consts_of::<St<E>>() }
pub fn root_m_st_set<E>(x: Pin<&mut St<E>>, b: u8, base: u8, p: u8) -> bool { x.try_set_layout_controllers(st::LayoutControllers { b, base, p }).is_ok() }

#[define_varlen]
pub struct Su<E = u8> {
    #[varlen_array] pub w: [E; *b as usize],
    #[controls_layout] pub muts: u8,
    #[controls_layout] pub b: u32,
    #[varlen_array] pub offset: [u64; *b as usize + 1],
    #[varlen_array] pub sz: [Dz; *b as usize + 1],
}
pub unsafe fn root_m_su_build<'a, E, I0: ArrayInitializer<E>, I3: ArrayInitializer<u64>, I4: ArrayInitializer<Dz>>(w: I0, muts: u8, b: u32, offset: I3, sz: I4) -> Option<(usize, usize, usize, &'a mut Su<E>)> { build(su::Init { w, muts, b, offset, sz }) }
pub fn root_m_su_refs<'a, E>(x: &'a Su<E>) -> (&'a [E], &'a u8, &'a u32, &'a [u64], &'a [Dz]) { let y = x.refs(); (y.w, y.muts, y.b, y.offset, y.sz) }
pub fn root_m_su_muts<'a, E>(x: Pin<&'a mut Su<E>>) -> (&'a mut [E], &'a u8, &'a u32, &'a mut [u64], &'a mut [Dz]) { let y = x.muts(); (y.w, y.muts, y.b, y.offset, y.sz) }
pub unsafe fn root_m_su_vdrop<E>(x: Pin<&mut Su<E>>) { vdrop_it(x) }
pub fn root_m_su_consts<E>() -> (usize, bool) { consts_of::<Su<E>>() }
pub fn root_m_su_set<E>(x: Pin<&mut Su<E>>, muts: u8, b: u32) -> bool { x.try_set_layout_controllers(su::LayoutControllers { muts, b }).is_ok() }

#[define_varlen]
pub struct Sv<E = u8> {
    pub base: Dz,
    pub init: Dr,
    pub dst: Dr,
    pub a: Dz,
    pub arr: u8,
    #[controls_layout] pub z: u32,
    #[varlen] pub p: Str,
    #[controls_layout] pub refs: u32,
    pub field: u64,
    #[controls_layout] pub offset: u32,
    #[controls_layout] pub layout: u32,
    pub size: Dr,
    pub b: u32,
    pub w: u64,
    pub ptr: u64,
    #[varlen] pub end: Str<u32>,
    pub muts: u64,
    #[varlen_array] pub k: [E; *refs as usize + 1],
}
pub unsafe fn root_m_sv_build<'a, E, I6: Initializer<Str>, I15: Initializer<Str<u32>>, I17: ArrayInitializer<E>>(base: Dz, init: Dr, dst: Dr, a: Dz, arr: u8, z: u32, p: I6, refs: u32, field: u64, offset: u32, layout: u32, size: Dr, b: u32, w: u64, ptr: u64, end: I15, muts: u64, k: I17) -> Option<(usize, usize, usize, &'a mut Sv<E>)> { build(sv::Init { base, init, dst, a, arr, z, p, refs, field, offset, layout, size, b, w, ptr, end, muts, k }) }
pub fn root_m_sv_refs<'a, E>(x: &'a Sv<E>) -> (&'a Dz, &'a Dr, &'a Dr, &'a Dz, &'a u8, &'a u32, &'a Str, &'a u32, &'a u64, &'a u32, &'a u32, &'a Dr, &'a u32, &'a u64, &'a u64, &'a Str<u32>, &'a u64, &'a [E]) { let y = x.refs(); (y.base, y.init, y.dst, y.a, y.arr, y.z, y.p, y.refs, y.field, y.offset, y.layout, y.size, y.b, y.w, y.ptr, y.end, y.muts, y.k) }
pub fn root_m_sv_muts<'a, E>(x: Pin<&'a mut Sv<E>>) -> (&'a mut Dz, &'a mut Dr, &'a mut Dr, &'a mut Dz, &'a mut u8, &'a u32, Pin<&'a mut Str>, &'a u32, &'a mut u64, &'a u32, &'a u32, &'a mut Dr, &'a mut u32, &'a mut u64, &'a mut u64, Pin<&'a mut Str<u32>>, &'a mut u64, &'a mut [E]) { let y = x.muts(); (y.base, y.init, y.dst, y.a, y.arr, y.z, y.p, y.refs, y.field, y.offset, y.layout, y.size, y.b, y.w, y.ptr, y.end, y.muts, y.k) }
pub unsafe fn root_m_sv_vdrop<E>(x: Pin<&mut Sv<E>>) { vdrop_it(x) }
pub fn root_m_sv_consts<E>() -> (usize, bool) { consts_of::<Sv<E>>() }
pub fn root_m_sv_set<E>(x: Pin<&mut Sv<E>>, z: u32, refs: u32, offset: u32, layout: u32) -> bool { x.try_set_layout_controllers(sv::LayoutControllers { z, refs, offset, layout }).is_ok() }

#[define_varlen]
#[repr(C)]
pub struct Sw {
    #[controls_layout] pub item: u32,
    #[varlen] pub end: Array<u16, u8>,
    #[varlen_array] pub a: [u64; *item as usize + 1],
}
pub unsafe fn root_m_sw_build<'a, I1: Initializer<Array<u16, u8>>, I2: ArrayInitializer<u64>>(item: u32, end: I1, a: I2) -> Option<(usize, usize, usize, &'a mut Sw)> { build(sw::Init { item, end, a }) }
pub fn root_m_sw_refs<'a>(x: &'a Sw) -> (&'a u32, &'a Array<u16, u8>, &'a [u64]) { let y = x.refs(); (y.item, y.end, y.a) }
pub fn root_m_sw_muts<'a>(x: Pin<&'a mut Sw>) -> (&'a u32, Pin<&'a mut Array<u16, u8>>, &'a mut [u64]) { let y = x.muts(); (y.item, y.end, y.a) }
pub unsafe fn root_m_sw_vdrop(x: Pin<&mut Sw>) { vdrop_it(x) }
pub fn root_m_sw_consts() -> (usize, bool) { consts_of::<Sw>() }
pub fn root_m_sw_set(x: Pin<&mut Sw>, item: u32) -> bool { x.try_set_layout_controllers(sw::LayoutControllers { item }).is_ok() }

#[define_varlen]
pub struct Sx<E = u8> {
    #[controls_layout] pub p: Dr,
    pub base: Dz,
    #[varlen_array] pub refs: [E; 3],
    #[varlen_array] pub field: [Dz; p.get()],
    #[controls_layout] pub item: u8,
    #[controls_layout] pub dst: u8,
    pub end: Dz,
}
pub unsafe fn root_m_sx_build<'a, E, I2: ArrayInitializer<E>, I3: ArrayInitializer<Dz>>(p: Dr, base: Dz, refs: I2, field: I3, item: u8, dst: u8, end: Dz) -> Option<(usize, usize, usize, &'a mut Sx<E>)> { build(sx::Init { p, base, refs, field, item, dst, end }) }
pub fn root_m_sx_refs<'a, E>(x: &'a Sx<E>) -> (&'a Dr, &'a Dz, &'a [E], &'a [Dz], &'a u8, &'a u8, &'a Dz) { let y = x.refs(); (y.p, y.base, y.refs, y.field, y.item, y.dst, y.end) }
pub fn root_m_sx_muts<'a, E>(x: Pin<&'a mut Sx<E>>) -> (&'a Dr, &'a mut Dz, &'a mut [E], &'a mut [Dz], &'a u8, &'a u8, &'a mut Dz) { let y = x.muts(); (y.p, y.base, y.refs, y.field, y.item, y.dst, y.end) }
pub unsafe fn root_m_sx_vdrop<E>(x: Pin<&mut Sx<E>>) { vdrop_it(x) }
pub fn root_m_sx_consts<E>() -> (usize, bool) { consts_of::<Sx<E>>() }
pub fn root_m_sx_set<E>(x: Pin<&mut Sx<E>>, p: Dr, item: u8, dst: u8) -> bool { x.try_set_layout_controllers(sx::LayoutControllers { p, item, dst }).is_ok() }

#[define_varlen]
pub struct Sy<G: VarLen = Str> {
    #[varlen] pub sz: Str,
    #[controls_layout] pub muts: Dr,
    #[varlen] pub header: Str<u32>,
    #[controls_layout] pub base: u8,
    #[varlen] pub ptr: G,
    #[controls_layout] pub layout: u16,
}
pub unsafe fn root_m_sy_build<'a, G: VarLen, I0: Initializer<Str>, I2: Initializer<Str<u32>>, I4: Initializer<G>>(sz: I0, muts: Dr, header: I2, base: u8, ptr: I4, layout: u16) -> Option<(usize, usize, usize, &'a mut Sy<G>)> { build(sy::Init { sz, muts, header, base, ptr, layout }) }
pub fn root_m_sy_refs<'a, G: VarLen>(x: &'a Sy<G>) -> (&'a Str, &'a Dr, &'a Str<u32>, &'a u8, &'a G, &'a u16) { let y = x.refs(); (y.sz, y.muts, y.header, y.base, y.ptr, y.layout) }
pub fn root_m_sy_muts<'a, G: VarLen>(x: Pin<&'a mut Sy<G>>) -> (Pin<&'a mut Str>, &'a Dr, Pin<&'a mut Str<u32>>, &'a u8, Pin<&'a mut G>, &'a u16) { let y = x.muts(); (y.sz, y.muts, y.header, y.base, y.ptr, y.layout) }
pub unsafe fn root_m_sy_vdrop<G: VarLen>(x: Pin<&mut Sy<G>>) { vdrop_it(x) }
pub fn root_m_sy_consts<G: VarLen>() -> (usize, bool) { consts_of::<Sy<G>>() }

#[define_varlen]
#[repr(C)]
pub struct Sz<E = u8> {
    pub p: u32,
    #[controls_layout] pub muts: u8,
    #[controls_layout] pub header: Dr,
    #[controls_layout] pub refs: u32,
    #[varlen_array] pub a: [E; *refs as usize + 1],
}
pub unsafe fn root_m_sz_build<'a, E, I4: ArrayInitializer<E>>(p: u32, muts: u8, header: Dr, refs: u32, a: I4) -> Option<(usize, usize, usize, &'a mut Sz<E>)> { build(sz::Init { p, muts, header, refs, a }) }
pub fn root_m_sz_refs<'a, E>(x: &'a Sz<E>) -> (&'a u32, &'a u8, &'a Dr, &'a u32, &'a [E]) { let y = x.refs(); (y.p, y.muts, y.header, y.refs, y.a) }
pub fn root_m_sz_muts<'a, E>(x: Pin<&'a mut Sz<E>>) -> (&'a mut u32, &'a u8, &'a Dr, &'a u32, &'a mut [E]) { let y = x.muts(); (y.p, y.muts, y.header, y.refs, y.a) }
pub unsafe fn root_m_sz_vdrop<E>(x: Pin<&mut Sz<E>>) { vdrop_it(x) }
pub fn root_m_sz_consts<E>() -> (usize, bool) { consts_of::<Sz<E>>() }
pub fn root_m_sz_set<E>(x: Pin<&mut Sz<E>>, muts: u8, header: Dr, refs: u32) -> bool { x.try_set_layout_controllers(sz::LayoutControllers { muts, header, refs }).is_ok() }
