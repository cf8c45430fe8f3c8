//! Structs defined with #[define_varlen], covering the field kinds and their combinations.
use crate::track::{Bd, D, Z};
use varlen::prelude::*;

#[define_varlen]
#[repr(C)]
pub struct Person { pub age: u8, #[varlen] pub name: Str, pub id: u32, #[varlen] pub tags: Array<u16, u8> }
#[define_varlen]
pub struct Arrays { #[controls_layout] pub len: usize, #[varlen_array] pub a1: [u16; *len], #[varlen_array] pub a2: [u8; *len], #[varlen_array] pub half: [u32; (*len) / 2] }
#[define_varlen]
#[repr(C)]
pub struct Mixed {
    #[controls_layout] pub n: u8, pub tag: D, #[controls_layout] pub m: u16,
    #[varlen_array] pub xs: [D; *n as usize], #[varlen] pub s: Str<u32>, #[varlen_array] pub ys: [u64; *m as usize],
}
#[define_varlen]
pub struct GenField<T: VarLen = Str> { pub k: u16, #[varlen] pub f: T }
#[define_varlen]
pub struct GenArr<T = u8> { #[controls_layout] pub len: u16, #[varlen_array] pub xs: [T; *len as usize], #[varlen_array] pub ys: [T; (*len / 4) as usize] }
#[define_varlen]
pub struct Two { #[controls_layout] pub a: usize, #[controls_layout] pub b: usize, #[varlen_array] pub xs: [u8; *a], #[varlen_array] pub ys: [u16; *b], #[varlen_array] pub zs: [u32; *b / 2] }
#[define_varlen]
pub struct Rounded { #[controls_layout] pub a: u8, #[controls_layout] pub b: u32, #[varlen_array] pub xs: [u16; (*a / 4) as usize], #[varlen_array] pub ys: [u64; (*b % 4) as usize] }
#[define_varlen]
pub struct Tail { #[controls_layout] pub n: u8, #[varlen] pub s: Str<u8>, #[varlen_array] pub xs: [D; *n as usize] }
#[define_varlen]
pub struct HeadOnly { pub d: D, #[controls_layout] pub n: u8, #[varlen_array] pub xs: [u8; *n as usize] }
#[define_varlen]
pub struct Late { #[varlen] pub a: Str<u8>, #[varlen] pub b: Array<u16, u8>, #[varlen] pub c: Array<D, u8> }
#[define_varlen]
pub struct Grid {
    #[controls_layout] pub r: u8, #[controls_layout] pub c: u16, #[varlen_array] pub cells: [u16; (*r as usize) * (*c as usize)], pub t: u8,
    #[controls_layout] pub k: u8, #[varlen_array] pub mix: [u8; *k as usize + *r as usize], #[varlen_array] pub rows: [u32; *r as usize],
}
#[define_varlen]
pub struct Behind { #[varlen_array] pub xs: [u16; *n as usize + m.n()], pub plain: u32, #[varlen] pub s: Str<u32>, #[controls_layout] pub m: Bd, #[controls_layout] pub n: u8 }
#[define_varlen]
pub struct Mark { pub a: u16, pub z: Z }
#[define_varlen]
#[repr(C)]
pub struct Flat { pub a: u8, pub b: D, pub c: Z, pub d: u64 }
#[define_varlen]
pub struct ZArr { pub q: u64, #[controls_layout] pub n: u32, #[varlen] pub f: Str<u8>, #[varlen_array] pub xs: [Z; *n as usize] }
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Nt<(T: VarLen)>(pub T);
    with signature: impl<(T: VarLen)> Nt<(T)> { _ }
    with init: pub struct NtInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
/// Methods of its own with the names of the traits'.
#[define_varlen]
pub struct Decoy { #[controls_layout] pub n: u8, #[varlen_array] pub xs: [D; *n as usize] }
impl Decoy {
    #[allow(dead_code)]
    pub fn calculate_layout(&self) -> <Decoy as VarLen>::Layout { panic!("decoy") }
}
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NtDecoy(pub Decoy);
    with init: pub struct NtDecoyInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
pub struct Lift<X>(pub X);
impl_initializer_as_newtype! { impl<(T: VarLen), (X: Initializer<T>)> Initializer<T> for Lift<X> { _ } }
pub struct Trick<X>(pub X);
impl<X> Trick<X> {
    #[allow(dead_code)]
    pub unsafe fn initialize<T: VarLen>(self, _: std::ptr::NonNull<T>, _: T::Layout) { std::mem::forget(self) }
}
unsafe impl<T: VarLen, X: Initializer<T>> Initializer<T> for Trick<X> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> { self.0.calculate_layout_cautious() }
    unsafe fn initialize(self, p: std::ptr::NonNull<T>, l: T::Layout) { self.0.initialize(p, l) }
}
