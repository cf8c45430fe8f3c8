//! Structs defined with #[define_varlen], covering the field kinds and their combinations.
use super::*;

/// Two variable-length fields after a header of three.
#[define_varlen]
#[repr(C)]
pub struct Person {
    pub age: u8,
    #[varlen]
    pub name: Str,
    pub id: u32,
    #[varlen]
    pub tags: Array<u16, u8>,
}

/// Arrays only, with lengths computed from one controlling field.
#[define_varlen]
pub struct Arrays {
    #[controls_layout]
    pub len: usize,
    #[varlen_array]
    pub a1: [u16; *len],
    #[varlen_array]
    pub a2: [u8; *len],
    #[varlen_array]
    pub half: [u32; (*len) / 2],
}

/// Two controlling fields, a droppable header field, an array and a variable-length field.
#[define_varlen]
#[repr(C)]
pub struct Mixed {
    #[controls_layout]
    pub n: u8,
    pub tag: Dr,
    #[controls_layout]
    pub m: u16,
    #[varlen_array]
    pub xs: [Dr; *n as usize],
    #[varlen]
    pub s: Str<u32>,
    #[varlen_array]
    pub ys: [u64; *m as usize],
}

/// A generic variable-length field.
#[define_varlen]
pub struct GenField<T: VarLen = Str> {
    #[varlen]
    pub f: T,
}

/// A generic element type.
#[define_varlen]
pub struct GenArr<T = u8> {
    #[controls_layout]
    pub len: u16,
    #[varlen_array]
    pub xs: [T; *len as usize],
    #[varlen_array]
    pub ys: [T; (*len / 4) as usize],
}

/// A type with a destructor.
pub struct Dr(pub u32);
impl Dr {
    pub const fn get(&self) -> usize { self.0 as usize }
}
impl Drop for Dr {
    fn drop(&mut self) { super::ghost_drop(self) }
}

/// Generic fields and elements, and a header field of no size with a destructor.
#[define_varlen]
pub struct Full<F: VarLen = Str, G: VarLen = Str, E = u8> {
    pub p: Dz,
    #[controls_layout]
    pub n: u32,
    #[varlen]
    pub f: F,
    pub q: u64,
    #[varlen_array]
    pub xs: [E; *n as usize],
    #[varlen]
    pub g: G,
}

/// Three controlling fields, lengths that depend on several of them.
#[define_varlen]
pub struct Grid {
    #[controls_layout]
    pub r: u8,
    #[controls_layout]
    pub c: u16,
    #[varlen_array]
    pub cells: [u16; (*r as usize) * (*c as usize)],
    pub t: u8,
    #[controls_layout]
    pub k: u8,
    #[varlen_array]
    pub mix: [u8; *k as usize + *r as usize],
    #[varlen_array]
    pub rows: [u32; *r as usize],
}

/// No variable-length field at all.
#[define_varlen]
#[repr(C)]
pub struct Flat {
    pub a: u8,
    pub b: Dr,
    pub c: Dz,
    pub d: u64,
}

/// The only droppable thing has no size.
#[define_varlen]
pub struct Mark {
    pub a: u16,
    pub z: Dz,
}

/// Controlling fields after what they control, one of them with a destructor.
#[define_varlen]
pub struct Behind {
    #[varlen_array]
    pub xs: [u16; *n as usize + m.get()],
    pub plain: u32,
    #[varlen]
    pub s: Str<u32>,
    #[controls_layout]
    pub m: Dr,
    #[controls_layout]
    pub n: u8,
}

/// Lifetime and const parameters.
#[define_varlen]
pub struct Borrow<'b, T: 'b = u8, const N: usize = 4> {
    #[controls_layout]
    pub n: u16,
    #[varlen_array]
    pub refs: [&'b T; *n as usize],
    #[varlen_array]
    pub blocks: [[T; N]; *n as usize + 1],
}

/// A struct with methods of its own that have the names of the trait's.
// A where clause, and a length that takes one of two ways.
#[define_varlen]
pub struct Cond<T: VarLen = Str>
where
    T: VarLen,
{
    #[controls_layout]
    pub k: u8,
    #[controls_layout]
    pub n: u16,
    #[varlen_array]
    pub xs: [u32; if *k > 3 { *n as usize } else { 2 }],
    #[varlen]
    pub f: T,
}

#[define_varlen]
pub struct Decoy {
    #[controls_layout]
    pub n: u8,
    #[varlen_array]
    pub xs: [Dr; *n as usize],
}
impl Decoy {
    #[allow(dead_code)]
    pub fn calculate_layout(&self) -> <Decoy as VarLen>::Layout { panic!() }
    #[allow(dead_code)]
    pub unsafe fn vdrop(self: Pin<&mut Self>, _: <Decoy as VarLen>::Layout) {}
}

/// A type of no size with a destructor.
pub struct Dz;
impl Drop for Dz {
    fn drop(&mut self) { super::ghost_drop_z(self) }
}
