#![allow(unused, dead_code, unreachable_code, mismatched_lifetime_syntaxes)]
use std::pin::Pin;
use std::ptr::NonNull;
use varlen::array_init::*;
use varlen::marker::*;
use varlen::prelude::*;
use varlen::seq::CheckedIndexing;
use varlen::Layout as _;

#[define_varlen]
pub struct Rec {
    #[controls_layout]
    pub len: u8,
    pub plain: u64,
    #[varlen_array]
    pub xs: [u16; *len as usize],
    #[varlen]
    pub s: Str,
}

#[define_varlen]
pub struct Held {
    pub plain: u64,
    #[varlen]
    pub f: FixedLen<u8>,
}

define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Nt(Array<u16, u8>);
    with init: pub struct NtInit<_>(_);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
