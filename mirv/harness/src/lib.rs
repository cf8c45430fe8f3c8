//! Roots: one small function per public operation of varlen. Each root is what the verifier
//! starts from; its contract is in ../py/contracts*.py. The bodies that are verified are the ones
//! the compiler produces for varlen itself (and for the parts of core and alloc it calls);
//! nothing of varlen is copied here.
#![allow(dead_code, clippy::all)]
use core::mem::MaybeUninit;
use core::pin::Pin;
use core::ptr::NonNull;
use varlen::array::*;
use varlen::array_init::*;
use varlen::newtype::*;
use varlen::owned::Owned;
use varlen::prelude::*;
use varlen::seq::*;
use varlen::tuple::*;
use varlen::*;

/// Ghost allocation: the verifier hands out a fresh region of exactly this size and alignment.
#[inline(never)]
fn ghost_alloc(size: usize, align: usize) -> *mut u8 {
    let _ = (size, align);
    core::ptr::null_mut()
}
/// Ghost marker: a point at which the contract inspects the state.
#[inline(never)]
fn ghost_point(id: usize) {
    let _ = id;
}

/// What every initializer must do: report a layout, fill a block of that size, and leave an
/// object that reports the same layout.
unsafe fn build<'a, X: VarLen, I: Initializer<X>>(init: I) -> Option<(usize, usize, usize, &'a mut X)> {
    let l = init.calculate_layout_cautious()?;
    let s1 = l.size();
    let p = ghost_alloc(s1, X::ALIGN) as *mut X;
    init.initialize(NonNull::new_unchecked(p), l);
    ghost_point(1);
    let x = &mut *p;
    let s2 = x.calculate_layout().size();
    Some((s1, s2, X::ALIGN, x))
}
unsafe fn vdrop_it<X: VarLen>(x: Pin<&mut X>) {
    let l = x.calculate_layout();
    x.vdrop(l)
}
fn consts_of<X: VarLen>() -> (usize, bool) {
    (X::ALIGN, X::NEEDS_VDROP)
}

// ---------------------------------------------------------------- arrays and strings
macro_rules! per_len {
    ($L:ty; $abuild:ident $aref:ident $amut:ident $atrycopy:ident $atryclone:ident $avdrop:ident $aconsts:ident $avclone:ident $avcopy:ident
     $sbuild:ident $sref:ident $smut:ident $svclone:ident $svcopy:ident $sconsts:ident $svdrop:ident $conv:ident) => {
        pub unsafe fn $abuild<'a, T, I: ArrayInitializer<T>>(n: $L, i: I) -> Option<(usize, usize, usize, &'a mut Array<T, $L>)> {
            build(SizedInit(n, i))
        }
        pub unsafe fn $aref<T>(a: &Array<T, $L>) -> (&[T], $L) {
            (&a[..], a.len_short())
        }
        pub unsafe fn $amut<T>(a: Pin<&mut Array<T, $L>>) -> &mut [T] {
            a.mut_slice()
        }
        pub fn $atrycopy<T: Copy>(s: &[T]) -> Option<SizedInit<CopyFrom<T>, $L>> {
            Array::try_copy(s)
        }
        pub fn $atryclone<T: Clone>(s: &[T]) -> Option<SizedInit<CloneFrom<T>, $L>> {
            Array::try_clone_from_slice(s)
        }
        pub unsafe fn $avdrop<T>(a: Pin<&mut Array<T, $L>>) {
            vdrop_it(a)
        }
        pub fn $aconsts<T>() -> (usize, bool) {
            consts_of::<Array<T, $L>>()
        }
        pub unsafe fn $avclone<'a, T: Clone>(a: &'a Array<T, $L>) -> Option<(usize, usize, usize, &'a mut Array<T, $L>)> {
            build(a.vclone())
        }
        pub unsafe fn $avcopy<'a, T: Copy>(a: &'a Array<T, $L>) -> Option<(usize, usize, usize, &'a mut Array<T, $L>)> {
            build(a.vcopy())
        }
        pub unsafe fn $sbuild<'a>(s: &str) -> Option<(usize, usize, usize, &'a mut Str<$L>)> {
            build(Str::<$L>::try_copy(s)?)
        }
        pub fn $sref(s: &Str<$L>) -> &str {
            &s[..]
        }
        pub fn $smut(s: Pin<&mut Str<$L>>) -> &mut str {
            s.mut_slice()
        }
        pub unsafe fn $svclone<'a>(s: &'a Str<$L>) -> Option<(usize, usize, usize, &'a mut Str<$L>)> {
            build(s.vclone())
        }
        pub unsafe fn $svcopy<'a>(s: &'a Str<$L>) -> Option<(usize, usize, usize, &'a mut Str<$L>)> {
            build(s.vcopy())
        }
        pub fn $sconsts() -> (usize, bool) {
            consts_of::<Str<$L>>()
        }
        pub unsafe fn $svdrop(s: Pin<&mut Str<$L>>) {
            vdrop_it(s)
        }
        pub fn $conv(n: usize) -> (Option<$L>, usize) {
            let r = <$L as ArrayLen>::from_usize(n);
            (r, match r { Some(x) => x.as_usize(), None => 0 })
        }
    };
}
per_len!(usize; root_arr_build_usize root_arr_ref_usize root_arr_mut_usize root_arr_trycopy_usize root_arr_tryclone_usize root_arr_vdrop_usize root_arr_consts_usize root_arr_vclone_usize root_arr_vcopy_usize
    root_str_build_usize root_str_ref_usize root_str_mut_usize root_str_vclone_usize root_str_vcopy_usize root_str_consts_usize root_str_vdrop_usize root_len_conv_usize);
per_len!(u8; root_arr_build_u8 root_arr_ref_u8 root_arr_mut_u8 root_arr_trycopy_u8 root_arr_tryclone_u8 root_arr_vdrop_u8 root_arr_consts_u8 root_arr_vclone_u8 root_arr_vcopy_u8
    root_str_build_u8 root_str_ref_u8 root_str_mut_u8 root_str_vclone_u8 root_str_vcopy_u8 root_str_consts_u8 root_str_vdrop_u8 root_len_conv_u8);
per_len!(u16; root_arr_build_u16 root_arr_ref_u16 root_arr_mut_u16 root_arr_trycopy_u16 root_arr_tryclone_u16 root_arr_vdrop_u16 root_arr_consts_u16 root_arr_vclone_u16 root_arr_vcopy_u16
    root_str_build_u16 root_str_ref_u16 root_str_mut_u16 root_str_vclone_u16 root_str_vcopy_u16 root_str_consts_u16 root_str_vdrop_u16 root_len_conv_u16);
per_len!(u32; root_arr_build_u32 root_arr_ref_u32 root_arr_mut_u32 root_arr_trycopy_u32 root_arr_tryclone_u32 root_arr_vdrop_u32 root_arr_consts_u32 root_arr_vclone_u32 root_arr_vcopy_u32
    root_str_build_u32 root_str_ref_u32 root_str_mut_u32 root_str_vclone_u32 root_str_vcopy_u32 root_str_consts_u32 root_str_vdrop_u32 root_len_conv_u32);
per_len!(u64; root_arr_build_u64 root_arr_ref_u64 root_arr_mut_u64 root_arr_trycopy_u64 root_arr_tryclone_u64 root_arr_vdrop_u64 root_arr_consts_u64 root_arr_vclone_u64 root_arr_vcopy_u64
    root_str_build_u64 root_str_ref_u64 root_str_mut_u64 root_str_vclone_u64 root_str_vcopy_u64 root_str_consts_u64 root_str_vdrop_u64 root_len_conv_u64);
pub unsafe fn root_arr_copy<'a, T: Copy>(s: &[T]) -> Option<(usize, usize, usize, &'a mut Array<T>)> {
    build(Array::copy(s))
}
pub unsafe fn root_arr_clone_from<'a, T: Clone>(s: &[T]) -> Option<(usize, usize, usize, &'a mut Array<T>)> {
    build(Array::clone_from_slice(s))
}
pub unsafe fn root_str_copy<'a>(s: &str) -> Option<(usize, usize, usize, &'a mut Str)> {
    build(Str::copy(s))
}

// ---------------------------------------------------------------- array initializers
pub fn root_ai_fill_seq<T, F: FnMut(usize) -> T>(f: F, dst: &mut [MaybeUninit<T>]) { FillSequentially(f).initialize(dst) }
pub fn root_ai_default<T: Default>(dst: &mut [MaybeUninit<T>]) { FillWithDefault.initialize(dst) }
pub fn root_ai_copy<T: Copy>(s: &[T], dst: &mut [MaybeUninit<T>]) { CopyFrom(s).initialize(dst) }
pub fn root_ai_clone<T: Clone>(s: &[T], dst: &mut [MaybeUninit<T>]) { CloneFrom(s).initialize(dst) }
pub fn root_ai_iter<T, It: Iterator<Item = T>>(it: It, dst: &mut [MaybeUninit<T>]) { FromIterPrefix(it).initialize(dst) }
pub fn root_ai_move<T, const N: usize>(s: [T; N], dst: &mut [MaybeUninit<T>]) { MoveFrom(s).initialize(dst) }
pub fn root_ai_move0<T>(s: [T; 0], dst: &mut [MaybeUninit<T>]) { MoveFrom(s).initialize(dst) }
pub fn root_ai_move1<T>(s: [T; 1], dst: &mut [MaybeUninit<T>]) { MoveFrom(s).initialize(dst) }
pub fn root_ai_move3<T>(s: [T; 3], dst: &mut [MaybeUninit<T>]) { MoveFrom(s).initialize(dst) }
pub fn root_ai_move_copy<const N: usize>(s: [u32; N], dst: &mut [MaybeUninit<u32>]) { MoveFrom(s).initialize(dst) }
pub fn root_new_array<T, I: ArrayInitializer<T>, const N: usize>(i: I) -> [T; N] { new_array(i) }
pub fn root_new_array0<T, I: ArrayInitializer<T>>(i: I) -> [T; 0] { new_array(i) }
pub fn root_new_array3<T, I: ArrayInitializer<T>>(i: I) -> [T; 3] { new_array(i) }

// ---------------------------------------------------------------- fixed-length objects
pub unsafe fn root_fix_build<'a, T>(v: T) -> Option<(usize, usize, usize, &'a mut FixedLen<T>)> { build(FixedLen(v)) }
pub unsafe fn root_fix_vclone<'a, T: Clone>(x: &'a FixedLen<T>) -> Option<(usize, usize, usize, &'a mut FixedLen<T>)> { build(x.vclone()) }
pub unsafe fn root_fix_vcopy<'a, T: Copy>(x: &'a FixedLen<T>) -> Option<(usize, usize, usize, &'a mut FixedLen<T>)> { build(x.vcopy()) }
pub unsafe fn root_fix_vdrop<T>(x: Pin<&mut FixedLen<T>>) { vdrop_it(x) }
pub fn root_fix_consts<T>() -> (usize, bool) { consts_of::<FixedLen<T>>() }

// ---------------------------------------------------------------- newtypes
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct Nt<(T: VarLen)>(pub T);
    with signature: impl<(T: VarLen)> Nt<(T)> { _ }
    with init: pub struct NtInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
pub unsafe fn root_nt_build<'a, T: VarLen, I: Initializer<T>>(i: I) -> Option<(usize, usize, usize, &'a mut Nt<T>)> { build(NtInit(i)) }
pub struct LiftInit<X>(X);
impl_initializer_as_newtype! {
    impl<(T: VarLen), (X: Initializer<T>)> Initializer<T> for LiftInit<X> { _ }
}
pub unsafe fn root_lift_build<'a, T: VarLen, I: Initializer<T>>(i: I) -> Option<(usize, usize, usize, &'a mut T)> { build(LiftInit(i)) }
/// An initializer with methods of its own that have the names of the trait's.
pub struct Trick<X>(X);
impl<X> Trick<X> {
    #[allow(dead_code)]
    pub fn calculate_layout_cautious<T: VarLen>(&self) -> Option<T::Layout> { None }
    #[allow(dead_code)]
    pub unsafe fn initialize<T: VarLen>(self, _: NonNull<T>, _: T::Layout) {}
}
unsafe impl<T: VarLen, X: Initializer<T>> Initializer<T> for Trick<X> {
    fn calculate_layout_cautious(&self) -> Option<T::Layout> { self.0.calculate_layout_cautious() }
    unsafe fn initialize(self, dst: NonNull<T>, layout: T::Layout) { self.0.initialize(dst, layout) }
}
pub struct LiftTrick<X>(Trick<X>);
impl_initializer_as_newtype! {
    impl<(T: VarLen), (X: Initializer<T>)> Initializer<T> for LiftTrick<X> { _ }
}
pub unsafe fn root_lift_trick_build<'a, T: VarLen, I: Initializer<T>>(i: I) -> Option<(usize, usize, usize, &'a mut T)> { build(LiftTrick(Trick(i))) }
define_varlen_newtype! {
    #[repr(transparent)]
    pub struct NtDecoy(pub gen::Decoy);
    with init: pub struct NtDecoyInit<_>(pub _);
    with inner_ref: pub fn inner(&self) -> &_;
    with inner_mut: pub fn inner_mut(self: _) -> _;
}
pub unsafe fn root_m_decoy_build<'a, I1: ArrayInitializer<Dr>>(n: u8, xs: I1) -> Option<(usize, usize, usize, &'a mut NtDecoy)> { build(NtDecoyInit(decoy::Init { n, xs })) }
pub fn root_m_decoy_refs(x: &NtDecoy) -> (&u8, &[Dr]) { let y = x.inner().refs(); (y.n, y.xs) }
pub fn root_m_decoy_muts(x: Pin<&mut NtDecoy>) -> (&u8, &mut [Dr]) { let y = x.inner_mut().muts(); (y.n, y.xs) }
pub unsafe fn root_m_decoy_vdrop(x: Pin<&mut NtDecoy>) { vdrop_it(x) }
pub fn root_m_decoy_consts() -> (usize, bool) { consts_of::<NtDecoy>() }
pub unsafe fn root_nt_vdrop<T: VarLen>(x: Pin<&mut Nt<T>>) { vdrop_it(x) }
pub fn root_nt_consts<T: VarLen>() -> (usize, bool) { consts_of::<Nt<T>>() }
pub fn root_nt_inner<T: VarLen>(x: &Nt<T>) -> &T { x.inner() }
pub fn root_nt_inner_mut<T: VarLen>(x: Pin<&mut Nt<T>>) -> Pin<&mut T> { x.inner_mut() }

// ---------------------------------------------------------------- tuples
macro_rules! per_tup {
    ($N:ident, $m:ident; $($t:ident $i:ident $v:ident),*; $build:ident $refs:ident $muts:ident $vdrop:ident $consts:ident $vclone:ident $vcopy:ident) => {
        pub unsafe fn $build<'a, $($t: VarLen, $i: Initializer<$t>),*>($($v: $i),*) -> Option<(usize, usize, usize, &'a mut $N<$($t),*>)> { build($m::Init($($v),*)) }
        pub fn $refs<'a, $($t: VarLen),*>(x: &'a $N<$($t),*>) -> ($(&'a $t),*) { let $m::Refs($($v),*) = x.refs(); ($($v),*) }
        pub fn $muts<'a, $($t: VarLen),*>(x: Pin<&'a mut $N<$($t),*>>) -> ($(Pin<&'a mut $t>),*) { let $m::Muts($($v),*) = x.muts(); ($($v),*) }
        pub unsafe fn $vdrop<$($t: VarLen),*>(x: Pin<&mut $N<$($t),*>>) { vdrop_it(x) }
        pub fn $consts<$($t: VarLen),*>() -> (usize, bool) { consts_of::<$N<$($t),*>>() }
        pub unsafe fn $vclone<'a, $($t: VClone<'a>),*>(x: &'a $N<$($t),*>) -> Option<(usize, usize, usize, &'a mut $N<$($t),*>)> { build(x.vclone()) }
        pub unsafe fn $vcopy<'a, $($t: VCopy<'a>),*>(x: &'a $N<$($t),*>) -> Option<(usize, usize, usize, &'a mut $N<$($t),*>)> { build(x.vcopy()) }
    };
}
per_tup!(Tup2, tup2; A IA a, B IB b; root_tup2_build root_tup2_refs root_tup2_muts root_tup2_vdrop root_tup2_consts root_tup2_vclone root_tup2_vcopy);
per_tup!(Tup3, tup3; A IA a, B IB b, C IC c; root_tup3_build root_tup3_refs root_tup3_muts root_tup3_vdrop root_tup3_consts root_tup3_vclone root_tup3_vcopy);
per_tup!(Tup4, tup4; A IA a, B IB b, C IC c, D ID d; root_tup4_build root_tup4_refs root_tup4_muts root_tup4_vdrop root_tup4_consts root_tup4_vclone root_tup4_vcopy);
per_tup!(Tup5, tup5; A IA a, B IB b, C IC c, D ID d, E IE e; root_tup5_build root_tup5_refs root_tup5_muts root_tup5_vdrop root_tup5_consts root_tup5_vclone root_tup5_vcopy);

// ---------------------------------------------------------------- boxes
pub fn root_box_new<T: VarLen, I: Initializer<T>>(i: I) -> VBox<T> { VBox::new(i) }
pub fn root_box_drop<T: VarLen>(b: VBox<T>) { drop(b) }
pub fn root_box_deref<T: VarLen>(b: &VBox<T>) -> &T { &**b }
pub fn root_box_as_mut<T: VarLen>(b: &mut VBox<T>) -> Pin<&mut T> { b.as_mut() }
pub unsafe fn root_box_raw<T: VarLen>(b: VBox<T>) -> VBox<T> { VBox::from_raw(VBox::into_raw(b)) }
pub unsafe fn root_box_into_raw<T: VarLen>(b: VBox<T>) -> *mut T { VBox::into_raw(b) }
pub unsafe fn root_box_move<'a, T: VarLen>(b: VBox<T>) -> Option<(usize, usize, usize, &'a mut T)> { build(b) }
pub fn root_box_clone_from<T: VarLen>(a: &mut VBox<T>, b: &VBox<T>) where for<'a> T: VClone<'a> { a.clone_from(b) }
pub fn root_box_clone<T: VarLen>(b: &VBox<T>) -> VBox<T> where for<'a> T: VClone<'a> { b.clone() }

// ---------------------------------------------------------------- owned references
pub fn root_own_drop<'a, T: VarLen>(b: Owned<'a, T>) { drop(b) }
pub fn root_own_deref<'a, 'b, T: VarLen>(b: &'b Owned<'a, T>) -> &'b T { &**b }
pub fn root_own_as_mut<'a, 'b, T: VarLen>(b: &'b mut Owned<'a, T>) -> Pin<&'b mut T> { b.as_mut() }
pub unsafe fn root_own_raw<'a, T: VarLen>(b: Owned<'a, T>) -> Owned<'a, T> { Owned::from_raw(Owned::into_raw(b)) }
pub unsafe fn root_own_into_raw<'a, T: VarLen>(b: Owned<'a, T>) -> NonNull<T> { Owned::into_raw(b) }
pub fn root_own_leak<'a, T: VarLen>(b: Owned<'a, T>) -> Pin<&'a mut T> { b.leak() }
pub unsafe fn root_own_move<'a, 'b, T: VarLen>(b: Owned<'a, T>) -> Option<(usize, usize, usize, &'b mut T)> { build(b) }
pub fn root_own_new_in<'a, T: VarLen, I: Initializer<T>>(i: I, b: &'a bumpalo::Bump) -> Owned<'a, T> { Owned::new_in(i, b) }

// ---------------------------------------------------------------- sequences
pub fn root_seq_new_u<T: VarLen>() -> Seq<T> { Seq::new() }
pub fn root_seq_new_c<T: VarLen>() -> Seq<T, CheckedIndexing> { Seq::new_indexable() }
pub fn root_seq_new_m<T: VarLen>() -> Seq<T> { Seq::new_minimal() }
pub fn root_seq_push_u<T: VarLen, I: Initializer<T>>(s: &mut Seq<T>, i: I) { s.push(i) }
pub fn root_seq_push_c<T: VarLen, I: Initializer<T>>(s: &mut Seq<T, CheckedIndexing>, i: I) { s.push(i) }
pub fn root_seq_facts_u<T: VarLen>(s: &Seq<T>) -> (usize, usize, usize) { (s.len(), s.offset(), s.capacity_in_offsets()) }
pub fn root_seq_facts_c<T: VarLen>(s: &Seq<T, CheckedIndexing>) -> (usize, usize, usize) { (s.len(), s.offset(), s.capacity_in_offsets()) }
pub fn root_seq_iter_u<T: VarLen>(s: &Seq<T>) -> Iter<'_, T> { s.iter() }
pub fn root_seq_iter_c<T: VarLen>(s: &Seq<T, CheckedIndexing>) -> Iter<'_, T> { s.iter() }
pub fn root_seq_iter_mut_u<T: VarLen>(s: &mut Seq<T>) -> IterMut<'_, T> { s.iter_mut() }
pub fn root_seq_iter_mut_c<T: VarLen>(s: &mut Seq<T, CheckedIndexing>) -> IterMut<'_, T> { s.iter_mut() }
pub fn root_iter_next<'a, T: VarLen>(i: &mut Iter<'a, T>) -> Option<&'a T> { i.next() }
pub fn root_iter_mut_next<'a, T: VarLen>(i: &mut IterMut<'a, T>) -> Option<Pin<&'a mut T>> { i.next() }
pub fn root_iter_owned_next<'a, T: VarLen>(i: &mut OwnedElems<'a, T>) -> Option<Owned<'a, T>> { i.next() }
pub fn root_iter_sizes<'a, T: VarLen>(i: Iter<'a, T>) -> (usize, usize, Option<usize>, usize) { let (l, (a, b)) = (i.len(), i.size_hint()); (l, a, b, i.count()) }
pub fn root_iter_mut_sizes<'a, T: VarLen>(i: IterMut<'a, T>) -> (usize, usize, Option<usize>, usize) { let (l, (a, b)) = (i.len(), i.size_hint()); (l, a, b, i.count()) }
pub fn root_iter_owned_sizes<'a, T: VarLen>(i: &OwnedElems<'a, T>) -> (usize, usize, Option<usize>) { let (l, (a, b)) = (i.len(), i.size_hint()); (l, a, b) }
pub fn root_iter_owned_count<'a, T: VarLen>(i: OwnedElems<'a, T>) -> usize { i.count() }
pub fn root_iter_owned_drop<'a, T: VarLen>(i: OwnedElems<'a, T>) { drop(i) }
pub fn root_iter_nth<'a, T: VarLen>(i: &mut Iter<'a, T>, n: usize) -> Option<&'a T> { i.nth(n) }
pub fn root_iter_mut_nth<'a, T: VarLen>(i: &mut IterMut<'a, T>, n: usize) -> Option<Pin<&'a mut T>> { i.nth(n) }
pub fn root_iter_owned_nth<'a, T: VarLen>(i: &mut OwnedElems<'a, T>, n: usize) -> Option<Owned<'a, T>> { i.nth(n) }
pub fn root_iter_last<'a, T: VarLen>(i: Iter<'a, T>) -> Option<&'a T> { i.last() }
pub fn root_iter_mut_last<'a, T: VarLen>(i: IterMut<'a, T>) -> Option<Pin<&'a mut T>> { i.last() }
pub fn root_iter_owned_last<'a, T: VarLen>(i: OwnedElems<'a, T>) -> Option<Owned<'a, T>> { i.last() }
pub fn root_iter_each<'a, T: VarLen, F: FnMut(&'a T)>(i: Iter<'a, T>, f: F) { i.for_each(f) }
pub fn root_iter_mut_each<'a, T: VarLen, F: FnMut(Pin<&'a mut T>)>(i: IterMut<'a, T>, f: F) { i.for_each(f) }
pub fn root_iter_owned_each<'a, T: VarLen, F: FnMut(Owned<'a, T>)>(i: OwnedElems<'a, T>, f: F) { i.for_each(f) }
pub fn root_iter_limited<'a, T: VarLen>(i: &Iter<'a, T>, n: usize) -> Iter<'a, T> { i.limited_to(n) }
pub fn root_iter_mut_limited<'a, T: VarLen>(i: IterMut<'a, T>, n: usize) -> IterMut<'a, T> { i.limited_to(n) }
pub fn root_seq_offset_of_u<T: VarLen>(s: &Seq<T>, e: &T) -> usize { s.offset_of(e) }
pub fn root_seq_offset_of_c<T: VarLen>(s: &Seq<T, CheckedIndexing>, e: &T) -> usize { s.offset_of(e) }
pub unsafe fn root_seq_from_off_u<T: VarLen>(s: &Seq<T>, o: usize) -> &T { s.from_offset_unchecked(o) }
pub unsafe fn root_seq_from_off_mut_u<T: VarLen>(s: &mut Seq<T>, o: usize) -> Pin<&mut T> { s.from_offset_unchecked_mut(o) }
pub fn root_seq_valid_c<T: VarLen>(s: &Seq<T, CheckedIndexing>, o: usize) -> bool { s.is_offset_valid(o) }
pub fn root_seq_from_off_c<T: VarLen>(s: &Seq<T, CheckedIndexing>, o: usize) -> &T { s.from_offset(o) }
pub fn root_seq_from_off_mut_c<T: VarLen>(s: &mut Seq<T, CheckedIndexing>, o: usize) -> Pin<&mut T> { s.from_offset_mut(o) }
pub fn root_seq_take_u<T: VarLen>(s: &mut Seq<T>) -> OwnedElems<'_, T> { s.take_elems() }
pub fn root_seq_take_c<T: VarLen>(s: &mut Seq<T, CheckedIndexing>) -> OwnedElems<'_, T> { s.take_elems() }
pub fn root_seq_drop_u<T: VarLen>(s: Seq<T>) { drop(s) }
pub fn root_seq_drop_c<T: VarLen>(s: Seq<T, CheckedIndexing>) { drop(s) }
pub fn root_seq_extend_u<T: VarLen, I: Initializer<T>, It: IntoIterator<Item = I>>(s: &mut Seq<T>, it: It) { s.extend(it) }
pub fn root_seq_extend_c<T: VarLen, I: Initializer<T>, It: IntoIterator<Item = I>>(s: &mut Seq<T, CheckedIndexing>, it: It) { s.extend(it) }
pub fn root_seq_collect_u<T: VarLen, I: Initializer<T>, It: IntoIterator<Item = I>>(it: It) -> Seq<T> { FromIterator::from_iter(it) }
pub fn root_seq_collect_c<T: VarLen, I: Initializer<T>, It: IntoIterator<Item = I>>(it: It) -> Seq<T, CheckedIndexing> { FromIterator::from_iter(it) }

// ---------------------------------------------------------------- macro-defined structs
pub mod gen;
#[inline(never)]
fn ghost_drop(x: &mut gen::Dr) { let _ = x; }
#[inline(never)]
fn ghost_drop_z(x: &mut gen::Dz) { let _ = x; }
use gen::*;
pub mod gen2;
pub unsafe fn root_m_person_build<'a, I1: Initializer<Str>, I2: Initializer<Array<u16, u8>>>(age: u8, id: u32, name: I1, tags: I2) -> Option<(usize, usize, usize, &'a mut Person)> {
    build(person::Init { age, name, id, tags })
}
pub fn root_m_person_refs(x: &Person) -> (&u8, &Str, &u32, &Array<u16, u8>) { let r = x.refs(); (r.age, r.name, r.id, r.tags) }
pub fn root_m_person_muts(x: Pin<&mut Person>) -> (&mut u8, Pin<&mut Str>, &mut u32, Pin<&mut Array<u16, u8>>) { let r = x.muts(); (r.age, r.name, r.id, r.tags) }
pub unsafe fn root_m_person_vdrop(x: Pin<&mut Person>) { vdrop_it(x) }
pub fn root_m_person_consts() -> (usize, bool) { consts_of::<Person>() }

pub unsafe fn root_m_arrays_build<'a, I1: ArrayInitializer<u16>, I2: ArrayInitializer<u8>, I3: ArrayInitializer<u32>>(len: usize, a1: I1, a2: I2, half: I3) -> Option<(usize, usize, usize, &'a mut Arrays)> {
    build(arrays::Init { len, a1, a2, half })
}
pub fn root_m_arrays_refs(x: &Arrays) -> (&usize, &[u16], &[u8], &[u32]) { let r = x.refs(); (r.len, r.a1, r.a2, r.half) }
pub fn root_m_arrays_muts(x: Pin<&mut Arrays>) -> (&usize, &mut [u16], &mut [u8], &mut [u32]) { let r = x.muts(); (r.len, r.a1, r.a2, r.half) }
pub unsafe fn root_m_arrays_vdrop(x: Pin<&mut Arrays>) { vdrop_it(x) }
pub fn root_m_arrays_consts() -> (usize, bool) { consts_of::<Arrays>() }
pub fn root_m_arrays_set(x: Pin<&mut Arrays>, len: usize) -> bool { x.try_set_layout_controllers(arrays::LayoutControllers { len }).is_ok() }

pub unsafe fn root_m_mixed_build<'a, I1: ArrayInitializer<Dr>, I2: Initializer<Str<u32>>, I3: ArrayInitializer<u64>>(n: u8, tag: Dr, m: u16, xs: I1, s: I2, ys: I3) -> Option<(usize, usize, usize, &'a mut Mixed)> {
    build(mixed::Init { n, tag, m, xs, s, ys })
}
pub fn root_m_mixed_refs(x: &Mixed) -> (&u8, &Dr, &u16, &[Dr], &Str<u32>, &[u64]) { let r = x.refs(); (r.n, r.tag, r.m, r.xs, r.s, r.ys) }
pub fn root_m_mixed_muts(x: Pin<&mut Mixed>) -> (&u8, &mut Dr, &u16, &mut [Dr], Pin<&mut Str<u32>>, &mut [u64]) { let r = x.muts(); (r.n, r.tag, r.m, r.xs, r.s, r.ys) }
pub unsafe fn root_m_mixed_vdrop(x: Pin<&mut Mixed>) { vdrop_it(x) }
pub fn root_m_mixed_consts() -> (usize, bool) { consts_of::<Mixed>() }
pub fn root_m_mixed_set(x: Pin<&mut Mixed>, n: u8, m: u16) -> bool { x.try_set_layout_controllers(mixed::LayoutControllers { n, m }).is_ok() }

pub unsafe fn root_m_gf_build<'a, T: VarLen, I1: Initializer<T>>(f: I1) -> Option<(usize, usize, usize, &'a mut GenField<T>)> { build(gen_field::Init { f }) }
pub fn root_m_gf_refs<T: VarLen>(x: &GenField<T>) -> &T { x.refs().f }
pub fn root_m_gf_muts<T: VarLen>(x: Pin<&mut GenField<T>>) -> Pin<&mut T> { x.muts().f }
pub unsafe fn root_m_gf_vdrop<T: VarLen>(x: Pin<&mut GenField<T>>) { vdrop_it(x) }
pub fn root_m_gf_consts<T: VarLen>() -> (usize, bool) { consts_of::<GenField<T>>() }

pub unsafe fn root_m_ga_build<'a, T, I1: ArrayInitializer<T>, I2: ArrayInitializer<T>>(len: u16, xs: I1, ys: I2) -> Option<(usize, usize, usize, &'a mut GenArr<T>)> { build(gen_arr::Init { len, xs, ys }) }
pub fn root_m_ga_refs<T>(x: &GenArr<T>) -> (&u16, &[T], &[T]) { let r = x.refs(); (r.len, r.xs, r.ys) }
pub fn root_m_ga_muts<T>(x: Pin<&mut GenArr<T>>) -> (&u16, &mut [T], &mut [T]) { let r = x.muts(); (r.len, r.xs, r.ys) }
pub unsafe fn root_m_ga_vdrop<T>(x: Pin<&mut GenArr<T>>) { vdrop_it(x) }
pub fn root_m_ga_consts<T>() -> (usize, bool) { consts_of::<GenArr<T>>() }
pub fn root_m_ga_set<T>(x: Pin<&mut GenArr<T>>, len: u16) -> bool { x.try_set_layout_controllers(gen_arr::LayoutControllers { len }).is_ok() }

pub unsafe fn root_m_full_build<'a, F: VarLen, G: VarLen, E, I1: Initializer<F>, I2: ArrayInitializer<E>, I3: Initializer<G>>(p: Dz, n: u32, q: u64, f: I1, xs: I2, g: I3) -> Option<(usize, usize, usize, &'a mut Full<F, G, E>)> {
    build(full::Init { p, n, f, q, xs, g })
}
pub fn root_m_full_refs<F: VarLen, G: VarLen, E>(x: &Full<F, G, E>) -> (&Dz, &u32, &F, &u64, &[E], &G) { let r = x.refs(); (r.p, r.n, r.f, r.q, r.xs, r.g) }
pub fn root_m_full_muts<F: VarLen, G: VarLen, E>(x: Pin<&mut Full<F, G, E>>) -> (&mut Dz, &u32, Pin<&mut F>, &mut u64, &mut [E], Pin<&mut G>) { let r = x.muts(); (r.p, r.n, r.f, r.q, r.xs, r.g) }
pub unsafe fn root_m_full_vdrop<F: VarLen, G: VarLen, E>(x: Pin<&mut Full<F, G, E>>) { vdrop_it(x) }
pub fn root_m_full_consts<F: VarLen, G: VarLen, E>() -> (usize, bool) { consts_of::<Full<F, G, E>>() }
pub fn root_m_full_set<F: VarLen, G: VarLen, E>(x: Pin<&mut Full<F, G, E>>, n: u32) -> bool { x.try_set_layout_controllers(full::LayoutControllers { n }).is_ok() }

pub unsafe fn root_m_grid_build<'a, I1: ArrayInitializer<u16>, I2: ArrayInitializer<u8>, I3: ArrayInitializer<u32>>(r: u8, c: u16, cells: I1, t: u8, k: u8, mix: I2, rows: I3) -> Option<(usize, usize, usize, &'a mut Grid)> {
    build(grid::Init { r, c, cells, t, k, mix, rows })
}
pub fn root_m_grid_refs(x: &Grid) -> (&u8, &u16, &[u16], &u8, &u8, &[u8], &[u32]) { let y = x.refs(); (y.r, y.c, y.cells, y.t, y.k, y.mix, y.rows) }
pub fn root_m_grid_muts(x: Pin<&mut Grid>) -> (&u8, &u16, &mut [u16], &mut u8, &u8, &mut [u8], &mut [u32]) { let y = x.muts(); (y.r, y.c, y.cells, y.t, y.k, y.mix, y.rows) }
pub unsafe fn root_m_grid_vdrop(x: Pin<&mut Grid>) { vdrop_it(x) }
pub fn root_m_grid_consts() -> (usize, bool) { consts_of::<Grid>() }
pub fn root_m_grid_set(x: Pin<&mut Grid>, r: u8, c: u16, k: u8) -> bool { x.try_set_layout_controllers(grid::LayoutControllers { r, c, k }).is_ok() }

pub unsafe fn root_m_behind_build<'a, I1: ArrayInitializer<u16>, I2: Initializer<Str<u32>>>(xs: I1, plain: u32, s: I2, m: Dr, n: u8) -> Option<(usize, usize, usize, &'a mut Behind)> {
    build(behind::Init { xs, plain, s, m, n })
}
pub fn root_m_behind_refs(x: &Behind) -> (&[u16], &u32, &Str<u32>, &Dr, &u8) { let y = x.refs(); (y.xs, y.plain, y.s, y.m, y.n) }
pub fn root_m_behind_muts(x: Pin<&mut Behind>) -> (&mut [u16], &mut u32, Pin<&mut Str<u32>>, &Dr, &u8) { let y = x.muts(); (y.xs, y.plain, y.s, y.m, y.n) }
pub unsafe fn root_m_behind_vdrop(x: Pin<&mut Behind>) { vdrop_it(x) }
pub fn root_m_behind_consts() -> (usize, bool) { consts_of::<Behind>() }
pub fn root_m_behind_set(x: Pin<&mut Behind>, m: Dr, n: u8) -> bool { x.try_set_layout_controllers(behind::LayoutControllers { m, n }).is_ok() }

pub unsafe fn root_m_borrow_build<'a, 'b, T, const N: usize, I1: ArrayInitializer<&'b T>, I2: ArrayInitializer<[T; N]>>(n: u16, refs: I1, blocks: I2) -> Option<(usize, usize, usize, &'a mut Borrow<'b, T, N>)> {
    build(borrow::Init { n, refs, blocks })
}
pub fn root_m_borrow_refs<'a, 'b, T, const N: usize>(x: &'a Borrow<'b, T, N>) -> (&'a u16, &'a [&'b T], &'a [[T; N]]) { let y = x.refs(); (y.n, y.refs, y.blocks) }
pub fn root_m_borrow_muts<'a, 'b, T, const N: usize>(x: Pin<&'a mut Borrow<'b, T, N>>) -> (&'a u16, &'a mut [&'b T], &'a mut [[T; N]]) { let y = x.muts(); (y.n, y.refs, y.blocks) }
pub unsafe fn root_m_borrow_vdrop<T, const N: usize>(x: Pin<&mut Borrow<'_, T, N>>) { vdrop_it(x) }
pub fn root_m_borrow_consts<'b, T: 'b, const N: usize>() -> (usize, bool) { consts_of::<Borrow<'b, T, N>>() }
pub fn root_m_borrow_set<T, const N: usize>(x: Pin<&mut Borrow<'_, T, N>>, n: u16) -> bool { x.try_set_layout_controllers(borrow::LayoutControllers { n }).is_ok() }

pub unsafe fn root_m_cond_build<'a, T: VarLen, I1: ArrayInitializer<u32>, I2: Initializer<T>>(k: u8, n: u16, xs: I1, f: I2) -> Option<(usize, usize, usize, &'a mut Cond<T>)> {
    build(cond::Init { k, n, xs, f })
}
pub fn root_m_cond_refs<T: VarLen>(x: &Cond<T>) -> (&u8, &u16, &[u32], &T) { let y = x.refs(); (y.k, y.n, y.xs, y.f) }
pub fn root_m_cond_muts<T: VarLen>(x: Pin<&mut Cond<T>>) -> (&u8, &u16, &mut [u32], Pin<&mut T>) { let y = x.muts(); (y.k, y.n, y.xs, y.f) }
pub unsafe fn root_m_cond_vdrop<T: VarLen>(x: Pin<&mut Cond<T>>) { vdrop_it(x) }
pub fn root_m_cond_consts<T: VarLen>() -> (usize, bool) { consts_of::<Cond<T>>() }
pub fn root_m_cond_set<T: VarLen>(x: Pin<&mut Cond<T>>, k: u8, n: u16) -> bool { x.try_set_layout_controllers(cond::LayoutControllers { k, n }).is_ok() }

pub unsafe fn root_m_flat_build<'a>(a: u8, b: Dr, c: Dz, d: u64) -> Option<(usize, usize, usize, &'a mut Flat)> { build(flat::Init { a, b, c, d }) }
pub fn root_m_flat_refs(x: &Flat) -> (&u8, &Dr, &Dz, &u64) { let r = x.refs(); (r.a, r.b, r.c, r.d) }
pub fn root_m_flat_muts(x: Pin<&mut Flat>) -> (&mut u8, &mut Dr, &mut Dz, &mut u64) { let r = x.muts(); (r.a, r.b, r.c, r.d) }
pub unsafe fn root_m_flat_vdrop(x: Pin<&mut Flat>) { vdrop_it(x) }
pub fn root_m_flat_consts() -> (usize, bool) { consts_of::<Flat>() }

pub unsafe fn root_m_mark_build<'a>(a: u16, z: Dz) -> Option<(usize, usize, usize, &'a mut Mark)> { build(mark::Init { a, z }) }
pub fn root_m_mark_refs(x: &Mark) -> (&u16, &Dz) { let r = x.refs(); (r.a, r.z) }
pub fn root_m_mark_muts(x: Pin<&mut Mark>) -> (&mut u16, &mut Dz) { let r = x.muts(); (r.a, r.z) }
pub unsafe fn root_m_mark_vdrop(x: Pin<&mut Mark>) { vdrop_it(x) }
pub fn root_m_mark_consts() -> (usize, bool) { consts_of::<Mark>() }
