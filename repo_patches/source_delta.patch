From a6fc47d82211f4b8509ad3d2f70116472c74a51f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 01/10] fix: Seq::take_elems clears the offset bitmap before
 resetting the occupied size

---
 varlen/src/seq.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index 17aa13c..ee2c3a8 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -907,11 +907,11 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
             len_elements: self.len_elements,
             marker: core::marker::PhantomData,
         };
-        self.len_elements = 0;
-        self.occupied_offsets = 0;
         unsafe {
             Idx::clear_bitmasks(self.ptr, self.capacity_offsets, self.occupied_offsets);
         }
+        self.len_elements = 0;
+        self.occupied_offsets = 0;
         r
     }
 
-- 
2.43.0


From e0ef1cfb92660dd79f056eb7fe5b3c338b3456f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 02/10] fix: Seq::push marks an offset valid only once its
 element is initialized

---
 varlen/src/seq.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index ee2c3a8..d86e3af 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -687,8 +687,9 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
         }
         let elem_offset = self.occupied_offsets;
         unsafe {
-            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
             init.initialize(add_offsets_fast(self.ptr, elem_offset), layout);
+            // Only after initialize() has returned: it may panic.
+            Idx::mark_offset_valid(self.ptr, self.capacity_offsets, elem_offset);
         }
         self.occupied_offsets = occupied_plus;
         self.len_elements += 1;
-- 
2.43.0


From dfdc75242a7de390b35f0a555520f7ba28990e97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 03/10] fix: Seq gives zero-sized elements storage, so they are
 aligned and dropped

---
 varlen/src/seq.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/varlen/src/seq.rs b/varlen/src/seq.rs
index d86e3af..2e0b114 100644
--- a/varlen/src/seq.rs
+++ b/varlen/src/seq.rs
@@ -670,7 +670,9 @@ impl<T: VarLen, Idx: Indexing> Seq<T, Idx> {
     fn try_push(&mut self, init: impl Initializer<T>) -> Result<(), OverflowError> {
         let layout = init.calculate_layout_cautious().ok_or(OverflowError)?;
         let align = T::ALIGN;
-        let size_offsets = layout.size().checked_add(align - 1).ok_or(OverflowError)? / align;
+        // Zero-sized elements still occupy one offset. The iterators do the same.
+        let size = core::cmp::max(layout.size(), 1);
+        let size_offsets = size.checked_add(align - 1).ok_or(OverflowError)? / align;
         let occupied_plus = self
             .occupied_offsets
             .checked_add(size_offsets)
@@ -1132,7 +1134,7 @@ impl<'a, T: VarLen> Iterator for Iter<'a, T> {
     fn next(&mut self) -> Option<&'a T> {
         if self.len_elements > 0 {
             let t = unsafe { self.ptr.as_ref() };
-            let size = t.calculate_layout().size();
+            let size = core::cmp::max(t.calculate_layout().size(), 1);
             self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };
             self.len_elements -= 1;
             Some(t)
@@ -1218,7 +1220,7 @@ impl<'a, T: VarLen> Iterator for IterMut<'a, T> {
     fn next(&mut self) -> Option<Pin<&'a mut T>> {
         if self.len_elements > 0 {
             let t = unsafe { Pin::new_unchecked(self.ptr.as_mut()) };
-            let size = t.calculate_layout().size();
+            let size = core::cmp::max(t.calculate_layout().size(), 1);
             self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };
             self.len_elements -= 1;
             Some(t)
@@ -1303,7 +1305,7 @@ impl<'a, T: VarLen> Iterator for OwnedElems<'a, T> {
     fn next(&mut self) -> Option<Owned<'a, T>> {
         if self.len_elements > 0 {
             let t = unsafe { Owned::from_raw(self.ptr) };
-            let size = T::calculate_layout(&*t).size();
+            let size = core::cmp::max(T::calculate_layout(&*t).size(), 1);
             self.ptr = unsafe { add_bytes_fast(self.ptr, round_up_fast(size, T::ALIGN)) };
             self.len_elements -= 1;
             Some(t)
-- 
2.43.0


From 3f4362d5d2717b523174afa7dac86e623482ceef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 04/10] fix: Owned::leak does not drop the value it returns

---
 varlen/src/owned.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index 77576f3..20823e2 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -162,8 +162,7 @@ impl<'storage, T: VarLen> Owned<'storage, T> {
     /// # }
     /// ```
     pub fn leak(self) -> Pin<&'storage mut T> {
-        let Owned(mut ptr, _) = self;
-        unsafe { Pin::new_unchecked(ptr.as_mut()) }
+        unsafe { Pin::new_unchecked(self.into_raw().as_mut()) }
     }
 
     /// Allocates a `T` on the arena.
-- 
2.43.0


From 56c7fef871a5a6163f604921f3ae3e09c3cb7a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 05/10] fix: VBox does not allocate or deallocate zero-sized
 blocks

---
 varlen/src/vbox.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index e717e1c..ee11c6a 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -58,7 +58,11 @@ impl<T: VarLen> VBox<T> {
         let alloc_layout = alloc::Layout::from_size_align(layout.size(), T::ALIGN)
             .unwrap_or_else(|_| allocation_overflow());
         unsafe {
-            let p = alloc::alloc(alloc_layout) as *mut T;
+            let p = if alloc_layout.size() == 0 {
+                T::ALIGN as *mut T
+            } else {
+                alloc::alloc(alloc_layout) as *mut T
+            };
             let layout_size = layout.size();
             init.initialize(NonNull::new_unchecked(p), layout);
             let mut p = NonNull::new_unchecked(p);
@@ -150,7 +154,9 @@ impl<T: VarLen> Drop for VBox<T> {
             let layout = T::calculate_layout(&*self);
             let alloc_layout = alloc::Layout::from_size_align_unchecked(layout.size(), T::ALIGN);
             T::vdrop(self.as_mut(), layout);
-            alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            if alloc_layout.size() != 0 {
+                alloc::dealloc(self.0.as_ptr() as *mut u8, alloc_layout);
+            }
         }
     }
 }
@@ -188,7 +194,9 @@ unsafe impl<T: VarLen> Initializer<T> for VBox<T> {
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
         core::ptr::copy_nonoverlapping(ptr, dst.as_ptr().cast::<u8>(), size);
-        alloc::dealloc(ptr, layout);
+        if size != 0 {
+            alloc::dealloc(ptr, layout);
+        }
         core::mem::forget(self);
     }
 
-- 
2.43.0


From 6f1ff38a0427a5922cd148290c28eef291a4da93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 06/10] fix: VBox::new reports allocation failure instead of
 using a null pointer

---
 varlen/src/vbox.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/varlen/src/vbox.rs b/varlen/src/vbox.rs
index ee11c6a..f0fae16 100644
--- a/varlen/src/vbox.rs
+++ b/varlen/src/vbox.rs
@@ -63,6 +63,9 @@ impl<T: VarLen> VBox<T> {
             } else {
                 alloc::alloc(alloc_layout) as *mut T
             };
+            if p.is_null() {
+                alloc::handle_alloc_error(alloc_layout);
+            }
             let layout_size = layout.size();
             init.initialize(NonNull::new_unchecked(p), layout);
             let mut p = NonNull::new_unchecked(p);
-- 
2.43.0


From 91ca35c15eac14ee16ae2d166352a6c5e9eb7b0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:27 +0000
Subject: [PATCH 07/10] fix: Owned as an initializer copies the object's bytes,
 not size-many headers

---
 varlen/src/owned.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/varlen/src/owned.rs b/varlen/src/owned.rs
index 20823e2..7bb6949 100644
--- a/varlen/src/owned.rs
+++ b/varlen/src/owned.rs
@@ -216,7 +216,11 @@ unsafe impl<T: VarLen> Initializer<T> for Owned<'_, T> {
         //  * Owned has unique access to its pointer
         //  * dst is unique
         //  * dst size is guaranteed by the SizedInitializer call
-        core::ptr::copy_nonoverlapping(self.0.as_ptr(), dst.as_ptr(), layout.size());
+        core::ptr::copy_nonoverlapping(
+            self.0.as_ptr().cast::<u8>(),
+            dst.as_ptr().cast::<u8>(),
+            layout.size(),
+        );
         core::mem::forget(self);
     }
 
-- 
2.43.0


From 24ff449f0158472414f858772e4ad33fed120f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:51 +0000
Subject: [PATCH 08/10] fix: a user's impl Unpin cannot expose the layout
 controllers of generated structs and newtypes

Safe code could declare a #[define_varlen] struct or a newtype Unpin and then overwrite layout
controllers, or swap whole headers, through Pin::get_mut.
---
 varlen/src/macro_support.rs |  7 +++++++
 varlen/src/newtype.rs       |  7 +++++++
 varlen_macro/src/lib.rs     | 19 +++++++++++++++++++
 3 files changed, 33 insertions(+)

diff --git a/varlen/src/macro_support.rs b/varlen/src/macro_support.rs
index ab7cafa..7ead515 100644
--- a/varlen/src/macro_support.rs
+++ b/varlen/src/macro_support.rs
@@ -185,3 +185,10 @@ pub fn invalid_drop_call() -> ! {
 /// layout to change.
 #[derive(Clone, Copy, Debug)]
 pub struct LayoutMismatch;
+
+/// `Unpin` exactly when `T` is. The lifetime keeps bounds on this type from being evaluated
+/// where they are written, so that they can be used to disable an `Unpin` impl.
+pub struct UnpinIf<'a, T: ?Sized>(
+    core::marker::PhantomData<&'a ()>,
+    core::marker::PhantomData<T>,
+);
diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index f380b2f..9efde50 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -188,6 +188,13 @@ macro_rules! define_varlen_newtype {
         $(#[$initattrs])*
         $initvis struct $init < InnerInit >($initfieldvis InnerInit);
 
+        // The only `Unpin` impl: one provided by the user would let safe code move out of the pin.
+        impl<'varlen_unpin, $( $($($generic_params)*,)* )*> ::core::marker::Unpin for $outer $(< $($($generics_apply)*),* >)*
+        where
+            $crate::macro_support::UnpinIf<'varlen_unpin, $inner>: ::core::marker::Unpin
+        {
+        }
+
         unsafe impl $(< $($($generic_params)*),* >)* $crate::VarLen for $outer $(< $($($generics_apply)*),* >)* {
             type Layout = <$inner as $crate::VarLen>::Layout;
             #[inline(always)]
diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index 2c7b9e5..d33beeb 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -251,6 +251,23 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
     let (layout_generics_structdef, layout_generics_impl, layout_generics_apply, layout_generics_where) 
         = parse_generics(&d.generics, Some(varlen_layout_ty_refs));
 
+    // Moving a `&mut` out of the pin would give safe code write access to the layout
+    // controllers. Claim the `Unpin` impl (with a bound that never holds), so that the
+    // user cannot provide one.
+    let unpin_where = d.generics.where_clause.as_ref().map(|w| &w.predicates);
+    let not_unpin = if varlen_ident.is_empty() {
+        quote!()
+    } else {
+        quote! {
+            impl<'varlen_unpin, #(#generics_impl),*> ::core::marker::Unpin for #tyname<#(#generics_apply),*>
+            where
+                ::varlen::macro_support::UnpinIf<'varlen_unpin, ::core::marker::PhantomPinned>: ::core::marker::Unpin,
+                #unpin_where
+            {
+            }
+        }
+    };
+
     // TODO(reinerp): This is potentially quadratic syntax size. Create type synonym instead,
     // to keep it linear.
     let len_fn_arg = quote! {
@@ -341,6 +358,8 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
             }
         }
 
+        #not_unpin
+
         unsafe impl<#(#generics_impl),*> ::varlen::VarLen for #tyname<#(#generics_apply),*> #generics_where {
             type Layout = #mod_name::VarLenLayout<#(#layout_generics_apply),*>;
 
-- 
2.43.0


From c7cf430a5583f5e7cf38138871909ddfac1d77b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:51 +0000
Subject: [PATCH 09/10] fix: try_set_layout_controllers drops the replaced
 values only when all are in place

A panicking destructor of one replaced controller left the others at their old values, so the
arrays' lengths no longer matched the object's storage.
---
 varlen_macro/src/lib.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/varlen_macro/src/lib.rs b/varlen_macro/src/lib.rs
index d33beeb..49953ad 100644
--- a/varlen_macro/src/lib.rs
+++ b/varlen_macro/src/lib.rs
@@ -492,9 +492,13 @@ fn define_varlen_impl(ty_attrs: TokenStream, d: TokenStream) -> Result<TokenStre
                     )*;
                 if valid {
                     let self_mut = unsafe { self.get_unchecked_mut() };
-                    #(
-                        self_mut.#lengths_ident = layout_controllers.#lengths_ident;
-                    )*
+                    // Keep the replaced values until all the new ones are in place: if one of their
+                    // destructors panics, the layout must already be consistent.
+                    let _replaced = (
+                        #(
+                            ::core::mem::replace(&mut self_mut.#lengths_ident, layout_controllers.#lengths_ident),
+                        )*
+                    );
                     ::core::result::Result::Ok(())
                 } else {
                     ::core::result::Result::Err(::varlen::macro_support::LayoutMismatch)
-- 
2.43.0


From f664bff031b4090bba220b0341bcf2d45cc31d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:51 +0000
Subject: [PATCH 10/10] fix: newtype macros call the VarLen and Initializer
 methods by their trait

An inherent method of the same name on the inner type took precedence, so that safe code could
give an object a layout other than its own.
---
 varlen/src/newtype.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/varlen/src/newtype.rs b/varlen/src/newtype.rs
index 9efde50..bbfcadc 100644
--- a/varlen/src/newtype.rs
+++ b/varlen/src/newtype.rs
@@ -199,7 +199,7 @@ macro_rules! define_varlen_newtype {
             type Layout = <$inner as $crate::VarLen>::Layout;
             #[inline(always)]
             fn calculate_layout(&self) -> Self::Layout {
-                self.0.calculate_layout()
+                <$inner as $crate::VarLen>::calculate_layout(&self.0)
             }
 
             const ALIGN: usize = <$inner as $crate::VarLen>::ALIGN;
@@ -222,7 +222,7 @@ macro_rules! define_varlen_newtype {
 
             #[inline(always)]
             unsafe fn initialize(self, dst: ::core::ptr::NonNull<$outer $(< $($($generics_apply)*),* >)* >, layout: <$inner as $crate::VarLen>::Layout) {
-                self.0.initialize(dst.cast::<$inner>(), layout);
+                <InnerInit as $crate::Initializer<$inner>>::initialize(self.0, dst.cast::<$inner>(), layout);
             }
         }
 
@@ -315,7 +315,7 @@ macro_rules! impl_initializer_as_newtype {
                 // Safety:
                 // * validity of dst is ensured by caller
                 // * layout matches what we called layout on above, on `self.0`
-                self.0.initialize(dst, layout);
+                $crate::Initializer::<$t>::initialize(self.0, dst, layout);
             }
         }
     }
-- 
2.43.0

