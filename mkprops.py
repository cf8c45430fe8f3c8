#!/usr/bin/env python3
"""Regenerates properties.jsonl (kept as a script so the statements stay reviewable)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))
S="varlen/src/"
p("C01","Computed layout agrees with the object and with the mathematical layout",
  "For every variable-length type (arrays, strings, fixed-length wrappers, tuples, newtypes, macro-defined structs), the size computed from an initializer before allocation equals the size later recomputed from the finished object. Both equal the mathematical layout: header first, then fields in declaration order, each at the smallest offset not before the end of its predecessor that is a multiple of its alignment, so that fields are disjoint and inside the object. The type's alignment is the maximum of the alignments of its header and fields, hence every field is aligned whenever the object is.",
  ["inputs","programs"],"all lengths, all element sizes and alignments, all nestings of component types",
  "The tests build a handful of objects with a few element types and lengths; the agreement of two independently written computations must hold for every length, size and alignment.",
  [S+"macro_support.rs",S+"array.rs",S+"tuple.rs",S+"newtype.rs",S+"lib.rs","varlen_macro/src/lib.rs"],
  [("cat_array_field_cautious / cat_array_field_fast, cat_field_cautious / cat_field_fast",S+"macro_support.rs"),("calculate_layout / calculate_layout_cautious of Array, TupN, FixedLen, newtypes, generated structs",S+"array.rs, "+S+"tuple.rs, "+S+"lib.rs, varlen_macro/src/lib.rs"),("ALIGN constants, array_max",S+"macro_support.rs")],
  observe=["VarLen::calculate_layout","Initializer::calculate_layout_cautious","VarLen::ALIGN"])
p("C02","Size overflow is always reported, never wrapped",
  "If the true (unbounded-integer) size of a requested object exceeds what can be represented, computing its layout from an initializer fails (returns None), and boxing it or pushing it to a sequence panics; no operation ever proceeds with a wrapped or undersized layout. If the true size fits in a legal allocation (at most isize::MAX bytes after rounding), layout computation succeeds. The storage a sequence requests is never smaller than what its elements plus its validity bitmap need.",
  ["inputs"],"all lengths and element sizes including those near and beyond the address-space limit; all capacities",
  "Tests use small lengths; the overflow boundary is hit only by lengths near 2^63 or 2^64 and by particular element sizes.",
  [S+"macro_support.rs",S+"array.rs",S+"tuple.rs",S+"vbox.rs",S+"seq.rs","varlen_macro/src/lib.rs"],
  [("checked arithmetic in cat_*_cautious",S+"macro_support.rs"),("VBox::new from_size_align",S+"vbox.rs"),("try_push / try_realloc / add_bitmask_to_layout",S+"seq.rs")],
  observe=["Initializer::calculate_layout_cautious","VBox::new","Seq::push"])
p("C03","What was initialized is what is read back, and nothing else is written",
  "An object created through any initializer (array, string, fixed-length, tuple, newtype, macro-defined struct, moved box or owned object) reads back exactly the values supplied: same lengths, same elements in the same order, same field values. Initializing an object writes only inside the object's own computed extent.",
  ["inputs","programs"],"all contents and lengths, all length types, all nestings",
  "Tests read back a few short objects; writes outside the extent or swapped fields for other sizes and alignments are not observed.",
  [S+"array.rs",S+"array_init.rs",S+"macro_support.rs",S+"tuple.rs",S+"newtype.rs",S+"str.rs",S+"lib.rs",S+"vbox.rs",S+"owned.rs","varlen_macro/src/lib.rs"],
  [("Initializer::initialize implementations",S+"array.rs, "+S+"tuple.rs, "+S+"newtype.rs, "+S+"lib.rs, "+S+"vbox.rs, "+S+"owned.rs, varlen_macro/src/lib.rs"),("init_array / init_field / ref_array / ref_field",S+"macro_support.rs"),("Deref of Array and Str, refs()",S+"array.rs, "+S+"str.rs, "+S+"tuple.rs")],
  observe=["VBox::new + Deref","refs()","Array::len_short"])
p("C04","A sequence is the ordered list of what was pushed",
  "After any history of pushes (single pushes, extend, collect), the length is the number of elements pushed since creation or since the elements were last taken, and every iterator yields exactly those elements, unchanged and in push order, no matter how often the storage was reallocated. All elements lie in disjoint, suitably aligned places inside the allocated storage.",
  ["histories","inputs"],"all push histories, all element sizes (including zero) and alignments, both indexing modes",
  "Tests push a few small elements and reallocate a handful of times; the guarantee is over every history and every size at every reallocation boundary.",
  [S+"seq.rs"],[("try_push, try_realloc, grow_storage",S+"seq.rs"),("Iter / IterMut / OwnedElems::next",S+"seq.rs")],
  state=[("len_elements, occupied_offsets, capacity_offsets, ptr","element count, used and available storage in alignment units, storage address",S+"seq.rs")],
  observe=["Seq::len","Seq::iter","Seq::iter_mut","Seq::take_elems"])
p("C05","Sequence offsets identify elements stably",
  "The offset reported just before a push is the offset of the element pushed next: looking that offset up returns that element, and asking for that element's offset returns the same number, now and after any number of later pushes and reallocations. Offsets of distinct elements are distinct and increase in push order. Asking for the offset of a reference outside the sequence's occupied storage panics.",
  ["histories","inputs"],"all push histories, all element sizes and alignments, both indexing modes",
  "Tests check a few offsets of small strings; the arithmetic must agree for all sizes, alignments and histories.",
  [S+"seq.rs"],[("offset, offset_of, from_offset(_unchecked)(_mut), try_push",S+"seq.rs")],
  state=[("occupied_offsets","offset of the next element",S+"seq.rs")],
  observe=["Seq::offset","Seq::offset_of","Seq::from_offset","Seq::from_offset_unchecked"])
p("C06","Checked offsets are accepted exactly when a live element starts there",
  "In a sequence with checked indexing, an offset is reported valid if and only if an element currently in the sequence starts at that offset, for every offset value. Checked lookup returns that element exactly for the valid offsets and panics for all others. This holds after any history of pushes, reallocations, taking all elements and refilling, and pushes whose initializer panicked.",
  ["histories","inputs"],"all operation histories and all offsets, including out-of-range and stale ones",
  "Tests probe a few offsets after a few pushes; stale bits after reuse or after particular reallocation sizes are never sampled.",
  [S+"seq.rs"],[("CheckedIndexing: alloc_storage, grow_storage, mark_offset_valid, clear_bitmasks",S+"seq.rs"),("is_offset_valid, from_offset, from_offset_mut, take_elems",S+"seq.rs")],
  state=[("bitmap after the element storage","bit k set iff an element starts at offset k",S+"seq.rs")],
  observe=["Seq::is_offset_valid","Seq::from_offset","Seq::from_offset_mut"])
p("C07","Every stored value is dropped exactly once",
  "Every value moved into a box, owned reference, tuple, struct, array or sequence is dropped exactly once: when its owner is dropped, or when the owner it was transferred to is dropped; it is never dropped twice and never used after being dropped. Taking the elements of a sequence, consuming only some of them, moving a box or owned object into another container, and dropping each preserve this. A value whose ownership was deliberately given up (leaked or converted to a raw pointer) is not dropped.",
  ["histories","inputs","programs"],"all element counts, all partial consumptions, all component types with destructors, zero-sized ones included",
  "Tests drop a few boxes of strings; exactly-once must hold for every consumption pattern, size and component type.",
  [S+"vbox.rs",S+"owned.rs",S+"seq.rs",S+"tuple.rs",S+"array.rs",S+"macro_support.rs",S+"lib.rs",S+"newtype.rs","varlen_macro/src/lib.rs"],
  [("Drop for VBox, Owned, Seq, OwnedElems",S+"vbox.rs, "+S+"owned.rs, "+S+"seq.rs"),("vdrop implementations, vdrop_field, drop_array",S+"tuple.rs, "+S+"macro_support.rs, varlen_macro/src/lib.rs"),("Owned::leak, into_raw",S+"owned.rs")],
  observe=["Drop of element values"])
p("C08","Heap storage is obtained and released correctly",
  "Every block a box or sequence obtains from the allocator is released or resized with exactly the size and alignment it was obtained with, exactly once, and is not touched afterwards; dropping the owner leaves no block behind. A block is always large and aligned enough for everything stored in it, a zero-sized block is never requested or released, and a failed allocation is never used as memory.",
  ["histories","inputs","fault_sequences"],"all sizes, alignments and operation histories, and failure of any allocation",
  "Tests run under the default allocator, which ignores the size passed at release and does not fail.",
  [S+"vbox.rs",S+"seq.rs",S+"owned.rs"],
  [("VBox::new / drop / initialize",S+"vbox.rs"),("Seq::layout, Drop, alloc_storage, grow_storage, extended_layout",S+"seq.rs"),("Owned::new_in",S+"owned.rs")],
  observe=["global allocator calls"])
p("C09","Array initializers fill every slot, in order, or panic",
  "Every array initializer writes each slot of the destination exactly once with the value it promises: the sequential filler calls its function once per index in increasing order with that index, the default filler stores defaults, the copying, cloning and moving initializers store the corresponding source element, and the iterator filler stores the iterator's next items in order and consumes no more than needed. A source that is too short, or whose length must match and does not, causes a panic and never leaves an unwritten slot in a finished array.",
  ["inputs"],"all destination lengths, source lengths, element types and iterators",
  "Tests use a few fixed lengths; unwritten slots or off-by-one on other lengths (zero included) are not observable by ordinary assertions.",
  [S+"array_init.rs"],[("ArrayInitializer implementations, new_array",S+"array_init.rs")],
  observe=["ArrayInitializer::initialize","new_array","Array deref"])
p("C10","Length types hold a length exactly when it fits",
  "For every supported length type, converting a length succeeds exactly when the length is at most that type's maximum, and converting back yields the same length. Creating an array or string with a short length type from a slice succeeds exactly when the slice's length fits, and the resulting object's length equals the slice's length.",
  ["inputs"],"all 2^64 lengths for each of the five length types",
  "Tests try a few lengths; the boundary for each type is one value in 2^64.",
  [S+"array.rs",S+"str.rs"],[("ArrayLen::from_usize / as_usize",S+"array.rs"),("Array::try_copy, try_clone_from_slice, Str::try_copy",S+"array.rs, "+S+"str.rs")],
  observe=["Array::try_copy","Str::try_copy","len_short"])
p("C11","Strings are always valid UTF-8 and equal their source",
  "Every string object holds exactly the bytes of the string it was created, cloned or copied from, so its contents are always valid UTF-8. This holds for every length type, and mutation through the string view touches exactly those bytes.",
  ["inputs"],"all source strings, all length types",
  "Tests copy a few ASCII words; truncated or shifted views that split a multi-byte character need particular lengths.",
  [S+"str.rs",S+"array.rs",S+"newtype.rs"],[("Str deref, mut_slice, try_copy, vclone",S+"str.rs")],
  observe=["Str deref","Str::mut_slice"])
p("C12","Clones and copies are equal and independent",
  "Cloning or bitwise-copying any clonable object yields an object with equal layout and equal contents in separate storage, leaving the original unchanged; later mutation or dropping of either does not affect the other. Cloning invokes the clone operation of each component value exactly once.",
  ["inputs","programs"],"all contents, lengths and nestings of clonable components",
  "Tests clone a few small objects and compare; independence and per-element cloning hold for all lengths and nestings.",
  [S+"lib.rs",S+"array.rs",S+"array_init.rs",S+"tuple.rs",S+"str.rs",S+"vbox.rs"],
  [("VCopier, FixedLenCloner, ArrayCloner, StrCloner, TupN Cloner, VBox::clone",S+"lib.rs, "+S+"array.rs, "+S+"str.rs, "+S+"tuple.rs, "+S+"vbox.rs")],
  observe=["vclone","vcopy","VBox::clone"])
p("C13","An object's layout cannot change while it is alive",
  "Setting a struct's layout-controlling fields succeeds exactly when every variable-length array of the struct keeps its length, in which case all controlling fields take their new values; otherwise nothing is changed and an error is returned. No safe operation on a live object changes the layout computed for it.",
  ["inputs","histories"],"all old and new values of the layout-controlling fields; all sequences of safe mutations",
  "Tests try one accepted and one rejected update; the comparison must consider every array and every value.",
  ["varlen_macro/src/lib.rs",S+"array.rs"],[("try_set_layout_controllers, Refs/Muts of controlling fields",'varlen_macro/src/lib.rs'),("Array exposes its length only by value",S+"array.rs")],
  observe=["try_set_layout_controllers","refs()","muts()"])
p("C14","Field access reaches exactly the declared field",
  "The shared and mutable field views of a tuple or macro-defined struct give, for each declared field, a correctly aligned reference to that field's own storage; the storage of different fields never overlaps and lies inside the object. Writing through one field's view changes that field and nothing else: all other fields, and memory outside the object, keep their values.",
  ["inputs","programs"],"all field orders, sizes, alignments, lengths and written values",
  "Tests read and write a few fields of a few structs; overlap or misalignment appears only with particular lengths and alignments.",
  [S+"macro_support.rs",S+"tuple.rs",S+"array.rs","varlen_macro/src/lib.rs"],
  [("refs / muts / mut_slice, ref_field, mut_field, ref_array, mut_array",S+"macro_support.rs, "+S+"tuple.rs, "+S+"array.rs, varlen_macro/src/lib.rs")],
  observe=["refs()","muts()","mut_slice"])
p("C15","Iterators know exactly how many elements remain",
  "Every sequence iterator (shared, mutable, owning) yields exactly as many elements as its exact-size length announces, and its size hint, length and count always equal the number of elements still to come. Limiting a shared or mutable iterator to n elements yields the first min(n, remaining) of them.",
  ["inputs","histories"],"all sequence lengths, all limits, all consumption states",
  "Tests call these on one or two short sequences and never in a partially consumed state.",
  [S+"seq.rs"],[("Iter/IterMut/OwnedElems next, size_hint, len, count, limited_to",S+"seq.rs")],
  observe=["size_hint","len","count","limited_to","next"])
p("C16","Skipping the destructor is only reported when it is a no-op",
  "If a variable-length type reports that it needs no destructor call, then no component of it has a destructor to run, so omitting the call loses nothing; any type with a component that has a destructor reports that it needs the call. Composite types (tuples, newtypes, generated structs) report the disjunction over their components.",
  ["programs"],"all component types and nestings",
  "Tests check drops of one or two types; a wrong constant for another component type silently leaks.",
  [S+"tuple.rs",S+"array.rs",S+"newtype.rs",S+"lib.rs","varlen_macro/src/lib.rs"],
  [("NEEDS_VDROP constants",S+"tuple.rs, "+S+"array.rs, "+S+"newtype.rs, "+S+"lib.rs, varlen_macro/src/lib.rs")],
  observe=["VarLen::NEEDS_VDROP"])
p("C17","A panicking initializer leaves a sequence intact",
  "If an initializer panics while an element is being pushed, the sequence afterwards holds exactly the elements it held before, with the same length, offsets and offset validity, and can be used and dropped normally with every element dropped exactly once. The same holds when the panic comes from size overflow.",
  ["fault_sequences","histories"],"a panic at any call the push makes to user code, at any point of any history, storage growth included",
  "Tests never panic inside a push.",
  [S+"seq.rs"],[("try_push ordering of state updates",S+"seq.rs")],
  observe=["Seq after catch_unwind"])
p("C18","Sequence capacity covers contents and grows geometrically",
  "The occupied storage of a sequence never exceeds its capacity, capacity never shrinks, and storage is reallocated only when the next element does not fit. Each reallocation at least doubles the capacity, so a history of pushes reallocates only logarithmically often.",
  ["histories","inputs"],"all push histories and element sizes",
  "Tests observe a few capacities; the growth rule must hold at every capacity.",
  [S+"seq.rs"],[("try_push capacity test, try_realloc",S+"seq.rs")],
  observe=["Seq::capacity_in_offsets","Seq::offset","allocator calls"])
p("C19","Unsound macro input is rejected at compile time",
  "The struct macro rejects, with a compile error, every input it could not lay out soundly: non-structs, unnamed fields, conflicting field attributes, array lengths that are not constant functions of the declared layout-controlling fields.",
  ["programs"],"all macro inputs",
  "Compile-fail examples cover a few inputs.",
  ["varlen_macro/src/lib.rs"],[("define_varlen_impl, parse_fields","varlen_macro/src/lib.rs")],
  observe=["compiler diagnostics"])
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)),"properties.jsonl"),"w") as f:
    for x in P: f.write(json.dumps(x)+"\n")
