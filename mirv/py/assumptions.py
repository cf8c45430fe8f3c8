"""What the verification rests on, reported in every evidence file."""
LEVELS = {}
NOTE = ('Every obligation of the property\'s contracts is discharged for all inputs from the MIR of /repo\'s current source on each run; the trusted base and every assumed contract is listed in the '
        'evidence file. Obligations the verifier can neither prove nor refute are listed as undecided there, and the bounded companion (labelled bounded) is what then stands behind them.')
NOTES = {}
TRUSTED = [
    'mirv (this verifier, /verif/mirv/py) and its MIR dumper (/verif/mirv/driver); rustc 1.101 nightly\'s MIR generation for the generic (polymorphic) bodies, -Zmir-opt-level=0, overflow checks and debug assertions on',
    'z3 4.x (python bindings of python3-vt); true-model check of every counterexample',
    'ownership contracts (own/cases.txt): rustc\'s borrow checker and trait solver decide them; each is a pair of safe programs, one that must be accepted and one that must be rejected with the stated error',
    'thorough tier: every unsat answer of z3 that fits the contract\'s time is put to cvc5 as well; a disagreement makes the contract undecided',
    'rustc\'s type layouts for concrete types (sizes, field offsets), queried from the compiler on every run',
]
BOUNDED = 'seeded histories and enumerated cases on the compiled crate under a checking allocator: bounded, finds concrete failing inputs, not counted in obligations or discharged'
COMMON = [
    'assumed contracts on what has no MIR: the compiler intrinsics named in mirv/py/natives.py (INTR), the allocator entry points __rust_alloc/__rust_realloc/__rust_dealloc, functions that only panic, and (documented value) usize::next_multiple_of; slice::from_raw_parts* has its safety contract as an obligation; every other core/alloc function that varlen calls runs through its own MIR',
    'unknown types: size_of and align_of of a type parameter obey size % align == 0, align a power of two at most 2^29, size <= isize::MAX; ALIGN of an unknown VarLen type is a power of two at most 2^29; its Layout type has no destructor',
    'user code (closures, Clone, Default, iterators, unknown Initializers and VarLen impls) obeys its documented unsafe-trait contract, may panic anywhere, and does not reach into varlen\'s memory other than through its arguments',
    'a legal object occupies at most isize::MAX bytes after rounding up to its alignment (what Rust requires of every allocation)',
    'pointer arithmetic is on mathematical integers within a region; provenance and aliasing (Stacked/Tree Borrows) are not checked',
    'tuples for each arity 2 to 5; macro structs for the sample structs in mirv/harness/src/gen.rs and gen2.rs',
    'length types on a 64-bit target',
    'panics inside destructors are followed only as far as: no value is dropped twice; storage may then leak',
]


def for_property(pid):
    return COMMON
