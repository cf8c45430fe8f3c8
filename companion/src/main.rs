//! Bounded checks of varlen as built from /repo: seeded histories and enumerated cases under a
//! checking allocator. They replay and look for concrete failing inputs; they prove nothing.
mod alloc;
mod ctx;
mod el;
mod gen;
mod objs;
mod seqs;
mod shapes;
mod track;
mod wide;
#[global_allocator]
static A: alloc::Checking = alloc::Checking;

fn js(s: &str) -> String {
    let mut o = String::from("\"");
    for ch in s.chars().take(1500) {
        match ch { '"' => o += "\\\"", '\\' => o += "\\\\", c if (c as u32) < 32 => o += &format!("\\u{:04x}", c as u32), c => o.push(c) }
    }
    o + "\""
}
fn main() {
    let a: Vec<String> = std::env::args().collect();
    let get = |k: &str| a.iter().position(|x| x == k).and_then(|i| a.get(i + 1)).cloned();
    if a.get(1).map(|s| s.as_str()) == Some("oom") { oom(); return }
    if a.get(1).map(|s| s.as_str()) == Some("known") { known(); return }
    std::panic::set_hook(Box::new(|i| {
        let al = alloc::disarm();
        let m = i.to_string();
        ctx::LAST_PANIC.with(|p| *p.borrow_mut() = m);
        alloc::set(al);
    }));
    let mut c = ctx::Ctx {
        prop: a[1].clone(), thorough: a.iter().any(|x| x == "--thorough"), seed: get("--seed").and_then(|s| s.parse().ok()).unwrap_or(1), trace: a.iter().any(|x| x == "--trace"),
        test: String::new(), case: String::new(), cases: 0, evals: 0, distinct: Default::default(), samples: vec![], fails: vec![], stop: false, log: vec![], only: get("--only"), lax: false, left: 0,
    };
    if "C02 C04 C05 C06 C07 C08 C15 C17 C18 C03".split(' ').any(|p| c.want(p)) { seqs::run(&mut c) }
    if !"C04 C05 C06 C15 C17 C18".split(' ').any(|p| c.want(p)) { objs::run(&mut c); wide::run(&mut c); shapes::run(&mut c) }
    let f: Vec<String> = c.fails.iter().map(|f| format!("{{\"test\":{},\"case\":{},\"msg\":{}}}", js(&f.test), js(&f.case), js(&f.msg))).collect();
    let s: Vec<String> = c.samples.iter().map(|s| js(&s.chars().take(400).collect::<String>())).collect();
    println!("{{\"cases\":{},\"evaluations\":{},\"distinct\":{},\"samples\":[{}],\"fails\":[{}]}}", c.cases, c.evals, c.distinct.len(), s.join(","), f.join(","));
}

/// A failing allocation must end in the allocation error handler, not in use of a null pointer.
fn oom() {
    use varlen::prelude::*;
    alloc::arm();
    alloc::fail_next(1);
    let b: VBox<Array<u8, u16>> = VBox::new(Array::try_copy(&[1, 2, 3]).unwrap());
    alloc::disarm();
    println!("returned {:?}", b.len());
}

mod kf {
    use std::cell::Cell;
    use varlen::prelude::*;
    #[define_varlen]
    pub struct K { #[controls_layout] pub len: Cell<usize>, #[varlen_array] pub xs: [u8; len.get()] }
}
/// The known finding: a layout-controlling field with interior mutability.
fn known() {
    use std::cell::Cell;
    use varlen::prelude::*;
    use varlen::Layout;
    use kf::*;
    let b: VBox<K> = VBox::new(k::Init { len: Cell::new(4), xs: FillWithDefault });
    let before = b.calculate_layout().size();
    b.refs().len.set(1000);
    let after = b.calculate_layout().size();
    println!("{} {}", before, after);
    std::mem::forget(b);
}
