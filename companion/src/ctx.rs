use crate::{alloc, track};
use std::collections::HashSet;
use std::hash::{Hash, Hasher};
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::cell::RefCell;

pub struct Rng(pub u64);
impl Rng {
    pub fn next(&mut self) -> u64 {
        self.0 = self.0.wrapping_add(0x9E3779B97F4A7C15);
        let mut z = self.0;
        z = (z ^ (z >> 30)).wrapping_mul(0xBF58476D1CE4E5B9);
        z = (z ^ (z >> 27)).wrapping_mul(0x94D049BB133111EB);
        z ^ (z >> 31)
    }
    pub fn to(&mut self, n: usize) -> usize { (self.next() % n.max(1) as u64) as usize }
    pub fn one<T: Copy>(&mut self, x: &[T]) -> T { x[self.to(x.len())] }
}
thread_local!(pub static LAST_PANIC: RefCell<String> = RefCell::new(String::new()));

pub struct Fail { pub test: String, pub case: String, pub msg: String }
pub struct Ctx {
    pub prop: String, pub thorough: bool, pub seed: u64, pub trace: bool,
    pub test: String, pub case: String,
    pub cases: u64, pub evals: u64, pub distinct: HashSet<u64>, pub samples: Vec<String>,
    pub fails: Vec<Fail>, pub stop: bool, pub log: Vec<String>, pub only: Option<String>,
    // per case: values may be left behind; number of blocks expected to be left
    pub lax: bool, pub left: usize,
}
impl Ctx {
    pub fn want(&self, tags: &str) -> bool { tags.split(' ').any(|t| t == self.prop) }
    fn un<R>(&mut self, f: impl FnOnce(&mut Self) -> R) -> R { let a = alloc::disarm(); let r = f(self); alloc::set(a); r }
    pub fn fail(&mut self, msg: String) {
        self.un(|c| {
            let case = if c.log.is_empty() { c.case.clone() } else { format!("{}: {}", c.case, c.log.join(", ")) };
            if !c.stop && c.fails.len() < 6 { c.fails.push(Fail { test: c.test.clone(), case, msg }) }
            c.stop = true;
        })
    }
    /// A check of the properties `tags`.
    pub fn ck(&mut self, tags: &str, ok: bool, msg: impl FnOnce() -> String) -> bool {
        self.evals += 1;
        if !ok && self.want(tags) { let m = self.un(|_| msg()); self.fail(m) }
        ok
    }
    /// Records a step of the case.
    pub fn step(&mut self, s: impl FnOnce() -> String) {
        self.un(|c| { let s = s(); if c.trace { eprintln!("  {}", s) } c.log.push(s) })
    }
    /// Runs a case: what it does with values counts for `vt`, with memory for `mt`, an unexpected
    /// panic for `pt`.
    pub fn case(&mut self, desc: String, vt: &str, mt: &str, pt: &str, f: impl FnOnce(&mut Ctx)) {
        if self.fails.len() >= 3 { return }
        if let Some(o) = &self.only { if !desc.contains(o.as_str()) { return } }
        self.case = desc;
        self.log.clear();
        self.stop = false;
        self.lax = false;
        self.left = 0;
        self.cases += 1;
        let mut h = std::collections::hash_map::DefaultHasher::new();
        (&self.test, &self.case).hash(&mut h);
        self.distinct.insert(h.finish());
        if self.trace { eprintln!("case {} {}", self.test, self.case) }
        if self.samples.len() < 4 && self.cases % 37 == 1 { let s = format!("{}: {}", self.test, self.case); self.samples.push(s) }
        track::finish(false);
        alloc::arm();
        let r = catch_unwind(AssertUnwindSafe(|| f(self)));
        alloc::disarm();
        if r.is_err() {
            drop(r);
            alloc::finish(alloc::live());
            track::finish(false);
            let m = LAST_PANIC.with(|p| p.borrow().clone());
            self.ck(pt, false, || format!("unexpected panic: {}", m));
            return
        }
        let e = alloc::finish(self.left);
        let t = track::finish(!self.lax);
        self.ck(mt, e.is_empty(), || e);
        self.ck(vt, t.is_empty(), || t);
        if self.samples.len() < 4 && !self.log.is_empty() { let s = format!("{}: {}: {}", self.test, self.case, self.log.join(", ")); self.samples.push(s) }
    }
    /// Runs f, which may panic: Some(result), or None.
    pub fn caught<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        let a = alloc::arm();
        let r = catch_unwind(AssertUnwindSafe(f));
        alloc::disarm();
        let r = match r { Ok(x) => Some(x), Err(e) => { drop(e); None } };
        alloc::set(a);
        r
    }
    /// As caught, without the checking allocator.
    pub fn quiet<R>(&mut self, f: impl FnOnce() -> R) -> Option<R> {
        let a = alloc::disarm();
        let r = catch_unwind(AssertUnwindSafe(f)).ok();
        alloc::set(a);
        r
    }
    /// Runs f without the checking allocator.
    pub fn off<R>(&mut self, f: impl FnOnce() -> R) -> R { let a = alloc::disarm(); let r = f(); alloc::set(a); r }
}
