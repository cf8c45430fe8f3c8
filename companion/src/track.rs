//! Values that notice being lost, dropped twice or read when they are not there.
use std::cell::RefCell;
#[derive(Default)]
pub struct Tr { pub state: Vec<u8>, pub errs: Vec<String>, pub clones: usize, pub leaked: Vec<u32> }
thread_local!(pub static TR: RefCell<Tr> = RefCell::new(Tr::default()));
const MAGIC: u32 = 0x5EED_CAFE;

fn un<R>(f: impl FnOnce(&mut Tr) -> R) -> R {
    let a = crate::alloc::disarm();
    let r = TR.with(|t| f(&mut t.borrow_mut()));
    crate::alloc::set(a);
    r
}

#[derive(Debug)]
#[repr(C)]
pub struct D { magic: u32, id: u32, pub val: u32 }
impl D {
    pub fn new(val: u32) -> D {
        let id = un(|t| { t.state.push(1); t.state.len() as u32 - 1 });
        D { magic: MAGIC, id, val }
    }
    /// The value, or None where no live value is.
    pub fn get(&self) -> Option<u32> {
        if self.magic == MAGIC && un(|t| t.state.get(self.id as usize) == Some(&1)) { Some(self.val) } else { None }
    }
    pub fn id(&self) -> u32 { self.id }
}
impl Default for D { fn default() -> D { D::new(77) } }
impl Clone for D {
    fn clone(&self) -> D {
        un(|t| t.clones += 1);
        match self.get() { Some(v) => D::new(v), None => { un(|t| t.errs.push("clone of something that is no live value".into())); D::new(0) } }
    }
}
impl Drop for D {
    fn drop(&mut self) {
        let (m, id) = (self.magic, self.id as usize);
        un(|t| {
            if m != MAGIC || id >= t.state.len() { t.errs.push("drop of something that is no value".into()) }
            else if t.state[id] != 1 { t.errs.push(format!("value {} dropped twice", id)) }
            else { t.state[id] = 2 }
        });
    }
}
/// A number that is dropped as a value is, and whose destructor may panic.
pub struct Bd { d: D, n: u8, bomb: bool }
impl Bd {
    pub fn new(n: u8, bomb: bool) -> Bd { Bd { d: D::new(n as u32), n, bomb } }
    pub const fn n(&self) -> usize { self.n as usize }
    pub fn get(&self) -> Option<u32> { self.d.get() }
}
impl Drop for Bd { fn drop(&mut self) { if self.bomb { self.bomb = false; panic!("destructor") } } }
/// A zero-sized type with a destructor.
#[derive(Debug)]
pub struct Z;
thread_local!(pub static ZN: std::cell::Cell<(i64, i64)> = const { std::cell::Cell::new((0, 0)) });
impl Z { pub fn new() -> Z { ZN.with(|z| z.set((z.get().0 + 1, z.get().1))); Z } }
impl Clone for Z { fn clone(&self) -> Z { Z::new() } }
impl Drop for Z { fn drop(&mut self) { ZN.with(|z| z.set((z.get().0, z.get().1 + 1))) } }
impl Default for Z { fn default() -> Z { Z::new() } }

pub fn clones() -> usize { un(|t| t.clones) }
pub fn alive() -> usize { un(|t| t.state.iter().filter(|&&x| x == 1).count()) }
/// This value is given up on purpose.
pub fn leak(id: u32) { un(|t| t.leaked.push(id)) }
/// Ends a case: what went wrong with the values.
pub fn finish(strict: bool) -> String {
    un(|t| {
        let mut e = t.errs.join("; ");
        for (i, s) in t.state.iter().enumerate() {
            let lk = t.leaked.contains(&(i as u32));
            if *s == 1 && !lk && strict { e += &format!("value {} never dropped; ", i) }
            if *s == 2 && lk { e += &format!("value {} was given up but dropped; ", i) }
        }
        *t = Tr::default();
        let (n, d) = ZN.with(|z| z.replace((0, 0)));
        if n != d && strict { e += &format!("{} zero-sized values made, {} dropped; ", n, d) }
        if d > n { e += &format!("{} zero-sized values made, {} dropped; ", n, d) }
        e
    })
}
