//! Positive examples: each function breaks a rule whose expected count on siamesedb is zero.
//! The checks analyse this crate on every run and must report every one of them.
use std::cell::RefCell;
use std::rc::Rc;

pub struct Shared(pub Rc<RefCell<Vec<u64>>>);

/// borrows again while a mutable borrow is alive
pub fn double_borrow(s: &Shared) -> usize {
    let mut g = s.0.borrow_mut();
    g.push(1);
    let n = s.0.borrow().len();
    g.push(n as u64);
    n
}

/// releases the first borrow before taking the second one
pub fn single_borrow(s: &Shared) -> usize {
    {
        let mut g = s.0.borrow_mut();
        g.push(1);
    }
    s.0.borrow().len()
}

/// a handle that could be moved to another thread
pub struct Handle(pub std::sync::Arc<u32>);
/// a handle that can not
pub struct LocalHandle(pub Rc<u32>);

/// unchecked access without a guard
pub fn unchecked(v: &[u64], i: usize) -> u64 {
    unsafe { *v.get_unchecked(i) }
}
