//! `digest` for a host without files: node moves the cases in and the results out.

#[path = "../src/cases.rs"]
mod cases;

use std::cell::RefCell;

thread_local! {
    static INPUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
    static OUTPUT: RefCell<Vec<u8>> = const { RefCell::new(Vec::new()) };
}

fn put(bytes: Vec<u8>) {
    OUTPUT.with(|o| *o.borrow_mut() = bytes);
}

/// Where the cases have to be written.
#[no_mangle]
pub extern "C" fn reserve(n: usize) -> usize {
    INPUT.with(|i| {
        *i.borrow_mut() = vec![0; n];
        i.borrow().as_ptr() as usize
    })
}

#[no_mangle]
pub extern "C" fn count() -> usize {
    INPUT.with(|i| cases::read(&i.borrow()).len())
}

/// Whether case `i` can be converted. The bytes or the error are in the output afterwards. A panic traps.
#[no_mangle]
pub extern "C" fn convert(i: usize) -> bool {
    let r = INPUT.with(|input| cases::convert(&cases::read(&input.borrow())[i]));
    let ok = r.is_ok();
    put(r.unwrap_or_else(String::into_bytes));
    ok
}

#[no_mangle]
pub extern "C" fn default() {
    put(format!("{:?}", lunify::Format::default()).into_bytes());
}

#[no_mangle]
pub extern "C" fn output() -> usize {
    OUTPUT.with(|o| o.borrow().as_ptr() as usize)
}

#[no_mangle]
pub extern "C" fn length() -> usize {
    OUTPUT.with(|o| o.borrow().len())
}
