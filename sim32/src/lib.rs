//! Simulator for the narrow target: the same device, generator-independent
//! part only, driven by the host through plain memory.
#![allow(dead_code, unused_imports)]
#[path = "../../sim/src/gen.rs"]
mod gen;
#[path = "../../sim/src/mem.rs"]
mod mem;
#[path = "../../sim/src/meta.rs"]
mod meta;
#[path = "../../sim/src/model.rs"]
mod model;
#[path = "../../sim/src/narrow.rs"]
mod narrow;
#[path = "../../sim/src/ops.rs"]
mod ops;
#[path = "../../sim/src/prng.rs"]
mod prng;

use parity_scale_codec::Decode;
use std::ptr::addr_of_mut;

static mut IN: Vec<u8> = Vec::new();
static mut OUT: Vec<u8> = Vec::new();
static mut GROUND: Option<narrow::Ground> = None;

fn input() -> &'static mut Vec<u8> {
    unsafe { &mut *addr_of_mut!(IN) }
}
fn output() -> &'static mut Vec<u8> {
    unsafe { &mut *addr_of_mut!(OUT) }
}
fn ground() -> &'static mut Option<narrow::Ground> {
    unsafe { &mut *addr_of_mut!(GROUND) }
}

/// Room for what the host gives.
#[no_mangle]
pub extern "C" fn room(len: usize) -> *mut u8 {
    let v = input();
    v.clear();
    v.resize(len, 0);
    v.as_mut_ptr()
}

/// Once, before anything else.
#[no_mangle]
pub extern "C" fn begin() {
    std::panic::set_hook(Box::new(|i| {
        let v = output();
        v.clear();
        v.extend_from_slice(format!("{i}").as_bytes());
    }));
}

/// Text of a metadata file was given: its name, a line feed, the text.
#[no_mangle]
pub extern "C" fn file() {
    let v = input();
    if let Some(n) = v.iter().position(|b| *b == b'\n') {
        let name = String::from_utf8_lossy(&v[..n]).into_owned();
        meta::give(&name, String::from_utf8_lossy(&v[n + 1..]).into_owned());
    }
}

/// A scenario was given; number of cases.
#[no_mangle]
pub extern "C" fn load() -> usize {
    *ground() = None;
    match ops::Scenario::decode(&mut &input()[..]) {
        Ok(s) => {
            let g = narrow::Ground::new(s);
            let n = g.len();
            *ground() = Some(g);
            n
        }
        Err(_) => usize::MAX,
    }
}

/// Length of the outcome's text.
#[no_mangle]
pub extern "C" fn exec(i: usize) -> usize {
    output().clear();
    let Some(g) = ground() else { return 0 };
    let t = narrow::text(&g.exec(i));
    *output() = t.into_bytes();
    output().len()
}

#[no_mangle]
pub extern "C" fn out() -> *const u8 {
    output().as_ptr()
}
#[no_mangle]
pub extern "C" fn out_len() -> usize {
    output().len()
}
