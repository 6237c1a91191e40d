//! The properties and the scenarios that decide them.

use std::sync::atomic::{AtomicI64, AtomicU64, Ordering};

use crate::sim::Res;

mod c01;
mod c02;
mod c03;
mod c04;
mod c05;
mod c06;
mod c07;
mod c08;
mod c09;
#[cfg(not(feature = "without-templates"))]
mod c10;
#[cfg(feature = "without-templates")]
#[path = "c10_broken.rs"]
mod c10;
mod c11;
mod c12;
mod c13;
mod c14;
#[cfg(not(feature = "without-templates"))]
pub mod templates;

pub struct Prop {
    pub id: &'static str,
    pub run: fn() -> Res,
    /// Runs of the quick tier.
    pub quick: u64,
    pub thorough_factor: u64,
    /// Outputs are also compared between processes.
    pub cross_process: bool,
    pub rule: &'static str,
}

#[cfg(feature = "stable-compiler")]
pub static ALL: &[&Prop] = &[&c10::PROP];
#[cfg(not(feature = "stable-compiler"))]
pub static ALL: &[&Prop] = &[
    &c01::PROP,
    &c02::PROP,
    &c03::PROP,
    &c04::PROP,
    &c05::PROP,
    &c06::PROP,
    &c07::PROP,
    &c08::PROP,
    &c09::PROP,
    &c10::PROP,
    &c11::PROP,
    &c12::PROP,
    &c13::PROP,
    &c14::PROP,
];

pub fn find(id: &str) -> Option<&'static Prop> {
    ALL.iter().copied().find(|p| p.id == id)
}

static DIGEST: AtomicU64 = AtomicU64::new(0);
static DIGEST_MODE: AtomicI64 = AtomicI64::new(-1);

pub fn set_digest_mode(v: Option<u64>) {
    DIGEST_MODE.store(v.map_or(-1, |v| v as i64), Ordering::SeqCst);
    DIGEST.store(0, Ordering::SeqCst);
}
pub fn digest_mode() -> Option<u64> {
    match DIGEST_MODE.load(Ordering::SeqCst) {
        -1 => None,
        v => Some(v as u64),
    }
}
pub fn add_digest(b: &[u8]) {
    let mut h = DIGEST.load(Ordering::SeqCst);
    for x in b {
        h = (h ^ u64::from(*x)).wrapping_mul(0x100000001B3).rotate_left(7);
    }
    DIGEST.store(h ^ b.len() as u64, Ordering::SeqCst);
}
pub fn take_digest() -> u64 {
    DIGEST.load(Ordering::SeqCst)
}
