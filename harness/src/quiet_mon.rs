//! C29: the workload whose system calls are watched from outside (check.py runs this under strace
//! and judges the trace). Between the first and the last marker this process does nothing but
//! computing with the libraries; reading the environment there faults.
use crate::core::*;
use crate::{auc_mon, err_mon, group_mon, hostile, spake_mon, srp_mon};
use std::collections::HashMap;
use std::ffi::{c_char, c_int, c_void};

extern "C" {
    static mut environ: *mut *mut c_char;
    fn mmap(a: *mut c_void, len: usize, prot: c_int, flags: c_int, fd: c_int, off: i64) -> *mut c_void;
}
/// a call that shows up in the trace and does nothing
fn mark(s: &str) {
    let _ = std::fs::metadata(format!("/nonexistent/pakemon/{s}"));
}
/// rounding, precision and traps
#[cfg(target_arch = "x86_64")]
fn control() -> [u32; 2] {
    let (mut a, mut b) = (0u32, 0u16);
    unsafe { std::arch::asm!("stmxcsr [{}]", "fnstcw [{}]", in(reg) &mut a, in(reg) &mut b) };
    [a & !63, b as u32]
}
#[cfg(not(target_arch = "x86_64"))]
fn control() -> [u32; 2] {
    [0; 2]
}
type Part = (&'static str, f64, fn(&mut Ctx));
const PARTS: &[Part] = &[
    ("C02", 0.4, srp_mon::c02),
    ("C03", 0.3, srp_mon::c03),
    ("C09", 0.2, spake_mon::c09),
    ("C10", 0.2, spake_mon::c10),
    ("C11", 0.02, spake_mon::c11),
    ("C12", 0.2, spake_mon::c12),
    ("C13", 0.05, spake_mon::c13),
    ("C14", 0.1, auc_mon::c14),
    ("C15", 0.05, auc_mon::c15),
    ("C17", 0.2, auc_mon::c17),
    ("C18", 0.05, auc_mon::c18),
    ("C19", 0.05, auc_mon::c19),
    ("C20", 0.05, auc_mon::c20),
    ("C21", 0.05, auc_mon::c21),
    ("C24", 0.02, hostile::c24),
    ("C27", 0.05, group_mon::c27),
    ("C26", 0.05, auc_mon::c26),
    ("C26", 0.05, srp_mon::c26),
    ("C26", 0.05, spake_mon::c26),
    ("C28", 0.3, err_mon::c28),
];
pub fn c29(x: &mut Ctx) {
    x.rule("an evaluation is one monitored case of another property, run alone on the only thread between two markers in the system call trace; distinct as that property counts them");
    // whatever the harness itself initialises lazily
    sut(|| ());
    drop(HashMap::<u8, u8>::new());
    let seed = x.seed;
    let scale = x.scale * if x.thorough { 10.0 } else { 1.0 };
    let only = x.only.as_ref().map(|o| o.0.clone());
    let guard = unsafe { mmap(std::ptr::null_mut(), 1 << 16, 0, 0x22, -1, 0) };
    assert!(guard as isize != -1);
    let env = unsafe { environ };
    mark(&format!("guard/{:x}", guard as usize));
    unsafe { environ = guard.cast() };
    let before = control();
    mark("begin");
    for (id, f, sc) in PARTS.iter().map(|(i, s, f)| (*i, f, *s)) {
        if only.as_deref().is_some_and(|o| o != id) {
            continue;
        }
        let mut y = Ctx {
            prop: id.into(),
            seed,
            thorough: false,
            scale: sc * scale,
            threads: 1,
            only: None,
            stage_cap: x.stage_cap,
            obs: Obs::default(),
            violations: vec![],
            errors: vec![],
            stages: vec![],
            rules: vec![],
        };
        mark(id);
        f(&mut y);
        // what those monitors say is theirs to report; this one watches from outside
        x.obs.add("cases run under the trace", y.obs.evals);
        x.obs.evals += y.obs.evals;
        x.obs.decided += y.obs.decided;
        x.obs.distinct.extend(y.obs.distinct);
        x.stages.push((format!("traced {id}"), y.obs.evals, y.obs.evals, y.stages.iter().map(|s| s.3).sum()));
    }
    mark("end");
    unsafe { environ = env };
    // settings of the process that no system call tells about
    let after = control();
    if after != before {
        x.violations.push(Violation { stage: "settings".into(), idx: 0, what: format!("the floating point control of the thread was {before:x?} and is {after:x?}") });
    }
    if hook_in_place() {
        x.obs.count("panic hook still in place");
    } else {
        x.violations.push(Violation { stage: "settings".into(), idx: 1, what: "the panic hook of the process has been replaced".into() });
    }
}
