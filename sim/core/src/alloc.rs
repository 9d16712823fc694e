//! The simulated allocator: every allocation carries a header with the mode it
//! was made in, so memory of the code under test can be accounted for, failed
//! on demand and poisoned when freed.
use crate::{hooks, rt};
use std::alloc::{GlobalAlloc, Layout, System};

pub struct SimAlloc;

const TAG_LIVE_H: u64 = 0x51A0_0000_0000_0001;
const TAG_LIVE_S: u64 = 0x51A0_0000_0000_0002;
const TAG_DEAD: u64 = 0x51A0_0000_0000_00DD;

#[link_section = "simdata"]
pub static mut LIVE_BYTES: i64 = 0;
#[link_section = "simdata"]
pub static mut LIVE_COUNT: i64 = 0;
#[link_section = "simdata"]
pub static mut PEAK_BYTES: i64 = 0;
/// Allocations asked for by the code under test, per task.
#[link_section = "simdata"]
pub static mut SUT_ALLOCS: [u64; crate::sched::MAX_TASKS] = [0; crate::sched::MAX_TASKS];
#[link_section = "simdata"]
pub static mut SUT_BYTES: [u64; crate::sched::MAX_TASKS] = [0; crate::sched::MAX_TASKS];
/// Fail the k-th next allocation (0 = off), then `FAIL_RUN` more.
#[link_section = "simdata"]
pub static mut FAIL_AT: [u64; crate::sched::MAX_TASKS] = [0; crate::sched::MAX_TASKS];
/// Fail any allocation that would bring the bytes of this call above the cap.
#[link_section = "simdata"]
pub static mut CAP: [i64; crate::sched::MAX_TASKS] = [0; crate::sched::MAX_TASKS];
#[link_section = "simdata"]
pub static mut CAP_BASE: [i64; crate::sched::MAX_TASKS] = [0; crate::sched::MAX_TASKS];
#[link_section = "simdata"]
pub static mut FIRED: [u64; crate::sched::MAX_TASKS] = [0; crate::sched::MAX_TASKS];
/// Bytes one simulated process may hold.
pub const LIMIT: u64 = 512 << 20;
#[link_section = "simdata"]
pub static mut CORRUPT: u64 = 0;

#[inline]
fn head(layout: &Layout) -> usize {
    layout.align().max(16)
}

#[cold]
unsafe fn fault(size: usize) -> bool {
    let t = crate::sched::CUR;
    if size as u64 > LIMIT || LIVE_BYTES + size as i64 > LIMIT as i64 {
        FIRED[t] += 1;
        return true;
    }
    SUT_ALLOCS[t] += 1;
    SUT_BYTES[t] += size as u64;
    if FAIL_AT[t] == 0 && CAP[t] == 0 {
        return false;
    }
    if std::thread::panicking() {
        return false;
    }
    let mut hit = false;
    if FAIL_AT[t] > 0 {
        FAIL_AT[t] -= 1;
        if FAIL_AT[t] == 0 {
            hit = true;
        }
    }
    if CAP[t] > 0 && LIVE_BYTES - CAP_BASE[t] + size as i64 > CAP[t] {
        hit = true;
    }
    if hit {
        // A counted failure is single; a cap lasts until the call is over,
        // except for what unwinding needs.
        FIRED[t] += 1;
    }
    hit
}

unsafe impl GlobalAlloc for SimAlloc {
    unsafe fn alloc(&self, layout: Layout) -> *mut u8 {
        let mode = rt::MODE;
        if mode == rt::SUT {
            hooks::tick();
            if fault(layout.size()) {
                return core::ptr::null_mut();
            }
        }
        let h = head(&layout);
        let l = Layout::from_size_align_unchecked(layout.size() + h, h);
        let p = System.alloc(l);
        if p.is_null() {
            return p;
        }
        let tag = if mode == rt::HARNESS {
            TAG_LIVE_H
        } else {
            LIVE_BYTES += layout.size() as i64;
            LIVE_COUNT += 1;
            if LIVE_BYTES > PEAK_BYTES {
                PEAK_BYTES = LIVE_BYTES;
            }
            TAG_LIVE_S
        };
        let q = p.add(h);
        *(q.sub(16) as *mut u64) = tag;
        *(q.sub(8) as *mut u64) = layout.size() as u64;
        q
    }

    unsafe fn dealloc(&self, q: *mut u8, layout: Layout) {
        let h = head(&layout);
        let tag = *(q.sub(16) as *mut u64);
        if tag == TAG_LIVE_S {
            LIVE_BYTES -= layout.size() as i64;
            LIVE_COUNT -= 1;
            let n = layout.size();
            if *(q.sub(8) as *mut u64) != n as u64 {
                CORRUPT += 1;
            }
            core::ptr::write_bytes(q, 0xDD, if n > 4096 { 4096 } else { n });
        } else if tag != TAG_LIVE_H {
            // double free or overwritten header
            CORRUPT += 1;
            return;
        }
        *(q.sub(16) as *mut u64) = TAG_DEAD;
        System.dealloc(q.sub(h), Layout::from_size_align_unchecked(layout.size() + h, h));
        if rt::MODE == rt::SUT {
            hooks::tick();
        }
    }

    unsafe fn realloc(&self, q: *mut u8, layout: Layout, new: usize) -> *mut u8 {
        let nl = Layout::from_size_align_unchecked(new, layout.align());
        // A block keeps the owner it was allocated by only through the mode at
        // the time of the call, as with any allocator.
        let n = self.alloc(nl);
        if !n.is_null() {
            core::ptr::copy_nonoverlapping(q, n, layout.size().min(new));
            self.dealloc(q, layout);
        }
        n
    }
}

/// Arm one allocation failure for the current task.
pub fn arm_fail(k: u64) {
    unsafe {
        let t = crate::sched::CUR;
        FAIL_AT[t] = k;
        FIRED[t] = 0;
    }
}

pub fn arm_cap(bytes: i64) {
    unsafe {
        let t = crate::sched::CUR;
        CAP[t] = bytes.max(1);
        CAP_BASE[t] = LIVE_BYTES;
        FIRED[t] = 0;
    }
}

pub fn disarm() -> u64 {
    unsafe {
        let t = crate::sched::CUR;
        FAIL_AT[t] = 0;
        CAP[t] = 0;
        let f = FIRED[t];
        FIRED[t] = 0;
        f
    }
}

pub fn sut_allocs() -> u64 {
    unsafe { SUT_ALLOCS[crate::sched::CUR] }
}

pub fn live() -> (i64, i64) {
    unsafe { (LIVE_BYTES, LIVE_COUNT) }
}

pub fn corrupt() -> u64 {
    unsafe { CORRUPT }
}
