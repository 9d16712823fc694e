#![feature(alloc_error_hook)]
#![allow(static_mut_refs)]
pub mod alloc;
pub mod hooks;
pub mod rng;
pub mod rt;
pub mod sched;
pub mod sys;

/// Payload of the panic an allocation failure turns into.
pub struct Oom;

pub fn install_oom_hook() {
    std::alloc::set_alloc_error_hook(|_| {
        let _g = rt::ModeGuard::enter(rt::HARNESS);
        sched::oom_opened();
        std::panic::panic_any(Oom);
    });
}
