#![no_std]
#[path = "../../src/body.rs"]
pub mod body;
#[path = "../../src/oracle.rs"]
pub mod oracle;
#[path = "../../src/spec.rs"]
pub mod spec;
extern "C" {
    fn sym_panic() -> !;
}
#[panic_handler]
fn panicked(_: &core::panic::PanicInfo) -> ! {
    unsafe { sym_panic() }
}
