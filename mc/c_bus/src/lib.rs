use std::sync::Once;
pub const MAP: &str = "/vtmp/procbus.map";
/// the temporary directory of the virtual processes
pub fn setup() {
    static ONCE: Once = Once::new();
    ONCE.call_once(|| std::env::set_var("TMPDIR", "/vtmp"));
    assert!(vos::sys::here() != 1);
}
pub fn record(id: u64, port: u16) -> Vec<u8> {
    [&id.to_ne_bytes()[..], &port.to_ne_bytes()].concat()
}
