#[path = "../sx.rs"]
#[macro_use]
mod sx;
#[cfg(feature = "native")]
#[path = "../native.rs"]
mod native;
use mqtt_protocol_core::mqtt;

fn recv_bytes() {
    let n = sx::param(0) as usize;
    let b = sx::bytes(n);
    let mut c = mqtt::Connection::<mqtt::role::Server>::new(mqtt::Version::V5_0);
    let ev = c.recv(&mut mqtt::common::Cursor::new(&b[..]));
    sx::obs(1, ev.len() as u64);
    sx::check(ev.len() < 10, "few events");
    std::mem::forget((c, ev));
}
entries! { h_recv => recv_bytes }
