//! Independent MQTT encoder / decoder helpers written from the OASIS specifications (no library code).
#![allow(dead_code)]
use core::sync::atomic::{AtomicU8, Ordering};
/// which contents the packets of the current operation have where the operation does not say (0: the plainest)
static RICH: AtomicU8 = AtomicU8::new(0);
pub fn set_rich(v: u8) {
    RICH.store(v, Ordering::Relaxed)
}
pub fn rich() -> u8 {
    RICH.load(Ordering::Relaxed)
}
/// properties by which the variants of a packet of type t differ
pub fn rich_props(t: u8) -> B {
    let user = |b: B| b.u8(0x26).s(b"k").s(b"v");
    let long = |b: B| b.u8(0x26).s(b"k").s(&LONG);
    let b = B::new();
    match (t, rich()) {
        (_, 0) => b,
        (1, 1) => user(b),
        (1, _) => long(b.u8(0x17).u8(0).u8(0x19).u8(1).u8(0x15).s(b"m")),
        (2, 1) => user(b.u8(0x25).u8(0).u8(0x12).s(b"x")),
        (2, _) => b.u8(0x24).u8(1).u8(0x28).u8(0).u8(0x2a).u8(0).u8(0x29).u8(0).u8(0x1f).s(&LONG),
        (3, 1) => user(b.u8(0x01).u8(1)),
        (3, _) => b.u8(0x02).u32(9).u8(0x03).s(b"c").u8(0x08).s(b"r").u8(0x09).s(b"d"),
        (4..=7, 1) => user(b.u8(0x1f).s(b"r")),
        (8, 1) => b.u8(0x0b).u8(5),
        (14, 1) => b.u8(0x1f).s(b"r"),
        (14, _) => b,
        (15, 1) => b.u8(0x15).s(b"m"),
        (15, _) => b.u8(0x15).s(b"m").u8(0x16).s(b"d").u8(0x1f).s(&LONG),
        (_, 1) => user(b),
        _ => long(b),
    }
}
/// makes a packet long enough for a two-byte Remaining Length and property length
pub const LONG: [u8; 126] = [b'v'; 126];
pub fn payload(pl: u8) -> Vec<u8> {
    let mut v = vec![pl];
    if rich() == 2 {
        v.extend_from_slice(&[0, 0xff]);
        v.extend_from_slice(&LONG);
    }
    v
}
pub fn vbi(out: &mut Vec<u8>, mut n: usize) {
    loop {
        let d = (n % 128) as u8;
        n /= 128;
        if n > 0 {
            out.push(d | 0x80);
        } else {
            out.push(d);
            return;
        }
    }
}
pub fn frame(b0: u8, body: &[u8]) -> Vec<u8> {
    let mut v = vec![b0];
    vbi(&mut v, body.len());
    v.extend_from_slice(body);
    v
}
#[derive(Default, Clone)]
pub struct B(pub Vec<u8>);
impl B {
    pub fn new() -> B {
        B(vec![])
    }
    pub fn u8(mut self, v: u8) -> B {
        self.0.push(v);
        self
    }
    pub fn u16(mut self, v: u16) -> B {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn u32(mut self, v: u32) -> B {
        self.0.extend_from_slice(&v.to_be_bytes());
        self
    }
    pub fn raw(mut self, v: &[u8]) -> B {
        self.0.extend_from_slice(v);
        self
    }
    pub fn s(self, v: &[u8]) -> B {
        self.u16(v.len() as u16).raw(v)
    }
    /// length-prefixed (variable byte integer) block
    pub fn block(mut self, v: &[u8]) -> B {
        vbi(&mut self.0, v.len());
        self.raw(v)
    }
    pub fn if_some<T>(self, o: Option<T>, f: impl FnOnce(B, T) -> B) -> B {
        match o {
            Some(t) => f(self, t),
            None => self,
        }
    }
    pub fn frame(self, b0: u8) -> Vec<u8> {
        frame(b0, &self.0)
    }
}

pub fn publish(v5: bool, qos: u8, dup: bool, topic: &[u8], pid: u16, alias: Option<u16>, payload: &[u8]) -> Vec<u8> {
    let mut b = B::new().s(topic);
    if qos > 0 {
        b = b.u16(pid);
    }
    if v5 {
        let p = rich_props(3).if_some(alias, |b, a| b.u8(0x23).u16(a));
        b = b.block(&p.0);
    }
    b.raw(payload).frame(0x30 | if dup { 8 } else { 0 } | (qos << 1) | (rich() != 0) as u8)
}
/// PUBACK/PUBREC/PUBREL/PUBCOMP (t = 4..=7)
pub fn ack(t: u8, pid: u16, rc: Option<u8>) -> Vec<u8> {
    let b = B::new().u16(pid).if_some(rc, |b, r| b.u8(r));
    b.frame(t << 4 | if t == 6 { 2 } else { 0 })
}
/// the acknowledgement of the current operation
pub fn ack_rich(v5: bool, t: u8, pid: u16, rc: Option<u8>) -> Vec<u8> {
    if !v5 || rich() == 0 {
        return ack(t, pid, rc);
    }
    let b = B::new().u16(pid).u8(rc.unwrap_or(0)).block(&rich_props(t).0);
    b.frame(t << 4 | if t == 6 { 2 } else { 0 })
}
#[derive(Clone, Default)]
pub struct Cfg {
    pub clean: bool,
    pub ka: u16,
    pub sei: Option<u32>,
    pub rm: Option<u16>,
    pub tam: Option<u16>,
    pub mps: Option<u32>,
}
#[derive(Clone, Default)]
pub struct Ack {
    pub sp: bool,
    pub rc: u8,
    pub sei: Option<u32>,
    pub rm: Option<u16>,
    pub tam: Option<u16>,
    pub mps: Option<u32>,
    pub ska: Option<u16>,
}
pub fn connect(v5: bool, c: &Cfg) -> Vec<u8> {
    let full = rich() == 1;
    let mut b = B::new().s(b"MQTT").u8(if v5 { 5 } else { 4 }).u8(if c.clean { 2 } else { 0 } | if full { 0xf4 } else { 0 }).u16(c.ka);
    if v5 {
        let p = rich_props(1)
            .if_some(c.sei, |b, v| b.u8(0x11).u32(v))
            .if_some(c.rm, |b, v| b.u8(0x21).u16(v))
            .if_some(c.mps, |b, v| b.u8(0x27).u32(v))
            .if_some(c.tam, |b, v| b.u8(0x22).u16(v));
        b = b.block(&p.0);
    }
    b = b.s(b"c");
    if full {
        // will with QoS 2 and retain, user name, password
        if v5 {
            b = b.block(&[0x18, 0, 0, 0, 1]);
        }
        b = b.s(b"w").s(b"p").s(b"u").s(b"s");
    }
    b.frame(0x10)
}
/// reason code of a refusing CONNACK
pub fn refusal(v5: bool, rc: u8) -> u8 {
    match (rich(), v5) {
        (0, _) => rc,
        (1, true) => 0x88,
        (1, false) => 3,
        (_, true) => 0x9d,
        _ => 1,
    }
}
pub fn connack(v5: bool, a: &Ack) -> Vec<u8> {
    let mut b = B::new().u8(a.sp as u8).u8(if a.rc == 0 { 0 } else { refusal(v5, a.rc) });
    if v5 {
        let p = if a.rc == 0 { rich_props(2) } else { B::new() }
            .if_some(a.sei, |b, v| b.u8(0x11).u32(v))
            .if_some(a.rm, |b, v| b.u8(0x21).u16(v))
            .if_some(a.mps, |b, v| b.u8(0x27).u32(v))
            .if_some(a.tam, |b, v| b.u8(0x22).u16(v))
            .if_some(a.ska, |b, v| b.u8(0x13).u16(v));
        b = b.block(&p.0);
    }
    b.frame(0x20)
}
pub fn subscribe(v5: bool, pid: u16) -> Vec<u8> {
    let b = B::new().u16(pid);
    let b = if v5 { b.block(&rich_props(8).0) } else { b };
    match rich() {
        0 => b.s(b"t").u8(0),
        1 => b.s(b"t").u8(1).s(b"#").u8(2),
        _ => if v5 { b.s(b"$share/g/t").u8(0x2a) } else { b.s(b"a/+/#").u8(2) },
    }
    .frame(0x82)
}
pub fn unsubscribe(v5: bool, pid: u16) -> Vec<u8> {
    let b = B::new().u16(pid);
    let b = if v5 { b.block(&rich_props(10).0) } else { b };
    let b = if rich() == 1 { b.s(b"+/x") } else { b };
    b.s(b"t").frame(0xa2)
}
pub fn suback(v5: bool, pid: u16, rc: u8) -> Vec<u8> {
    let b = B::new().u16(pid);
    let b = if v5 { b.block(&rich_props(9).0) } else { b };
    match rich() {
        0 => b.u8(rc),
        1 => b.u8(0x80).u8(rc),
        _ => b.u8(1).u8(2).u8(rc),
    }
    .frame(0x90)
}
pub fn unsuback(v5: bool, pid: u16, rc: u8) -> Vec<u8> {
    let b = B::new().u16(pid);
    let b = if v5 { b.block(&rich_props(11).0).u8(rc) } else { b };
    let b = match rich() {
        1 if v5 => b.u8(0x11),
        2 if v5 => b.u8(0x87).u8(0),
        _ => b,
    };
    b.frame(0xb0)
}
pub fn pingreq() -> Vec<u8> {
    vec![0xc0, 0]
}
pub fn pingresp() -> Vec<u8> {
    vec![0xd0, 0]
}
/// None: no reason code (and the only form in v3.1.1)
pub fn disconnect(rc: Option<u8>) -> Vec<u8> {
    match (rc, rich()) {
        (Some(r), 1) => B::new().u8(r).block(&rich_props(14).0),
        (Some(_), 2) => B::new().u8(0x98),
        _ => B::new().if_some(rc, |b, r| b.u8(r)),
    }
    .frame(0xe0)
}
pub fn auth(rc: u8) -> Vec<u8> {
    // reason code, authentication method "m"
    let p = if rich() == 0 { B::new().u8(0x15).s(b"m") } else { rich_props(15) };
    B::new().u8(rc).block(&p.0).frame(0xf0)
}

/// decoded PUBLISH (trusted, well-formed input)
#[derive(Clone)]
pub struct Pub {
    pub qos: u8,
    pub dup: bool,
    pub retain: bool,
    pub topic: Vec<u8>,
    pub pid: u16,
    pub alias: Option<u16>,
    pub nprops: usize,
    pub payload: Vec<u8>,
}
/// fixed header length
pub fn hlen(b: &[u8]) -> usize {
    let mut i = 1;
    while b[i] & 0x80 != 0 {
        i += 1;
    }
    i + 1
}
pub fn dec_publish(v5: bool, b: &[u8]) -> Pub {
    let mut p = hlen(b);
    let qos = (b[0] >> 1) & 3;
    let tl = (b[p] as usize) << 8 | b[p + 1] as usize;
    p += 2;
    let topic = b[p..p + tl].to_vec();
    p += tl;
    let mut pid = 0;
    if qos > 0 {
        pid = (b[p] as u16) << 8 | b[p + 1] as u16;
        p += 2;
    }
    let mut alias = None;
    let mut np = 0;
    if v5 {
        let l = b[p] as usize;
        p += 1;
        let e = p + l;
        // the properties used by the connection harnesses
        while p < e {
            let len = |i: usize| 2 + ((b[i] as usize) << 8 | b[i + 1] as usize);
            np += 1;
            match b[p] {
                0x23 => {
                    alias = Some((b[p + 1] as u16) << 8 | b[p + 2] as u16);
                    p += 3;
                }
                0x01 => p += 2,
                0x02 => p += 5,
                0x03 | 0x08 | 0x09 => p += 1 + len(p + 1),
                0x26 => {
                    p += 1 + len(p + 1);
                    p += len(p);
                }
                _ => panic!("unexpected property in a PUBLISH"),
            }
        }
    }
    Pub { qos, dup: b[0] & 8 != 0, retain: b[0] & 1 != 0, topic, pid, alias, nprops: np, payload: b[p..].to_vec() }
}
