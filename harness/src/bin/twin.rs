//! Two connection objects: reused against fresh (C10), with and without a refused call (C11), original against
//! restored (C16), with and without a forbidden packet and undetermined against fixed version (C17).
#[path = "../sx.rs"]
#[macro_use]
mod sx;
#[cfg(feature = "native")]
#[path = "../native.rs"]
mod native;
#[path = "../enc.rs"]
mod enc;
#[path = "../gen.rs"]
mod gen;
#[path = "../twin.rs"]
mod twin;
#[path = "../world.rs"]
mod world;
use gen::*;
use mqtt_protocol_core::mqtt;
use mqtt_protocol_core::mqtt::connection::Sendable;
use mqtt_protocol_core::mqtt::packet::{v3_1_1, v5_0, GenericPacketTrait, GenericStorePacket};
use mqtt_protocol_core::mqtt::role::RoleType;
use std::marker::PhantomData;
use twin::*;
use world::*;

/// params: 0 version, 1 steps of the history, 2 operations of the history, 3 automatic responses, 4 vary bits of
/// the history, 5/6 beginning, 7 operations in the beginning (flags), 8 steps after, 9 operations after, 10 vary bits after
struct P {
    v5: bool,
    k1: u64,
    a1: u64,
    auto: u64,
    v1: u64,
    pre: [u64; 2],
    pacts: u64,
    k2: u64,
    a2: u64,
    v2: u64,
}
fn par() -> P {
    P {
        v5: sx::param(0) == 5,
        k1: sx::param(1),
        a1: sx::param(2),
        auto: sx::param(3),
        v1: sx::param(4),
        pre: [sx::param(5), sx::param(6)],
        pacts: sx::param(7),
        k2: sx::param(8),
        a2: sx::param(9),
        v2: sx::param(10),
    }
}
fn gen_of(p: &P) -> G {
    let mut g = G::new(vary(p.v1));
    g.auto_pub = p.auto & 1 != 0;
    g.sym = 3;
    g
}
fn make_pre<R: RoleType>(w: &W<R>, g: &mut G, a: u64, pacts: u64) -> Option<Op> {
    if g.must_close && a != CLOSED {
        sx::assume(false);
    }
    if a == ANSWER && g.owe.is_empty() && g.owe_rel.is_empty() {
        return None;
    }
    Some(g.make(w, a, pacts))
}

// ---------------------------------------------------------------- C10
fn reuse<R: RoleType>(client: bool) {
    const D: &str = "a reused connection object behaves differently from a fresh one after a new session started";
    let p = par();
    let mut a = W::<R>::new(p.v5, client);
    let mut b = W::<R>::new(p.v5, client);
    a.quiet = true;
    options(&mut a, p.auto);
    options(&mut b, p.auto);
    let mut g = gen_of(&p);
    let vr = g.v;
    g.v.session = false;
    let option = |b: &mut W<R>, op: &Op| {
        if let Op::SetSendInterval(_) | Op::SetOffline(_) = op {
            b.exec(op);
        }
    };
    prefix(p.pre, |x| {
        if let Some(op) = make_pre(&a, &mut g, x, p.pacts) {
            one(&mut a, &mut g, op);
        }
    });
    g.v = vr;
    for _ in 0..p.k1 {
        if g.v.flip && a.st == St::Disc {
            a.client = sx::coin();
        }
        if let Some(op) = g.next(&a, p.a1) {
            option(&mut b, &op);
            one(&mut a, &mut g, op);
        }
    }
    // half a packet, then the transport is gone
    if sx::param(12) != 0 {
        let part: Vec<u8> = match sx::choose(6) {
            0 => vec![],
            1 => vec![sx::u8()],
            2 => vec![sx::u8(), 0x80 | sx::u8()],
            3 => vec![0x30, 0xff, 0xff],
            4 => vec![0x32, 7, sx::u8(), sx::u8()],
            _ => vec![0x30, 0x80, 1, 0],
        };
        if !part.is_empty() {
            let mut cur = mqtt::common::Cursor::new(&part[..]);
            let ev = a.c.recv(&mut cur);
            sx::check(ev.is_empty(), "half a packet has effects");
        }
    }
    one(&mut a, &mut g, Op::Closed);
    if g.v.flip {
        a.client = sx::coin();
        b.client = a.client;
    }
    g.v = vary(p.v2);
    // between the connections
    if sx::param(11) != 0 {
        if let Some(op) = g.next(&a, sx::param(11)) {
            option(&mut b, &op);
            one(&mut a, &mut g, op);
        }
    }
    // a new session
    let mut c = g.cfg(&a);
    c.clean = sx::coin();
    let con = if a.client { Op::SConnect(c.clone()) } else { Op::RConnect(c.clone()) };
    a.quiet = false;
    b.quiet = true;
    let same_at_connect = c.clean;
    if same_at_connect {
        two(&mut a, &mut b, &mut g, con, D);
    } else {
        let ea = one(&mut a, &mut g, con.clone());
        let eb = b.exec(&con);
        // the session may still be the old one, the connection is new: timers and packets are the same
        sx::check(equal(&ea, &eb), D);
    }
    let mut k = g.ack(&a);
    k.sp = false;
    let ack = if a.client { Op::RConnack(k) } else { Op::SConnack(k) };
    let ea = one(&mut a, &mut g, ack.clone());
    let eb = b.exec(&ack);
    sx::check(equal(&ea, &eb), D);
    if has_error(&ea) {
        return; // too large: no new session
    }
    same_state(&a, &b, D);
    sx::reach("second connection established");
    for _ in 0..p.k2 {
        if let Some(op) = g.next(&a, p.a2) {
            two(&mut a, &mut b, &mut g, op, D);
        }
    }
    same_ids(&mut a, &mut b, D);
    done((a, b, g));
}

// ---------------------------------------------------------------- C16
fn restore<R: RoleType>(client: bool) {
    const D: &str = "the restored connection object does not continue like the original";
    let p = par();
    let mut a = W::<R>::new(p.v5, client);
    a.quiet = true;
    options(&mut a, p.auto);
    let mut g = gen_of(&p);
    let vr = g.v;
    g.v.session = false;
    prefix(p.pre, |x| {
        if let Some(op) = make_pre(&a, &mut g, x, p.pacts) {
            one(&mut a, &mut g, op);
        }
    });
    g.v = vr;
    let mut opts = vec![];
    for _ in 0..p.k1 {
        if let Some(op) = g.next(&a, p.a1) {
            if let Op::SetSendInterval(_) | Op::SetOffline(_) = &op {
                opts.push(op.clone());
            }
            one(&mut a, &mut g, op);
        }
    }
    sx::assume(a.persist);
    let st = a.stored();
    let h = a.c.get_qos2_publish_handled();
    if !st.is_empty() {
        sx::reach("non-empty store exported");
    }
    if !h.is_empty() {
        sx::reach("handled identifiers exported");
    }
    let nonempty = !st.is_empty() || !h.is_empty();
    let ids: Vec<u16> = st.iter().map(|x| x.packet_id()).collect();
    let mut owed = g.owe_rel.clone();
    owed.extend(g.held.iter());
    let mut b = W::<R>::new(p.v5, a.client);
    options(&mut b, p.auto);
    for op in &opts {
        b.exec(op);
    }
    b.c.restore_packets(st);
    b.c.restore_qos2_publish_handled(h);
    // PUBRELs the application still has to send and identifiers it holds without having sent anything
    for i in &owed {
        sx::check(b.c.register_packet_id(*i).is_ok(), "an identifier that is not in the export is in use");
    }
    for i in &ids {
        sx::check(b.c.register_packet_id(*i).is_err(), "the identifier of a restored packet can be registered again");
    }
    if sx::param(12) != 0 {
        // exactly the exported identifiers are in use
        let q = sx::u16();
        let mut used = q == 0;
        for i in ids.iter().chain(owed.iter()) {
            used |= *i == q;
        }
        sx::check(b.c.register_packet_id(q).is_err() == used, "the identifiers in use after restore are not those of the restored packets");
        return;
    }
    one(&mut a, &mut g, Op::Closed);
    a.quiet = false;
    b.quiet = true;
    same_state(&a, &b, D);
    g.v = vary(p.v2);
    if nonempty && sx::param(11) != 0 {
        if let Some(op) = g.next(&a, sx::param(11)) {
            two(&mut a, &mut b, &mut g, op, D);
        }
    }
    let mut c = g.cfg(&a);
    c.clean = false;
    if p.v5 {
        c.sei = Some(10);
    }
    let con = if a.client { Op::SConnect(c) } else { Op::RConnect(c) };
    two(&mut a, &mut b, &mut g, con, D);
    let mut k = g.ack(&a);
    k.sp = true;
    let ack = if a.client { Op::RConnack(k) } else { Op::SConnack(k) };
    two(&mut a, &mut b, &mut g, ack, D);
    sx::reach("session resumed");
    for _ in 0..p.k2 {
        if let Some(op) = g.next(&a, p.a2) {
            two(&mut a, &mut b, &mut g, op, D);
        }
    }
    same_ids(&mut a, &mut b, D);
    done((a, b, g));
}

/// one entry of an export: kind 0 (PUBLISH QoS 0), 1, 2 (PUBLISH), 3 (PUBREL)
fn entry(v5: bool, kind: u8, id: u16, pl: u8) -> GenericStorePacket<u16> {
    let q = qos(if kind == 3 { 0 } else { kind });
    match (v5, kind) {
        (true, 3) => GenericStorePacket::V5_0Pubrel(v5_0::Pubrel::builder().packet_id(id).build().unwrap()),
        (false, 3) => GenericStorePacket::V3_1_1Pubrel(v3_1_1::Pubrel::builder().packet_id(id).build().unwrap()),
        (true, _) => {
            let b = v5_0::Publish::builder().topic_name("t").unwrap().qos(q).payload(vec![pl]);
            GenericStorePacket::V5_0Publish(if kind > 0 { b.packet_id(id).dup(true) } else { b }.build().unwrap())
        }
        (false, _) => {
            let b = v3_1_1::Publish::builder().topic_name("t").unwrap().qos(q).payload(vec![pl]);
            GenericStorePacket::V3_1_1Publish(if kind > 0 { b.packet_id(id).dup(true) } else { b }.build().unwrap())
        }
    }
}
/// any export: entries that cannot be restored (QoS 0, identifiers in use) are skipped, the others behave like stored packets.
/// params: version, entries, identifiers in the handled set, an identifier is in use before, restored in two calls
fn malformed<R: RoleType>(client: bool) {
    let v5 = sx::param(0) == 5;
    let (n, nh) = (sx::param(1), sx::param(2));
    let mut b = W::<R>::new(v5, client);
    b.quiet = true;
    let mut used: Vec<u16> = vec![];
    if sx::param(3) != 0 {
        let i = sx::u16();
        sx::assume(i != 0);
        sx::check(b.c.register_packet_id(i).is_ok(), "a free identifier cannot be registered");
        used.push(i);
    }
    let has = |l: &[u16], i: u16| l.iter().fold(false, |r, x| r | (*x == i));
    let mut acc: Vec<(u8, u16, Vec<u8>)> = vec![];
    let mut lists: [Vec<GenericStorePacket<u16>>; 2] = [vec![], vec![]];
    let cut = if sx::param(4) != 0 { 1 } else { n };
    for i in 0..n {
        let kind = sx::choose(4) as u8;
        let id = if kind == 0 { 0 } else { sx::u16() };
        sx::assume(kind == 0 || id != 0);
        let e = entry(v5, kind, id, i as u8);
        if kind == 0 {
            sx::reach("QoS 0 entry");
        } else if has(&used, id) {
            sx::reach("identifier in use");
        } else {
            used.push(id);
            acc.push((kind, id, wire_store(&e)));
        }
        lists[(i >= cut) as usize].push(e);
    }
    let hs: Vec<u16> = (0..nh).map(|_| sx::u16()).collect();
    let [l0, l1] = lists;
    b.c.restore_packets(l0);
    b.c.restore_packets(l1);
    b.c.restore_qos2_publish_handled(hs.iter().cloned().collect());
    let st: Vec<Vec<u8>> = b.stored().iter().map(wire_store).collect();
    sx::check(st.len() == acc.len(), "restore keeps other packets than the valid ones of the export");
    for i in 0..acc.len() {
        sx::check(eq_bytes(&st[i], &acc[i].2), "restore keeps other packets than the valid ones of the export");
    }
    if sx::coin() {
        let q = sx::u16();
        sx::check(b.c.register_packet_id(q).is_err() == ((q == 0) | has(&used, q)), "the identifiers in use after restore are not those of the restored packets");
        return;
    }
    let cfg = enc::Cfg { clean: false, sei: if v5 { Some(10) } else { None }, ..enc::Cfg::default() };
    let ack = enc::Ack { sp: true, ..enc::Ack::default() };
    let ev = if client {
        b.exec(&Op::SConnect(cfg));
        b.exec(&Op::RConnack(ack))
    } else {
        b.exec(&Op::RConnect(cfg));
        b.exec(&Op::SConnack(ack))
    };
    let out: Vec<Vec<u8>> = sends(&ev).into_iter().map(wire).skip(!client as usize).collect();
    sx::check(!has_error(&ev) && out.len() == acc.len(), "the restored packets are not retransmitted when the session is resumed");
    for i in 0..acc.len() {
        sx::check(eq_bytes(&out[i], &acc[i].2), "the restored packets are not retransmitted when the session is resumed");
    }
    sx::reach("session resumed");
    let id = sx::u16();
    sx::assume(id != 0);
    if nh > 0 {
        let h = has(&hs, id);
        let ev = b.exec(&Op::RPub { qos: 2, dup: true, id, topic: "t", alias: None, pl: 9 });
        let got = ev.iter().any(|e| matches!(e, mqtt::connection::GenericEvent::NotifyPacketReceived(_)));
        sx::check(got != h, "an inbound QoS 2 PUBLISH notified before the crash is notified again, or another one is not");
        return;
    }
    let kind = [1, 2, 3][sx::choose(3) as usize];
    let t = [4, 5, 7][kind as usize - 1];
    let m = acc.iter().fold(false, |r, e| r | ((e.0 == kind) & (e.1 == id)));
    let ev = b.exec(&Op::RAck { t, id, rc: None });
    sx::check(has_error(&ev) != m, "an acknowledgement of a restored packet is not accepted, or another one is");
    sx::check(released(&ev).len() == (m && t != 5) as usize, "an acknowledgement of a restored packet does not release its identifier, or another one does");
    if m {
        sx::reach("restored packet acknowledged");
    }
}

// ---------------------------------------------------------------- C11
struct Wrap<T, R>(std::cell::Cell<Option<T>>, PhantomData<R>);
trait Yes<R: RoleType> {
    fn go(&self, w: &mut W<R>) -> Option<Vec<Ev>>;
}
trait No<R: RoleType> {
    fn go(&self, w: &mut W<R>) -> Option<Vec<Ev>>;
}
impl<R: RoleType, T: Sendable<R, u16>> Yes<R> for Wrap<T, R> {
    fn go(&self, w: &mut W<R>) -> Option<Vec<Ev>> {
        Some(w.c.checked_send(self.0.take().unwrap()))
    }
}
impl<R: RoleType, T> No<R> for &Wrap<T, R> {
    fn go(&self, _w: &mut W<R>) -> Option<Vec<Ev>> {
        None
    }
}
macro_rules! checked {
    ($R:ty, $w:expr, $p:expr, $($v:ident $t:ident),*) => {
        match $p {
            $($v(x) => {
                let wrap: Wrap<$t, $R> = Wrap(std::cell::Cell::new(Some(x)), PhantomData);
                (&wrap).go($w)
            })*
        }
    };
}
type C4 = v3_1_1::Connect;
type K4 = v3_1_1::Connack;
type P4 = v3_1_1::Publish;
type A4 = v3_1_1::Puback;
type R4 = v3_1_1::Pubrec;
type L4 = v3_1_1::Pubrel;
type M4 = v3_1_1::Pubcomp;
type S4 = v3_1_1::Subscribe;
type T4 = v3_1_1::Suback;
type U4 = v3_1_1::Unsubscribe;
type V4 = v3_1_1::Unsuback;
type Q4 = v3_1_1::Pingreq;
type O4 = v3_1_1::Pingresp;
type D4 = v3_1_1::Disconnect;
type C5 = v5_0::Connect;
type K5 = v5_0::Connack;
type P5 = v5_0::Publish;
type A5 = v5_0::Puback;
type R5 = v5_0::Pubrec;
type L5 = v5_0::Pubrel;
type M5 = v5_0::Pubcomp;
type S5 = v5_0::Subscribe;
type T5 = v5_0::Suback;
type U5 = v5_0::Unsubscribe;
type V5 = v5_0::Unsuback;
type Q5 = v5_0::Pingreq;
type O5 = v5_0::Pingresp;
type D5 = v5_0::Disconnect;
type X5 = v5_0::Auth;
macro_rules! compile_time {
    ($name:ident, $R:ty) => {
        fn $name(w: &mut W<$R>, p: Pk) -> Option<Vec<Ev>> {
            use mqtt_protocol_core::mqtt::packet::GenericPacket::*;
            checked!($R, w, p,
                V3_1_1Connect C4, V3_1_1Connack K4, V3_1_1Publish P4, V3_1_1Puback A4, V3_1_1Pubrec R4, V3_1_1Pubrel L4, V3_1_1Pubcomp M4,
                V3_1_1Subscribe S4, V3_1_1Suback T4, V3_1_1Unsubscribe U4, V3_1_1Unsuback V4, V3_1_1Pingreq Q4, V3_1_1Pingresp O4, V3_1_1Disconnect D4,
                V5_0Connect C5, V5_0Connack K5, V5_0Publish P5, V5_0Puback A5, V5_0Pubrec R5, V5_0Pubrel L5, V5_0Pubcomp M5,
                V5_0Subscribe S5, V5_0Suback T5, V5_0Unsubscribe U5, V5_0Unsuback V5, V5_0Pingreq Q5, V5_0Pingresp O5, V5_0Disconnect D5, V5_0Auth X5)
        }
    };
}
compile_time!(ct_client, Client);
compile_time!(ct_server, Server);
compile_time!(ct_any, Any);

/// may a role send this kind of packet at all (MQTT table 2-1)
fn role_may(role: u8, v5: bool, t: u8) -> bool {
    let (c, s) = (role != 1, role != 0);
    match t {
        1 | 8 | 10 | 12 => c,
        2 | 9 | 11 | 13 => s,
        14 => c | v5,
        15 => v5,
        _ => true,
    }
}
fn state_may(st: St, t: u8, qos: u8, persist: bool, offline: bool) -> bool {
    match t {
        1 => st == St::Disc,
        2 => st == St::Ing,
        15 => st != St::Disc,
        3 => st == St::Ed || (qos > 0 && (persist || offline)),
        6 => st == St::Ed || persist || offline,
        _ => st == St::Ed,
    }
}
fn send_op(w5: bool, g: &mut G, id: u16) -> Op {
    let c = plain_cfg(w5, sx::coin());
    g.pl = g.pl.wrapping_add(1);
    match sx::choose(if w5 { 17 } else { 16 }) {
        0 => Op::SConnect(c),
        1 => Op::SConnack(plain_ack(sx::coin())),
        2 => Op::SPub { qos: 0, id: 0, topic: "a", alias: None, pl: g.pl },
        3 => Op::SPub { qos: 1, id, topic: "a", alias: None, pl: g.pl },
        4 => Op::SPub { qos: 2, id, topic: "a", alias: None, pl: g.pl },
        n @ 5..=8 => Op::SAck { t: n as u8 - 1, id, rc: None },
        9 => Op::SSub { t: 8, id },
        10 => Op::SSub { t: 10, id },
        11 => Op::SSuback { t: 9, id },
        12 => Op::SSuback { t: 11, id },
        13 => Op::SPing { t: 12 },
        14 => Op::SPing { t: 13 },
        15 => Op::SDisc,
        _ => Op::SAuth,
    }
}
/// role: 0 client, 1 server, 2 any
fn gate<R: RoleType>(role: u8, client: bool, ct: fn(&mut W<R>, Pk) -> Option<Vec<Ev>>) {
    const D: &str = "after a refused send the connection behaves differently from one where the call was not made";
    let p = par();
    let mut a = W::<R>::new(p.v5, client);
    let mut b = W::<R>::new(p.v5, client);
    let mut e = W::<R>::new(p.v5, client);
    b.quiet = true;
    e.quiet = true;
    options(&mut a, p.auto);
    options(&mut b, p.auto);
    options(&mut e, p.auto);
    let mut g = gen_of(&p);
    let mut offline = false;
    let all = |a: &mut W<R>, b: &mut W<R>, e: &mut W<R>, g: &mut G, op: Op| {
        let op = resolve2(a, b, op, D);
        let fresh = matches!(&op, Op::SPub { qos, .. } if *qos > 0) || matches!(&op, Op::SSub { .. });
        if fresh {
            let _ = e.c.acquire_packet_id();
        }
        let ea = a.exec(&op);
        b.exec(&op);
        e.exec(&op);
        g.after(a, &op, &ea);
    };
    prefix(p.pre, |x| {
        if let Some(op) = make_pre(&a, &mut g, x, p.pacts) {
            all(&mut a, &mut b, &mut e, &mut g, op);
        }
    });
    for _ in 0..p.k1 {
        if let Some(op) = g.next(&a, p.a1) {
            if let Op::SetOffline(x) = &op {
                offline = *x;
            }
            all(&mut a, &mut b, &mut e, &mut g, op);
        }
    }
    // after its DISCONNECT an endpoint is disconnected before the transport is
    let closing = g.must_close && a.st == St::Disc && sx::coin();
    if closing {
        sx::reach("after DISCONNECT");
    } else if g.must_close {
        all(&mut a, &mut b, &mut e, &mut g, Op::Closed);
    }
    // the identifier of the packet: one the application holds, or an arbitrary one that is free or 0
    let mut id = a.c.acquire_packet_id().unwrap();
    b.c.acquire_packet_id().unwrap();
    e.c.acquire_packet_id().unwrap();
    let owned = sx::coin();
    let spare = id;
    if !owned {
        id = sx::u16();
        sx::assume(id != 0);
        let f = a.c.register_packet_id(id).is_ok();
        sx::assume(f);
        a.c.release_packet_id(id);
    }
    let w5 = sx::coin();
    let op = send_op(w5, &mut g, id);
    let t = op.ptype();
    sx::assume(!closing || t != 1);
    let qos = if let Op::SPub { qos, .. } = &op { *qos } else { 0 };
    let pk = packet(w5, &op);
    let st = a.st;
    let carries = matches!(t, 8 | 10) || (t == 3 && qos > 0);
    let may = w5 == p.v5 && role_may(role, w5, t) && state_may(st, t, qos, a.persist, offline) && (owned || !(carries || t == 6));
    let ea = a.c.send(pk.clone());
    obs(&ea);
    // the same packet through the compile-time-checked entry
    let ee = ct(&mut e, pk);
    sx::check(ee.is_some() == role_may(role, w5, t), "checked_send does not accept exactly the packets the role may send");
    if let Some(ee) = ee {
        sx::check(equal(&ea, &ee), "checked_send and send differ");
    }
    if may {
        sx::reach("packet allowed");
        sx::check(!has_error(&ea), "an allowed packet is refused");
        sx::check(sends(&ea).iter().filter(|p| ptype(p) == t).count() == (st == St::Ed || t <= 2 || t == 15) as usize, "an allowed packet is not requested for sending exactly once");
        return;
    }
    sx::reach("packet refused");
    let rel = carries && owned;
    sx::check(errors(&ea).len() == 1 && ea.len() == 1 + rel as usize, "a refused packet has other effects than an error and the release of its identifier");
    sx::check(released(&ea).len() == rel as usize && released(&ea).iter().all(|x| *x == id), "a refused packet does not release exactly its identifier");
    if rel {
        b.c.release_packet_id(spare);
    }
    same_state(&a, &b, D);
    g.v = vary(p.v2);
    for _ in 0..p.k2 {
        if let Some(op) = g.next(&a, p.a2) {
            two(&mut a, &mut b, &mut g, op, D);
        }
    }
    same_ids(&mut a, &mut b, D);
    done((a, b, e, g));
}

/// role: 0 client, 1 server, 2 any; the version is not known yet: nothing may be sent
fn gate_undetermined<R: RoleType>(role: u8, ct: fn(&mut W<R>, Pk) -> Option<Vec<Ev>>) {
    const D: &str = "after a refused send the connection behaves differently from one where the call was not made";
    let p = par();
    let mk = || {
        let mut w = W::<R>::new(p.v5, false);
        w.c = mqtt::connection::GenericConnection::new(Version::Undetermined);
        options(&mut w, p.auto);
        w
    };
    let (mut a, mut b, mut e) = (mk(), mk(), mk());
    b.quiet = true;
    e.quiet = true;
    let mut g = gen_of(&p);
    if sx::coin() {
        let op = Op::SetOffline(true);
        a.exec(&op);
        b.exec(&op);
        e.exec(&op);
    }
    for _ in 0..p.k1 {
        let mut id = a.c.acquire_packet_id().unwrap();
        b.c.acquire_packet_id().unwrap();
        e.c.acquire_packet_id().unwrap();
        let spare = id;
        let owned = sx::coin();
        if !owned {
            id = sx::u16();
            sx::assume(id != 0);
            let f = a.c.register_packet_id(id).is_ok();
            sx::assume(f);
            a.c.release_packet_id(id);
        }
        let w5 = sx::coin();
        let op = send_op(w5, &mut g, id);
        let t = op.ptype();
        let qos = if let Op::SPub { qos, .. } = &op { *qos } else { 0 };
        let pk = packet(w5, &op);
        let carries = matches!(t, 8 | 10) || (t == 3 && qos > 0);
        let ea = a.c.send(pk.clone());
        obs(&ea);
        let ee = ct(&mut e, pk);
        sx::check(ee.is_some() == role_may(role, w5, t), "checked_send does not accept exactly the packets the role may send");
        match ee {
            Some(ee) => sx::check(equal(&ea, &ee), "checked_send and send differ"),
            None => {
                if carries && owned {
                    e.c.release_packet_id(spare);
                }
            }
        }
        let rel = carries && owned;
        sx::check(errors(&ea).len() == 1 && ea.len() == 1 + rel as usize, "a refused packet has other effects than an error and the release of its identifier");
        sx::check(released(&ea).len() == rel as usize && released(&ea).iter().all(|x| *x == id), "a refused packet does not release exactly its identifier");
        sx::check(a.c.get_protocol_version() == Version::Undetermined, "a refused packet sets the version");
        sx::reach("packet refused while the version is undetermined");
        if rel {
            b.c.release_packet_id(spare);
        }
        same_state(&a, &b, D);
    }
    if role != 0 {
        g.v = vary(p.v2);
        prefix(p.pre, |x| {
            if let Some(op) = make_pre(&a, &mut g, x, p.pacts) {
                two(&mut a, &mut b, &mut g, op, D);
            }
        });
        for _ in 0..p.k2 {
            if let Some(op) = g.next(&a, p.a2) {
                two(&mut a, &mut b, &mut g, op, D);
            }
        }
    }
    same_ids(&mut a, &mut b, D);
    done((a, b, e, g));
}

// ---------------------------------------------------------------- C17
/// a packet the peer may never send to this side, or a second CONNECT / CONNACK
fn forbidden<R: RoleType>(role: u8, w: &W<R>, g: &mut G) -> Op {
    let v5 = w.v5;
    let mut k: Vec<u8> = vec![0];
    if role == 0 {
        k.extend([1, 8, 10, 12]);
        if !v5 {
            k.push(14);
        }
    }
    if role == 1 {
        k.extend([2, 9, 11, 13]);
    }
    if !v5 {
        k.push(15);
    }
    if w.st == St::Ed {
        k.push(if w.client { 102 } else { 101 });
    } else if w.st == St::Ing && !w.client {
        k.push(101);
    }
    let id = g.rid();
    let raw = |t: u8| {
        // the kind with an arbitrary body
        let n = sx::choose(4) as usize;
        let mut f = vec![0u8; n + 2];
        sx::fill(&mut f);
        sx::assume(f[0] >> 4 == t);
        f[0] = t << 4 | f[0] & 15;
        f[1] = n as u8;
        Op::RRaw(f)
    };
    let t = k[sx::choose(k.len() as u32) as usize];
    if t < 100 && (t == 0 || sx::coin()) {
        return raw(t);
    }
    match t {
        1 => Op::RConnect(plain_cfg(v5, sx::coin())),
        2 => Op::RConnack(plain_ack(sx::coin())),
        8 | 10 => Op::RSub { t, id },
        9 | 11 => Op::RSuback { t, id, rc: 0 },
        12 | 13 => Op::RPing { t },
        14 => Op::RDisc { rc: None },
        101 => {
            let c = g.cfg(w);
            Op::RConnect(c)
        }
        102 => {
            let mut a = g.ack(w);
            a.sp = sx::coin();
            Op::RConnack(a)
        }
        _ => Op::RAuth,
    }
}
fn rgate<R: RoleType>(role: u8, client: bool) {
    const D: &str = "a packet that must be rejected changed the session";
    let p = par();
    let mut a = W::<R>::new(p.v5, client);
    let mut b = W::<R>::new(p.v5, client);
    b.quiet = true;
    options(&mut a, p.auto);
    options(&mut b, p.auto);
    let mut g = gen_of(&p);
    let vr = g.v;
    g.v.session = false;
    prefix(p.pre, |x| {
        if let Some(op) = make_pre(&a, &mut g, x, p.pacts) {
            two(&mut a, &mut b, &mut g, op, D);
        }
    });
    g.v = vr;
    for _ in 0..p.k1 {
        if let Some(op) = g.next(&a, p.a1) {
            two(&mut a, &mut b, &mut g, op, D);
        }
    }
    sx::assume(!g.must_close);
    g.v = vary(p.v2);
    let op = forbidden(role, &a, &mut g);
    let st = a.st;
    let bytes = wire_of(p.v5, &op);
    let ev = a.recv(&bytes);
    obs(&ev);
    sx::check(has_error(&ev), "a packet that the peer may not send is not reported");
    sx::check(notified(&ev).is_empty(), "a packet that the peer may not send is delivered");
    sx::check(sends(&ev).iter().all(|p| ptype(p) == 14 && st == St::Ed), "a packet that the peer may not send is answered");
    sx::check(released(&ev).is_empty(), "a packet that the peer may not send releases identifiers");
    sx::reach("forbidden packet rejected");
    same_export(&a, &b, D);
    // both transports are gone; the session goes on
    let ea = no_timers(a.exec(&Op::Closed));
    let eb = no_timers(b.exec(&Op::Closed));
    sx::check(equal(&ea, &eb), D);
    g.after(&a, &Op::Closed, &ea);
    g.armed = [false; 3];
    let mut c = g.cfg(&a);
    c.clean = false;
    two(&mut a, &mut b, &mut g, if client { Op::SConnect(c) } else { Op::RConnect(c) }, D);
    let mut k = g.ack(&a);
    k.sp = true;
    two(&mut a, &mut b, &mut g, if client { Op::RConnack(k) } else { Op::SConnack(k) }, D);
    for _ in 0..p.k2 {
        if let Some(op) = g.next(&a, p.a2) {
            two(&mut a, &mut b, &mut g, op, D);
        }
    }
    same_ids(&mut a, &mut b, D);
    done((a, b, g));
}
/// exported session only
fn same_export<R: RoleType>(a: &W<R>, b: &W<R>, m: &'static str) {
    let (x, y) = (a.stored(), b.stored());
    let mut ok = x.len() == y.len();
    if ok {
        for i in 0..x.len() {
            ok &= eq_bytes(&wire_store(&x[i]), &wire_store(&y[i]));
        }
    }
    let h: Vec<u16> = a.c.get_qos2_publish_handled().into_iter().collect();
    let k: Vec<u16> = b.c.get_qos2_publish_handled().into_iter().collect();
    sx::check(ok && set_eq(&h, &k), m);
}
fn undetermined() {
    const D: &str = "a server that adopted its version behaves differently from one created with it";
    let p = par();
    let v5 = p.v5;
    let mut a = W::<Server>::new(v5, false);
    a.c = mqtt::connection::GenericConnection::new(Version::Undetermined);
    let mut b = W::<Server>::new(v5, false);
    b.quiet = true;
    options(&mut a, p.auto);
    options(&mut b, p.auto);
    let mut g = gen_of(&p);
    // packets that are not an acceptable CONNECT come first
    for _ in 0..p.k1 {
        let f = match sx::choose(3) {
            0 => {
                // not CONNECT: any other type, any body
                let n = sx::choose(4) as usize;
                let mut f = vec![0u8; n + 2];
                sx::fill(&mut f);
                sx::assume(f[0] >> 4 != 1);
                f[1] = n as u8;
                f
            }
            1 => {
                // CONNECT of an arbitrary other level
                let mut f = enc::connect(v5, &plain_cfg(v5, true));
                f[8] = sx::u8();
                sx::assume((f[8] != 4) & (f[8] != 5));
                f
            }
            _ => {
                // CONNECT cut short before its level
                let n = sx::choose(7) as usize;
                let mut f = enc::connect(v5, &plain_cfg(v5, true));
                f.truncate(2 + n);
                f[1] = n as u8;
                f
            }
        };
        let ev = a.recv(&f);
        obs(&ev);
        sx::check(has_error(&ev) && notified(&ev).is_empty() && sends(&ev).is_empty(), "an undetermined server does not reject a first packet other than CONNECT of level 4 or 5");
        sx::check(a.c.get_protocol_version() == Version::Undetermined, "an undetermined server adopted a version from a packet it rejected");
        sx::reach("first packet rejected");
        let ev = a.exec(&Op::Closed);
        sx::check(ev.is_empty(), "closing has effects");
    }
    let mut g2 = G::new(vary(p.v2));
    g2.auto_pub = g.auto_pub;
    std::mem::swap(&mut g, &mut g2);
    prefix(p.pre, |x| {
        if let Some(op) = make_pre(&a, &mut g, x, p.pacts) {
            two(&mut a, &mut b, &mut g, op, D);
        }
    });
    sx::check(a.c.get_protocol_version() == if v5 { Version::V5_0 } else { Version::V3_1_1 }, "the version of the first CONNECT is not adopted");
    sx::reach("version adopted");
    for _ in 0..p.k2 {
        if let Some(op) = g.next(&a, p.a2) {
            two(&mut a, &mut b, &mut g, op, D);
        }
    }
    done((a, b, g));
}
/// CONNECT with two arbitrary bytes somewhere, given to an undetermined server and to the server of its level
fn undetermined_connect() {
    const D: &str = "a server that adopted its version behaves differently from one created with it";
    let v5 = sx::param(0) == 5;
    let mut a = W::<Server>::new(v5, false);
    a.c = mqtt::connection::GenericConnection::new(Version::Undetermined);
    let mut b = W::<Server>::new(v5, false);
    b.quiet = true;
    let c = enc::Cfg { clean: sx::coin(), ka: 1, sei: Some(1), rm: Some(1), tam: Some(1), mps: Some(100) };
    let mut f = enc::connect(v5, &c);
    let n = f.len();
    let k = 1 + sx::choose(n as u32 - 1) as usize;
    if k == 1 {
        f[0] = 0x10 | sx::below(16);
    } else {
        sx::fill(&mut f[k..(k + 2).min(n)]);
    }
    sx::assume(f[8] == if v5 { 5 } else { 4 });
    let ea = a.recv(&f);
    let eb = b.recv(&f);
    obs(&ea);
    sx::check(equal(&ea, &eb), D);
    if notified_type(&ea, 1) {
        sx::reach("CONNECT accepted");
        sx::check(a.c.get_protocol_version() == if v5 { Version::V5_0 } else { Version::V3_1_1 }, "the version of the first CONNECT is not adopted");
    } else {
        sx::check(has_error(&ea), "a rejected CONNECT is not reported");
    }
    let mut g = G::new(Vary::default());
    for _ in 0..sx::param(1) {
        if let Some(op) = g.next(&a, CLOSED | PUB0 | CONNACK | CONNECT | R_PUB0 | ANYTIME | R_ANYTIME) {
            if matches!(op, Op::RConnect(_)) && a.c.get_protocol_version() == Version::Undetermined {
                break;
            }
            two(&mut a, &mut b, &mut g, op, D);
        }
    }
    done((a, b, g));
}

entries! {
    h10_client => { fn f() { reuse::<Client>(true) } f },
    h10_server => { fn f() { reuse::<Server>(false) } f },
    h10_any_c => { fn f() { reuse::<Any>(true) } f },
    h10_any_s => { fn f() { reuse::<Any>(false) } f },
    h16_client => { fn f() { restore::<Client>(true) } f },
    h16_server => { fn f() { restore::<Server>(false) } f },
    h16x_client => { fn f() { malformed::<Client>(true) } f },
    h16x_server => { fn f() { malformed::<Server>(false) } f },
    h11_client => { fn f() { gate::<Client>(0, true, ct_client) } f },
    h11_server => { fn f() { gate::<Server>(1, false, ct_server) } f },
    h11_any_c => { fn f() { gate::<Any>(2, true, ct_any) } f },
    h11_undet_c => { fn f() { gate_undetermined::<Client>(0, ct_client) } f },
    h11_undet_s => { fn f() { gate_undetermined::<Server>(1, ct_server) } f },
    h11_undet_a => { fn f() { gate_undetermined::<Any>(2, ct_any) } f },
    h11_any_s => { fn f() { gate::<Any>(2, false, ct_any) } f },
    h17_client => { fn f() { rgate::<Client>(0, true) } f },
    h17_server => { fn f() { rgate::<Server>(1, false) } f },
    h17_any_c => { fn f() { rgate::<Any>(2, true) } f },
    h17_any_s => { fn f() { rgate::<Any>(2, false) } f },
    h17_undet => undetermined,
    h17_undet_c => undetermined_connect,
}
