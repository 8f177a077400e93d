//! Two connection objects driven in lockstep.
#![allow(dead_code)]
use crate::enc::{Ack, Cfg};
use crate::gen::*;
use crate::sx;
use crate::world::*;
use mqtt_protocol_core::mqtt::connection::event::GenericEvent;
use mqtt_protocol_core::mqtt::role::RoleType;

pub fn options<R: RoleType>(w: &mut W<R>, auto: u64) {
    w.c.set_auto_pub_response(auto & 1 != 0);
    w.c.set_auto_ping_response(auto & 2 != 0);
    w.c.set_auto_map_topic_alias_send(auto & 4 != 0);
    w.c.set_auto_replace_topic_alias_send(auto & 8 != 0);
    w.c.set_pingresp_recv_timeout(if auto & 16 != 0 { 1000 } else { 0 });
}
pub fn vary(vb: u64) -> Vary {
    let b = |i: u64| vb >> i & 1 != 0;
    let n = |i: u64| (vb >> i & 15) as u16;
    Vary {
        session: b(0),
        ka: b(1),
        fail: b(2),
        peer_mps: b(3),
        my_mps: b(4),
        nopersist: b(5),
        ack_sei: b(6),
        tam0: b(7),
        peer_rm: n(8),
        my_rm: n(12),
        peer_tam: n(16),
        my_tam: n(20),
        flip: b(24),
    }
}
/// one object, no comparison
pub fn one<R: RoleType>(a: &mut W<R>, g: &mut G, op: Op) -> Vec<Ev> {
    let op = a.resolve(op);
    let ev = a.exec(&op);
    g.after(a, &op, &ev);
    ev
}
/// resolves the identifier of an operation on both objects
pub fn resolve2<R: RoleType>(a: &mut W<R>, b: &mut W<R>, op: Op, m: &'static str) -> Op {
    let fresh = matches!(op, Op::SPub { qos, id: 0, .. } if qos > 0) || matches!(op, Op::SSub { id: 0, .. });
    let op = a.resolve(op);
    if fresh {
        let y = b.c.acquire_packet_id().unwrap_or(0);
        if let Op::SPub { id, .. } | Op::SSub { id, .. } = &op {
            sx::check(*id == y, m);
        }
    }
    op
}
/// the same operation on both: same events, same answers, same exported state
pub fn two<R: RoleType>(a: &mut W<R>, b: &mut W<R>, g: &mut G, op: Op, m: &'static str) {
    let op = resolve2(a, b, op, m);
    let ea = a.exec(&op);
    let eb = b.exec(&op);
    sx::check(equal(&ea, &eb), m);
    match op {
        Op::Acquire => sx::check(a.last_id == b.last_id, m),
        Op::Register(_) => sx::check(a.last_ok == b.last_ok, m),
        _ => {}
    }
    g.after(a, &op, &ea);
    same_state(a, b, m);
    done((ea, eb));
}
pub fn same_state<R: RoleType>(a: &W<R>, b: &W<R>, m: &'static str) {
    let (x, y) = (a.stored(), b.stored());
    let mut ok = x.len() == y.len();
    if ok {
        for i in 0..x.len() {
            ok &= eq_bytes(&wire_store(&x[i]), &wire_store(&y[i]));
        }
    }
    let h: Vec<u16> = a.c.get_qos2_publish_handled().into_iter().collect();
    let k: Vec<u16> = b.c.get_qos2_publish_handled().into_iter().collect();
    ok &= set_eq(&h, &k);
    ok &= a.c.get_receive_maximum_vacancy_for_send() == b.c.get_receive_maximum_vacancy_for_send();
    ok &= a.c.get_protocol_version() == b.c.get_protocol_version();
    sx::check(ok, m);
    done((x, y, h, k));
}
pub fn set_eq(a: &[u16], b: &[u16]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for x in a {
        let mut n = false;
        for y in b {
            n |= *x == *y;
        }
        ok &= n;
    }
    ok
}
/// an arbitrary identifier is free on both or on neither
pub fn same_ids<R: RoleType>(a: &mut W<R>, b: &mut W<R>, m: &'static str) {
    let q = sx::u16();
    let x = a.c.register_packet_id(q).is_ok();
    let y = b.c.register_packet_id(q).is_ok();
    sx::check(x == y, m);
}
/// fixed beginning (two parameters with six bits per operation)
pub fn prefix(p: [u64; 2], mut f: impl FnMut(u64)) {
    for mut pre in p {
        while pre != 0 {
            f(1u64 << ((pre & 63) - 1));
            pre >>= 6;
        }
    }
}
pub fn no_timers(ev: Vec<Ev>) -> Vec<Ev> {
    ev.into_iter().filter(|e| !matches!(e, GenericEvent::RequestTimerReset { .. } | GenericEvent::RequestTimerCancel(_))).collect()
}
pub fn plain_cfg(w5: bool, clean: bool) -> Cfg {
    Cfg { clean, sei: if w5 && !clean { Some(10) } else { None }, ..Cfg::default() }
}
pub fn plain_ack(sp: bool) -> Ack {
    Ack { sp, ..Ack::default() }
}
