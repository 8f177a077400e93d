//! One connection object against the bookkeeping of model.rs.
#[path = "../sx.rs"]
#[macro_use]
mod sx;
#[cfg(feature = "native")]
#[path = "../native.rs"]
mod native;
#[path = "../enc.rs"]
mod enc;
#[path = "../gen.rs"]
mod gen;
#[path = "../model.rs"]
mod model;
#[path = "../world.rs"]
mod world;
use gen::*;
use model::*;
use mqtt_protocol_core::mqtt::role::RoleType;
use world::*;

fn step<R: RoleType>(w: &mut W<R>, g: &mut G, m: &mut M, op: Op) {
    let was = w.st;
    let held = g.held.clone();
    let op = w.resolve_m(op, m, &held);
    let ev = w.exec(&op);
    m.step(w, &op, was, &ev);
    g.after(w, &op, &ev);
    done(ev);
}
impl<R: RoleType> W<R> {
    fn resolve_m(&mut self, op: Op, m: &mut M, _held: &[u16]) -> Op {
        let fresh = matches!(op, Op::SPub { qos, id: 0, .. } if qos > 0) || matches!(op, Op::SSub { id: 0, .. });
        let op = self.resolve(op);
        if fresh {
            if let Op::SPub { id, .. } | Op::SSub { id, .. } = &op {
                m.used.push(*id);
            }
        }
        // correct use: an identifier serves one exchange at a time
        if let Op::SPub { id, qos, .. } = &op {
            if *qos > 0 {
                for e in &m.ex {
                    sx::assume(e.id != *id);
                }
            }
        }
        if let Op::Restart(_) = &op {
            let l: Vec<u16> = m.used.iter().cloned().filter(|i| !m.store.iter().any(|s| s.id == *i)).collect();
            return Op::Restart(l);
        }
        if let Op::Release(id) = &op {
            for e in &m.store {
                sx::assume(e.id != *id);
            }
        }
        op
    }
}
/// params: version, steps, acts, auto bits, facets, vary bits, prefix, prefix acts
fn run<R: RoleType>(client: bool) {
    let v5 = sx::param(0) == 5;
    let mut w = W::<R>::new(v5, client);
    let k = sx::param(1);
    let acts = sx::param(2);
    let auto = sx::param(3);
    let f = sx::param(4);
    let vb = sx::param(5);
    let mut m = M::new(f, v5);
    m.auto_pub = auto & 1 != 0;
    m.auto_ping = auto & 2 != 0;
    m.resp_ms = if auto & 16 != 0 { 1000 } else { 0 };
    w.opts = Opts { auto_pub: m.auto_pub, auto_ping: m.auto_ping, map: auto & 4 != 0, replace: auto & 8 != 0, resp: m.resp_ms, ..Opts::default() };
    w.options();
    let b = |i: u64| vb >> i & 1 != 0;
    let n = |i: u64| (vb >> i & 15) as u16;
    let mut g = G::new(Vary {
        session: b(0),
        ka: b(1),
        fail: b(2),
        peer_mps: b(3),
        my_mps: b(4),
        nopersist: b(5),
        ack_sei: b(6),
        tam0: b(7),
        peer_rm: n(8),
        my_rm: n(12),
        peer_tam: n(16),
        my_tam: n(20),
        flip: b(24),
    });
    g.auto_pub = m.auto_pub;
    g.sym = n(28) as u32;
    // fixed beginning; the session is a persistent one there unless bit 25 is set
    let vary = g.v;
    if !b(25) {
        g.v.session = false;
        g.v.ack_sei = false;
        g.v.fail = false;
    }
    let pacts = sx::param(7);
    for part in 0..2 {
        let mut pre = sx::param(6 + 2 * part);
        while pre != 0 {
            let a = 1u64 << ((pre & 63) - 1);
            pre >>= 6;
            if g.must_close && a != CLOSED {
                sx::prune(&[]);
                sx::assume(false);
            }
            let op = if a == ANSWER && g.owe.is_empty() && g.owe_rel.is_empty() { None } else { Some(g.make(&w, a, pacts)) };
            if let Some(op) = op {
                step(&mut w, &mut g, &mut m, op);
            }
        }
    }
    g.v = vary;
    for _ in 0..k {
        if g.v.flip && w.st == St::Disc {
            w.client = sx::coin();
        }
        if let Some(op) = g.next(&w, acts) {
            step(&mut w, &mut g, &mut m, op);
        }
        if m.fin {
            break;
        }
    }
    m.last(&mut w);
    done((w, g, m));
}
fn client() {
    run::<Client>(true)
}
fn server() {
    run::<Server>(false)
}
fn any_c() {
    run::<Any>(true)
}
fn any_s() {
    run::<Any>(false)
}
/// every identifier in use at once; then any one of them freed and handed out again.  params: version
fn exhaust() {
    let mut w = W::<Client>::new(sx::param(0) == 5, true);
    for i in 1..=65535u16 {
        let r = w.c.acquire_packet_id();
        if r != Ok(i) {
            sx::fail("acquire does not hand out every identifier");
        }
    }
    sx::check(w.c.acquire_packet_id().is_err(), "acquire succeeds although every identifier is in use");
    let q = sx::u16();
    sx::check(w.c.register_packet_id(q).is_err(), "register succeeds although every identifier is in use");
    let ev = w.c.release_packet_id(q);
    sx::check(same_set(&released(&ev), if q != 0 { std::slice::from_ref(&q) } else { &[] }), "release of an identifier in use is not announced exactly once");
    let ev = w.c.release_packet_id(q);
    sx::check(ev.is_empty(), "release of a free identifier has effects");
    let r = w.c.acquire_packet_id();
    sx::check(r.is_ok() == (q != 0) && r.map_or(true, |x| x == q), "the freed identifier is not handed out again");
    sx::check(w.c.acquire_packet_id().is_err(), "acquire succeeds although every identifier is in use");
    sx::reach("all identifiers in use");
    done(w);
}
/// identifier management with 32 bit identifiers.  params: version, steps
fn ids32() {
    use mqtt_protocol_core::mqtt::connection::GenericConnection;
    let mut c = GenericConnection::<Client, u32>::new(if sx::param(0) == 5 { Version::V5_0 } else { Version::V3_1_1 });
    let mut used: Vec<u32> = vec![];
    let inuse = |u: &Vec<u32>, v: u32| {
        let mut r = false;
        for x in u {
            r |= *x == v;
        }
        r
    };
    for _ in 0..sx::param(1) {
        match sx::choose(3) {
            0 => match c.acquire_packet_id() {
                Ok(v) => {
                    sx::check((v != 0) & !inuse(&used, v), "acquire returned 0 or an identifier in use");
                    used.push(v);
                }
                Err(_) => sx::fail("acquire failed although identifiers are free"),
            },
            1 => {
                let v = sx::u32();
                let ok = c.register_packet_id(v).is_ok();
                sx::check(ok == ((v != 0) & !inuse(&used, v)), "register does not succeed exactly for free identifiers");
                if ok {
                    used.push(v);
                }
            }
            _ => {
                let v = sx::u32();
                let ev = c.release_packet_id(v);
                let was = inuse(&used, v);
                let one = ev.len() == 1 && matches!(&ev[0], mqtt_protocol_core::mqtt::connection::event::GenericEvent::NotifyPacketIdReleased(x) if *x == v);
                sx::check(if was { one } else { ev.is_empty() }, "release is not announced exactly when an identifier becomes free");
                if was {
                    used.retain(|x| *x != v);
                }
            }
        }
    }
    let q = sx::u32();
    sx::check(c.register_packet_id(q).is_ok() == ((q != 0) & !inuse(&used, q)), "an identifier can be registered although it is in use, or not although it is free");
    done((c, used));
}
entries! { h_exhaust => exhaust, h_ids32 => ids32, h_client => client, h_server => server, h_any_c => any_c, h_any_s => any_s }
