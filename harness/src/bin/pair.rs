//! C01: a client object and a server object exchange the bytes each requests to send, over two FIFO byte streams,
//! under every schedule of deliveries, workload and transport losses (sleep sets keep one schedule per class of
//! schedules that differ only in the order of steps of different endpoints).
#[path = "../sx.rs"]
#[macro_use]
mod sx;
#[cfg(feature = "native")]
#[path = "../native.rs"]
mod native;
#[path = "../enc.rs"]
mod enc;
#[path = "../world.rs"]
mod world;
use enc::{Ack, Cfg};
use mqtt_protocol_core::mqtt;
use mqtt_protocol_core::mqtt::connection::event::GenericEvent;
use mqtt_protocol_core::mqtt::connection::{GenericConnection, Sendable};
use mqtt_protocol_core::mqtt::packet::{v3_1_1, v5_0, GenericPacket, Property, TopicAlias};
use mqtt_protocol_core::mqtt::result_code::MqttError;
use mqtt_protocol_core::mqtt::role::RoleType;
use world::*;

const PUB0: u64 = 1;
const PUB1: u64 = 2;
const PUB2: u64 = 4;
const SUBS: u64 = 8;
const UNSUBS: u64 = 16;
const PINGS: u64 = 32;
/// PUBLISH registers / uses a topic alias
const ALIAS: u64 = 64;
const BIG: u64 = 128;
const TOPICS: u64 = 256;
const TOPIC: [&str; 2] = ["a", "bb"];

struct Msg {
    client: bool,
    qos: u8,
    topic: &'static str,
    payload: Vec<u8>,
    delivered: u32,
}
struct End<R: RoleType> {
    c: GenericConnection<R, u16>,
    client: bool,
    /// frames on their way to this endpoint; `part` bytes of the first one have been handed over
    q: Vec<Vec<u8>>,
    part: usize,
    parts_left: u64,
    /// what the application owes
    owe: Vec<Op>,
    items: u64,
    kinds: u64,
    auto_pub: bool,
    auto_ping: bool,
    timer: bool,
    timers_left: u64,
    aliased: [Option<&'static str>; 3],
}
struct X<A: RoleType, B: RoleType> {
    v5: bool,
    a: End<A>,
    b: End<B>,
    msgs: Vec<Msg>,
    cfg: Cfg,
    ack: Ack,
    up: bool,
    /// the server knows the session
    session: bool,
    losses: u64,
    lost: bool,
    steps: u32,
    cuts: u64,
}
fn end<R: RoleType>(v5: bool, client: bool, items: u64, kinds: u64, auto: u64, parts: u64, timers: u64) -> End<R> {
    let mut c = GenericConnection::<R, u16>::new(if v5 { Version::V5_0 } else { Version::V3_1_1 });
    c.set_auto_pub_response(auto & 1 != 0);
    c.set_auto_ping_response(auto & 2 != 0);
    c.set_auto_map_topic_alias_send(auto & 4 != 0);
    c.set_auto_replace_topic_alias_send(auto & 8 != 0);
    End { c, client, q: vec![], part: 0, parts_left: parts, owe: vec![], items, kinds, auto_pub: auto & 1 != 0, auto_ping: auto & 2 != 0, timer: false, timers_left: timers, aliased: [None; 3] }
}
/// what one endpoint's call did, for the other endpoint
struct Out {
    frames: Vec<Vec<u8>>,
    connect: bool,
    connack: bool,
}
impl<R: RoleType> End<R> {
    /// events of a call; `own`: the call offered a packet that may be refused (1 for a limit, 2 for its topic alias too)
    fn take(&mut self, v5: bool, ev: Vec<Ev>, own: u8, msgs: &mut Vec<Msg>) -> Out {
        obs(&ev);
        let mut o = Out { frames: vec![], connect: false, connack: false };
        for e in &ev {
            match e {
                GenericEvent::NotifyError(x) => {
                    let limit = own > 1 || matches!(x, MqttError::ReceiveMaximumExceeded | MqttError::PacketTooLarge | MqttError::PacketNotRegulated | MqttError::TopicAliasInvalid);
                    sx::check(own > 0 && limit, "an endpoint reports an error although the other one behaves");
                }
                GenericEvent::RequestClose => sx::fail("an endpoint closes the connection although the other one behaves"),
                GenericEvent::RequestSendPacket { packet, .. } => {
                    sx::check(ptype(packet) != 14, "an endpoint disconnects although the other one behaves");
                    o.frames.push(wire(packet));
                }
                GenericEvent::RequestTimerReset { kind, .. } => {
                    if let PingreqSend = kind {
                        self.timer = true
                    }
                }
                GenericEvent::RequestTimerCancel(PingreqSend) => self.timer = false,
                GenericEvent::NotifyPacketReceived(p) => {
                    let id = pid(p).unwrap_or(0);
                    match ptype(p) {
                        1 => o.connect = true,
                        2 => o.connack = true,
                        3 => self.delivered(p, msgs),
                        5 if !self.auto_pub => self.owe.push(Op::SAck { t: 6, id, rc: None }),
                        6 if !self.auto_pub => self.owe.push(Op::SAck { t: 7, id, rc: None }),
                        8 => self.owe.push(Op::SSuback { t: 9, id }),
                        10 => self.owe.push(Op::SSuback { t: 11, id }),
                        12 if !self.auto_ping => self.owe.push(Op::SPing { t: 13 }),
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        let _ = v5;
        done(ev);
        o
    }
    fn delivered(&mut self, p: &Pk, msgs: &mut Vec<Msg>) {
        let (q, pl): (u8, Vec<u8>) = match p {
            GenericPacket::V3_1_1Publish(p) => (p.qos() as u8, p.payload().as_slice().to_vec()),
            GenericPacket::V5_0Publish(p) => (p.qos() as u8, p.payload().as_slice().to_vec()),
            _ => sx::fail("not a PUBLISH"),
        };
        let i = if pl.is_empty() { 99 } else { pl[0] as usize };
        if i >= msgs.len() || msgs[i].client == self.client {
            sx::fail("a message is delivered that nobody sent");
        }
        let m = &mut msgs[i];
        m.delivered += 1;
        sx::check((m.qos == q) & eq_bytes(m.topic.as_bytes(), topic(p).as_bytes()) & eq_bytes(&m.payload, &pl), "a message is delivered with another topic, payload or QoS");
        if !self.auto_pub && q > 0 {
            self.owe.push(Op::SAck { t: if q == 1 { 4 } else { 5 }, id: pid(p).unwrap_or(0), rc: None });
        }
    }
    /// hands over bytes of the first frame up to `to`
    fn feed(&mut self, v5: bool, to: usize, msgs: &mut Vec<Msg>) -> Out {
        let f = self.q[0].clone();
        let mut cur = mqtt::common::Cursor::new(&f[self.part..to]);
        let ev = self.c.recv(&mut cur);
        sx::check(cur.position() == (to - self.part) as u64, "recv did not consume what was delivered");
        self.part = to;
        if to == f.len() {
            self.q.remove(0);
            self.part = 0;
        } else {
            sx::check(ev.is_empty(), "a part of a packet has effects");
        }
        self.take(v5, ev, 0, msgs)
    }
    /// the application's next piece of work
    fn issue(&mut self, v5: bool, msgs: &mut Vec<Msg>) -> Out {
        self.items -= 1;
        let k: Vec<u64> = [PUB0, PUB1, PUB2, SUBS, UNSUBS, PINGS].iter().cloned().filter(|k| self.kinds & k != 0).collect();
        let k = k[sx::choose(k.len() as u32) as usize];
        match k {
            PUB0 | PUB1 | PUB2 => {
                let q = if k == PUB0 { 0 } else if k == PUB1 { 1 } else { 2 };
                let t = if self.kinds & TOPICS != 0 { TOPIC[sx::choose(2) as usize] } else { TOPIC[0] };
                let mut name = t;
                let mut topic = t;
                let mut alias = None;
                if v5 && self.kinds & ALIAS != 0 {
                    match sx::choose(3) {
                        0 => {}
                        1 => alias = Some(1 + sx::choose(2) as u16),
                        _ => {
                            // an alias the application registered on this connection
                            let c: Vec<u16> = (1..3u16).filter(|i| self.aliased[*i as usize].is_some()).collect();
                            if !c.is_empty() {
                                let i = c[sx::choose(c.len() as u32) as usize];
                                alias = Some(i);
                                name = "";
                                topic = self.aliased[i as usize].unwrap();
                            }
                        }
                    }
                }
                let n = msgs.len();
                let mut payload = vec![n as u8, sx::u8()];
                if self.kinds & BIG != 0 && sx::coin() {
                    payload.extend_from_slice(&[7; 20]);
                }
                let id = if q > 0 {
                    match self.c.acquire_packet_id() {
                        Ok(i) => i,
                        Err(_) => sx::fail("no packet identifier although almost all are free"),
                    }
                } else {
                    0
                };
                let p = publish(v5, q, id, name, alias, payload.clone());
                let ev = self.c.send(p);
                let accepted = !has_error(&ev);
                if accepted {
                    if let (Some(i), true) = (alias, !name.is_empty()) {
                        self.aliased[i as usize] = Some(topic);
                    }
                    msgs.push(Msg { client: self.client, qos: q, topic, payload, delivered: 0 });
                } else if q > 0 && !released(&ev).contains(&id) {
                    let r = self.c.release_packet_id(id);
                    done(r);
                }
                if accepted {
                    sx::reach("message accepted");
                } else {
                    sx::reach("message refused");
                }
                self.take(v5, ev, 1 + alias.is_some() as u8, msgs)
            }
            SUBS | UNSUBS => {
                let id = self.c.acquire_packet_id().unwrap_or(0);
                let ev = self.c.send(packet(v5, &Op::SSub { t: if k == SUBS { 8 } else { 10 }, id }));
                sx::check(!has_error(&ev), "SUBSCRIBE or UNSUBSCRIBE refused");
                self.take(v5, ev, 0, msgs)
            }
            _ => {
                let ev = self.c.send(packet(v5, &Op::SPing { t: 12 }));
                self.take(v5, ev, 0, msgs)
            }
        }
    }
    fn answer(&mut self, v5: bool, msgs: &mut Vec<Msg>) -> Out {
        let op = self.owe.remove(0);
        let ev = self.c.send(packet(v5, &op));
        self.take(v5, ev, 0, msgs)
    }
    fn fire(&mut self, v5: bool, msgs: &mut Vec<Msg>) -> Out {
        self.timers_left -= 1;
        self.timer = false;
        let ev = self.c.notify_timer_fired(PingreqSend);
        self.take(v5, ev, 0, msgs)
    }
    fn closed(&mut self, v5: bool, msgs: &mut Vec<Msg>) {
        let ev = self.c.notify_closed();
        let o = self.take(v5, ev, 0, msgs);
        sx::check(o.frames.is_empty(), "packets are sent on a closed transport");
        self.q.clear();
        self.part = 0;
        self.timer = false;
        self.aliased = [None; 3];
        // answers to what came over the old transport are void; PUBREL belongs to the session
        self.owe.retain(|x| matches!(x, Op::SAck { t: 6, .. }));
    }
    fn idle(&self) -> bool {
        self.q.is_empty() && self.owe.is_empty() && self.items == 0
    }
    fn quiescent(&mut self, rm: Option<u16>) {
        sx::check(self.c.get_stored_packets().is_empty(), "packets are left in the store when everything has been exchanged");
        sx::check(self.c.get_qos2_publish_handled().is_empty(), "QoS 2 identifiers are left when everything has been exchanged");
        sx::check(self.c.get_receive_maximum_vacancy_for_send() == rm, "the Receive Maximum vacancy is not full when everything has been exchanged");
        let q = sx::u16();
        sx::check(self.c.register_packet_id(q).is_ok() == (q != 0), "a packet identifier is in use when everything has been exchanged");
    }
}
fn publish(v5: bool, q: u8, id: u16, name: &str, alias: Option<u16>, payload: Vec<u8>) -> Pk {
    if v5 {
        let mut b = v5_0::Publish::builder().topic_name(name).unwrap().qos(qos(q)).payload(payload);
        if q > 0 {
            b = b.packet_id(id);
        }
        if let Some(a) = alias {
            b = b.props(vec![Property::TopicAlias(TopicAlias::new(a).unwrap())]);
        }
        b.build().unwrap().into()
    } else {
        let mut b = v3_1_1::Publish::builder().topic_name(name).unwrap().qos(qos(q)).payload(payload);
        if q > 0 {
            b = b.packet_id(id);
        }
        b.build().unwrap().into()
    }
}
impl<A: RoleType, B: RoleType> X<A, B> {
    fn connect(&mut self) {
        let ev = self.a.c.send(packet(self.v5, &Op::SConnect(self.cfg.clone())));
        let o = self.a.take(self.v5, ev, 0, &mut self.msgs);
        sx::check(o.frames.len() == 1, "CONNECT is not sent");
        self.b.q.extend(o.frames);
    }
    fn to_b(&mut self, o: Out) {
        if o.connack {
            self.up = true;
        }
        self.b.q.extend(o.frames);
    }
    fn to_a(&mut self, o: Out) {
        self.a.q.extend(o.frames);
        if o.connect {
            let mut k = self.ack.clone();
            k.sp = self.session;
            self.session = true;
            let ev = self.b.c.send(packet(self.v5, &Op::SConnack(k)));
            let o = self.b.take(self.v5, ev, 0, &mut self.msgs);
            sx::check(!o.frames.is_empty(), "CONNACK is not sent");
            self.a.q.extend(o.frames);
        }
    }
    fn lose(&mut self) {
        self.losses -= 1;
        self.lost = true;
        self.up = false;
        if self.cuts != 0 {
            // a part of the first packet still in flight arrives
            let la = if self.a.q.is_empty() { 0 } else { self.a.q[0].len() };
            let lb = if self.b.q.is_empty() { 0 } else { self.b.q[0].len() };
            let mut c: Vec<(bool, usize)> = vec![(true, 0)];
            for (x, l) in [(true, la), (false, lb)] {
                if self.cuts == 1 {
                    for k in [1, 2, l.wrapping_sub(1)] {
                        if k < l && !c.contains(&(x, k)) {
                            c.push((x, k));
                        }
                    }
                } else {
                    for k in 1..l {
                        c.push((x, k));
                    }
                }
            }
            let (x, k) = c[sx::choose(c.len() as u32) as usize];
            if k > 0 {
                sx::reach("transport lost in the middle of a packet");
                if x && self.a.part < k {
                    let o = self.a.feed(self.v5, k, &mut self.msgs);
                    done(o);
                } else if !x && self.b.part < k {
                    let o = self.b.feed(self.v5, k, &mut self.msgs);
                    done(o);
                }
            }
        }
        self.a.closed(self.v5, &mut self.msgs);
        self.b.closed(self.v5, &mut self.msgs);
        self.connect();
    }
}
/// transitions 0..4 belong to the client, 5..9 to the server, 10 is the loss
fn enabled<A: RoleType, B: RoleType>(x: &X<A, B>) -> Vec<u32> {
    let mut t = vec![];
    let mut add = |i: u32, c: bool| {
        if c {
            t.push(i)
        }
    };
    let part = |q: &Vec<Vec<u8>>, p: usize, left: u64| left > 0 && p == 0 && !q.is_empty() && q[0].len() > 1;
    add(0, !x.a.q.is_empty());
    add(1, part(&x.a.q, x.a.part, x.a.parts_left));
    add(2, x.up && !x.a.owe.is_empty());
    add(3, x.up && x.a.items > 0);
    add(4, x.up && x.a.timer && x.a.timers_left > 0);
    add(5, !x.b.q.is_empty());
    add(6, part(&x.b.q, x.b.part, x.b.parts_left));
    add(7, x.up && !x.b.owe.is_empty());
    add(8, x.up && x.b.items > 0);
    add(10, x.losses > 0 && (x.up || x.session) && x.lost_allowed());
    t
}
impl<A: RoleType, B: RoleType> X<A, B> {
    /// the first handshake is not interrupted: before the first CONNACK there is no session to resume
    fn lost_allowed(&self) -> bool {
        self.up || self.lost
    }
}
fn independent(a: u32, b: u32) -> bool {
    a != 10 && b != 10 && (a < 5) != (b < 5)
}
/// params: 0 version, 1/2 workload items of client / server, 3/4 their kinds, 5/6 automatic responses, 7 losses,
/// 8 cuts (0 between packets, 1 some, 2 every byte), 9 partial deliveries, 10 limits (1 receive maximum, 2 topic alias
/// maximum, 4 maximum packet size, 8 keep-alive, 16 clean start of the first connection, 32 large limits), 11 timers fired
fn pair<A: RoleType, B: RoleType>() {
    let p = |i| sx::param(i);
    let v5 = p(0) == 5;
    let lim = p(10);
    let mut x = X::<A, B> {
        v5,
        a: end(v5, true, p(1), p(3), p(5), p(9), p(11)),
        b: end(v5, false, p(2), p(4), p(6), p(9), 0),
        msgs: vec![],
        cfg: Cfg { clean: lim & 16 != 0, sei: if v5 { Some(10) } else { None }, ka: if lim & 8 != 0 { 10 } else { 0 }, ..Cfg::default() },
        ack: Ack::default(),
        up: false,
        session: false,
        losses: p(7),
        lost: false,
        steps: 0,
        cuts: p(8),
    };
    if v5 {
        let rm = || {
            let v = sx::u16();
            sx::assume((v > 0) & ((v <= 3) | (lim & 32 != 0)));
            Some(v)
        };
        let tam = || {
            let v = sx::u16();
            sx::assume((v <= 2) | (lim & 32 != 0));
            Some(v)
        };
        // large enough for CONNACK and the acknowledgements
        let mps = || {
            let v = sx::u32();
            sx::assume(v >= 24);
            Some(v)
        };
        if lim & 1 != 0 {
            x.cfg.rm = rm();
            x.ack.rm = rm();
        }
        if lim & 2 != 0 {
            x.cfg.tam = tam();
            x.ack.tam = tam();
        }
        if lim & 4 != 0 {
            x.cfg.mps = mps();
            x.ack.mps = mps();
        }
    }
    x.connect();
    x.cfg.clean = false;
    // the handshake
    let o = x.b.feed(v5, x.b.q[0].len(), &mut x.msgs);
    x.to_a(o);
    let o = x.a.feed(v5, x.a.q[0].len(), &mut x.msgs);
    sx::check(o.connack, "the client does not see the CONNACK");
    x.to_b(o);
    let mut sleep = 0u32;
    loop {
        x.steps += 1;
        if x.steps > 150 {
            sx::fail("the exchange does not come to an end");
        }
        let en = enabled(&x);
        if en.is_empty() {
            break;
        }
        let c: Vec<u32> = en.iter().cloned().filter(|t| sleep >> t & 1 == 0).collect();
        // stopping is possible at any time once nothing is pending: a loss or a timer is never forced
        let rest = x.a.idle() && x.b.idle() && x.up;
        if c.is_empty() && !rest {
            // an equivalent schedule is explored elsewhere
            sx::assume(false);
        }
        let n = c.len() as u32;
        let k = sx::choose(n + rest as u32);
        if k == n {
            break;
        }
        let t = c[k as usize];
        let mut s = sleep;
        for i in 0..k {
            s |= 1 << c[i as usize];
        }
        sleep = 0;
        for i in 0..11 {
            if s >> i & 1 != 0 && independent(i, t) {
                sleep |= 1 << i;
            }
        }
        sx::obs(50, t as u64);
        let cut = |q: &Vec<Vec<u8>>| {
            let l = q[0].len();
            let mut c = vec![1];
            if l > 2 {
                c.push(2);
            }
            if l > 3 {
                c.push(l - 1);
            }
            c[sx::choose(c.len() as u32) as usize]
        };
        let m = &mut x.msgs;
        match t {
            0 => {
                let o = x.a.feed(v5, x.a.q[0].len(), m);
                x.to_b(o);
            }
            1 => {
                x.a.parts_left -= 1;
                let k = cut(&x.a.q);
                let o = x.a.feed(v5, k, m);
                x.to_b(o);
            }
            2 => {
                let o = x.a.answer(v5, m);
                x.to_b(o);
            }
            3 => {
                let o = x.a.issue(v5, m);
                x.to_b(o);
            }
            4 => {
                let o = x.a.fire(v5, m);
                x.to_b(o);
            }
            5 => {
                let o = x.b.feed(v5, x.b.q[0].len(), m);
                x.to_a(o);
            }
            6 => {
                x.b.parts_left -= 1;
                let k = cut(&x.b.q);
                let o = x.b.feed(v5, k, m);
                x.to_a(o);
            }
            7 => {
                let o = x.b.answer(v5, m);
                x.to_a(o);
            }
            8 => {
                let o = x.b.issue(v5, m);
                x.to_a(o);
            }
            _ => x.lose(),
        }
    }
    sx::check(x.up && x.a.idle() && x.b.idle(), "the exchange gets stuck");
    for m in &x.msgs {
        let d = m.delivered;
        match m.qos {
            0 => sx::check(d <= 1, "a QoS 0 message is delivered more than once"),
            1 => sx::check(d >= 1 && (d == 1 || x.lost), "a QoS 1 message is not delivered, or more than once without a loss"),
            _ => sx::check(d == 1, "a QoS 2 message is not delivered exactly once"),
        }
    }
    x.a.quiescent(x.ack.rm);
    x.b.quiescent(x.cfg.rm);
    sx::reach("everything exchanged");
    if x.lost {
        sx::reach("everything exchanged after a loss");
    }
    done(x);
}
fn cs() {
    pair::<Client, Server>()
}
fn aa() {
    pair::<Any, Any>()
}
entries! { h01_cs => cs, h01_aa => aa }
