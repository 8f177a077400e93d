//! Generator of the next operation of a *correctly behaving application* and an *arbitrary peer*.
//! Operation kinds are nondeterministic choices, ids/flags/reason codes are symbolic.
#![allow(dead_code)]
use crate::enc::{Ack, Cfg};
use crate::sx;
use crate::world::*;
use mqtt_protocol_core::mqtt::connection::event::{GenericEvent, TimerKind};
use mqtt_protocol_core::mqtt::role::RoleType;

pub const CONNECT: u64 = 1 << 0;
pub const CONNACK: u64 = 1 << 1;
pub const PUB0: u64 = 1 << 2;
pub const PUB1: u64 = 1 << 3;
pub const PUB2: u64 = 1 << 4;
pub const R_PUBACK: u64 = 1 << 5;
pub const R_PUBREC: u64 = 1 << 6;
pub const R_PUBREL: u64 = 1 << 7;
pub const R_PUBCOMP: u64 = 1 << 8;
pub const R_PUB0: u64 = 1 << 9;
pub const R_PUB1: u64 = 1 << 10;
pub const R_PUB2: u64 = 1 << 11;
/// application's manual answers (PUBREL after PUBREC; PUBACK / PUBREC / PUBCOMP for what was received)
pub const ANSWER: u64 = 1 << 12;
pub const SUB: u64 = 1 << 13;
pub const UNSUB: u64 = 1 << 14;
pub const R_SUBACK: u64 = 1 << 15;
pub const PING: u64 = 1 << 16;
pub const DISC: u64 = 1 << 17;
pub const R_DISC: u64 = 1 << 18;
pub const CLOSED: u64 = 1 << 19;
pub const TIMER: u64 = 1 << 20;
pub const AUTH: u64 = 1 << 21;
pub const R_AUTH: u64 = 1 << 22;
pub const R_BAD: u64 = 1 << 23;
pub const ACQUIRE: u64 = 1 << 24;
pub const RELEASE: u64 = 1 << 25;
pub const ERASE: u64 = 1 << 26;
pub const REGISTER: u64 = 1 << 27;
pub const INTERVAL: u64 = 1 << 28;
/// packets are offered to send in any connection state, not only when sensible
pub const ANYTIME: u64 = 1 << 29;
/// packets arrive in any connection state
pub const R_ANYTIME: u64 = 1 << 30;
/// the peer sends acknowledgements with a failure reason code too
pub const R_FAIL: u64 = 1 << 31;
/// one frame of symbolic bytes: first byte and body arbitrary, Remaining Length 0..=G.sym
pub const R_SYM: u64 = 1 << 32;
/// PUBLISH with topic alias variants, both directions
pub const ALIAS: u64 = 1 << 33;
/// acknowledgements carry the identifier of an exchange that waits for them (if there is one)
pub const MATCH: u64 = 1 << 34;
pub const OFFLINE: u64 = 1 << 35;
/// received PUBLISH with a symbolic DUP flag
pub const R_DUP: u64 = 1 << 36;
/// identifiers that nobody acquired
pub const UNOWNED: u64 = 1 << 37;
/// received packets with packet identifier 0
pub const R_ZERO: u64 = 1 << 38;
/// the server's answers to SUBSCRIBE and the packets they answer
pub const R_SUB: u64 = 1 << 39;
pub const SUBACK: u64 = 1 << 40;
/// more than one spelling of success reason codes
pub const R_RC: u64 = 1 << 41;
/// two topics, two payload sizes
pub const TOPICS: u64 = 1 << 42;
/// one well-formed packet of any kind with two arbitrary bytes somewhere, or cut short
pub const R_TMPL: u64 = 1 << 43;
/// identifiers of packets in flight are released too (PUBLISH and PUBREL only when the session ends with the connection)
pub const RELFLY: u64 = 1 << 44;
/// answers of the application carry any kind of reason code
pub const A_RC: u64 = 1 << 45;
/// PUBLISH, SUBSCRIBE and UNSUBSCRIBE may use an identifier the application holds
pub const USEHELD: u64 = 1 << 46;
/// the packets of an operation have one of several contents (enc::rich)
pub const RICH: u64 = 1 << 47;
/// the process dies and a new object is given the export
pub const RESTART: u64 = 1 << 48;
pub const ALL_R: u64 = R_PUBACK | R_PUBREC | R_PUBREL | R_PUBCOMP | R_PUB0 | R_PUB1 | R_PUB2 | R_SUBACK | R_DISC | R_AUTH | R_BAD;

/// shape of connection parameters (each bit: vary that parameter)
#[derive(Clone, Copy, Default)]
pub struct Vary {
    /// clean start / session present / expiry
    pub session: bool,
    /// Receive Maximum of peer symbolic in 1..=peer_rm (0: absent)
    pub peer_rm: u16,
    pub my_rm: u16,
    pub peer_tam: u16,
    pub my_tam: u16,
    /// Maximum Packet Size of the peer symbolic
    pub peer_mps: bool,
    pub my_mps: bool,
    pub ka: bool,
    pub fail: bool,
    /// the default session ends with the connection
    pub nopersist: bool,
    /// CONNACK may carry Session Expiry Interval
    pub ack_sei: bool,
    /// Topic Alias Maximum 0 too
    pub tam0: bool,
    /// Role::Any: the side is chosen at each connection
    pub flip: bool,
}
pub struct G {
    pub v: Vary,
    /// ids for which the application owes a PUBREL
    pub owe_rel: Vec<u16>,
    /// (type, id) acknowledgements the application owes
    pub owe: Vec<(u8, u16)>,
    pub armed: [bool; 3],
    pub must_close: bool,
    pub auto_pub: bool,
    pub pl: u8,
    /// ids held by the application, not used by any packet
    pub held: Vec<u16>,
    pub persist_next: bool,
    pub sym: u32,
    /// (acknowledgement type awaited, id) of packets of ours
    pub wait: Vec<(u8, u16)>,
    /// ids of QoS 2 PUBLISH received
    pub rx2: Vec<u16>,
    /// ids received SUBSCRIBE / UNSUBSCRIBE packets used
    pub subs: Vec<(u8, u16)>,
}
pub const T: [&str; 3] = ["a", "b", "cc"];

fn opt_tam(m: u16, z: bool) -> Option<u16> {
    if z && sx::coin() {
        return Some(0);
    }
    opt16(m)
}
fn opt16(m: u16) -> Option<u16> {
    if m == 0 {
        return None;
    }
    let v = sx::u16();
    sx::assume((v > 0) & ((v <= m) | (m == 15)));
    Some(v)
}
fn opt_mps(b: bool) -> Option<u32> {
    if !b {
        return None;
    }
    let v = sx::u32();
    sx::assume(v > 0);
    Some(v)
}
fn nonzero() -> u32 {
    let n = sx::u32();
    sx::assume(n != 0);
    n
}
impl G {
    pub fn new(v: Vary) -> G {
        G { v, owe_rel: vec![], owe: vec![], armed: [false; 3], must_close: false, auto_pub: false, pl: 0, held: vec![], persist_next: true, sym: 4, wait: vec![], rx2: vec![], subs: vec![] }
    }
    pub fn cfg<R: RoleType>(&mut self, w: &W<R>) -> Cfg {
        let v = self.v;
        let (mut clean, mut sei) = if v.nopersist { (true, None) } else { (false, Some(10)) };
        if v.session {
            match sx::choose(if w.v5 { 4 } else { 2 }) {
                0 => {}
                1 => clean = !clean,
                2 => sei = if sei.is_some() { None } else { Some(10) },
                _ => {
                    clean = !clean;
                    sei = if sei.is_some() { None } else { Some(10) };
                }
            }
        }
        if let (true, true, true, Some(s)) = (v.session, w.v5, clean, &mut sei) {
            // any interval but 0
            *s = nonzero();
        }
        let ka = if v.ka && sx::coin() { sx::u16() } else { 0 };
        let c = w.client;
        Cfg {
            clean,
            ka,
            sei: if w.v5 { sei } else { None },
            rm: if w.v5 { opt16(if c { v.my_rm } else { v.peer_rm }) } else { None },
            tam: if w.v5 { opt_tam(if c { v.my_tam } else { v.peer_tam }, v.tam0) } else { None },
            mps: if w.v5 { opt_mps(if c { v.my_mps } else { v.peer_mps }) } else { None },
        }
    }
    pub fn ack<R: RoleType>(&mut self, w: &W<R>) -> Ack {
        let v = self.v;
        let c = w.client;
        let mut sp = !w.cfg.clean;
        if v.session && !w.cfg.clean {
            sp = sx::coin();
        }
        let rc = if v.fail && sx::coin() { if w.v5 { 0x87 } else { 5 } } else { 0 };
        if rc != 0 {
            // a refusing CONNACK of the application may have the flag set
            sp = !c && crate::enc::rich() == 1;
        }
        Ack {
            sp,
            rc,
            sei: if w.v5 && v.ack_sei && rc == 0 && sx::coin() { Some(if sx::coin() { 0 } else { nonzero() }) } else { None },
            rm: if w.v5 { opt16(if c { v.peer_rm } else { v.my_rm }) } else { None },
            tam: if w.v5 { opt_tam(if c { v.peer_tam } else { v.my_tam }, v.tam0) } else { None },
            mps: if w.v5 { opt_mps(if c { v.peer_mps } else { v.my_mps }) } else { None },
            ska: if w.v5 && v.ka && rc == 0 && sx::coin() { Some(sx::u16()) } else { None },
        }
    }
    pub fn rid(&self) -> u16 {
        let v = sx::u16();
        sx::assume(v != 0);
        v
    }
    fn frc<R: RoleType>(&self, w: &W<R>, acts: u64, bad: u8) -> Option<u8> {
        if w.v5 && acts & R_RC != 0 {
            let n = if bad == 0x80 { 4 } else { 3 };
            return [None, Some(bad), Some(0), Some(0x10)][sx::choose(n) as usize];
        }
        if w.v5 && acts & R_FAIL != 0 && sx::coin() {
            Some(bad)
        } else {
            None
        }
    }
    /// reason code of an answer of the application
    fn arc<R: RoleType>(&self, w: &W<R>, acts: u64, t: u8) -> Option<u8> {
        if !w.v5 {
            return None;
        }
        if acts & A_RC != 0 {
            let n = if t < 6 { 5 } else { 3 };
            return [None, Some(0), Some(if t < 6 { 0x10 } else { 0x92 }), Some(0x80), Some(0x97)][sx::choose(n) as usize];
        }
        (acts & R_FAIL != 0 && t == 5 && sx::coin()).then_some(0x80)
    }
    fn template<R: RoleType>(&self, w: &W<R>) -> Vec<u8> {
        use crate::enc;
        let v5 = w.v5;
        let cfg = Cfg { clean: false, ka: 1, sei: Some(1), rm: Some(1), tam: Some(1), mps: Some(100) };
        let ack = Ack { sp: true, rc: 0, sei: Some(1), rm: Some(1), tam: Some(1), mps: Some(100), ska: Some(1) };
        let mut b = match (sx::choose(15) as u8 + 1, w.client) {
            (1, _) => enc::connect(v5, &cfg),
            (2, _) => enc::connack(v5, &ack),
            (3, _) => enc::publish(v5, 1, false, b"a", 1, if v5 { Some(1) } else { None }, &[7]),
            (t @ 4..=7, _) => {
                if v5 {
                    // reason code and a user property
                    let p = enc::B::new().u8(0x26).s(b"k").s(b"v");
                    enc::B::new().u16(1).u8(0).block(&p.0).frame(t << 4 | if t == 6 { 2 } else { 0 })
                } else {
                    enc::ack(t, 1, None)
                }
            }
            (8, _) => enc::subscribe(v5, 1),
            (9, _) => enc::suback(v5, 1, 0),
            (10, _) => enc::unsubscribe(v5, 1),
            (11, _) => enc::unsuback(v5, 1, 0),
            (12, _) => enc::pingreq(),
            (13, _) => enc::pingresp(),
            (14, _) => {
                if v5 {
                    let p = enc::B::new().u8(0x1f).s(b"r");
                    enc::B::new().u8(0).block(&p.0).frame(0xe0)
                } else {
                    enc::disconnect(None)
                }
            }
            _ => enc::auth(0x18),
        };
        let n = b.len();
        let k = sx::choose(n as u32) as usize;
        if k == 0 {
            // the flags of the fixed header
            let f = sx::u8();
            sx::assume(f < 16);
            b[0] = (b[0] & 0xf0) | f;
        } else if k == 1 {
            // cut short
            let m = sx::choose(n as u32 - 1) as usize;
            b.truncate(2 + m);
            b[1] = m as u8;
        } else {
            sx::fill(&mut b[k..(k + 2).min(n)]);
        }
        b
    }
    /// received identifier, arbitrary
    fn zid(&self, acts: u64) -> u16 {
        let v = sx::u16();
        if acts & R_ZERO == 0 {
            sx::assume(v != 0);
        }
        v
    }
    /// identifier of an acknowledgement of type t
    fn aid(&self, t: u8, acts: u64) -> u16 {
        if acts & MATCH != 0 {
            let c: Vec<u16> = self.wait.iter().filter(|x| x.0 == t).map(|x| x.1).collect();
            if !c.is_empty() {
                return c[sx::choose(c.len() as u32) as usize];
            }
        }
        self.zid(acts)
    }
    fn use_held(&mut self, acts: u64) -> u16 {
        if acts & USEHELD == 0 || self.held.is_empty() {
            return 0;
        }
        let n = self.held.len();
        let i = sx::choose(n as u32 + 1) as usize;
        if i == n { 0 } else { self.held.remove(i) }
    }
    fn fly<R: RoleType>(&self, w: &W<R>) -> Vec<u16> {
        self.wait.iter().filter(|x| x.0 >= 9 || !w.persist).map(|x| x.1).collect()
    }
    fn topic<R: RoleType>(&self, w: &W<R>, acts: u64) -> (&'static str, Option<u16>) {
        let t = if acts & TOPICS != 0 { T[sx::choose(2) as usize] } else { T[0] };
        if acts & ALIAS == 0 || !w.v5 {
            return (t, None);
        }
        match sx::choose(3) {
            0 => (t, None),
            1 => {
                let a = sx::u16();
                sx::assume(a != 0);
                (t, Some(a))
            }
            _ => {
                let a = sx::u16();
                sx::assume(a != 0);
                ("", Some(a))
            }
        }
    }
    /// next operation; None when nothing of `acts` is possible
    pub fn next<R: RoleType>(&mut self, w: &W<R>, acts: u64) -> Option<Op> {
        if self.must_close {
            return Some(Op::Closed);
        }
        let ed = w.st == St::Ed;
        let l = ed || acts & ANYTIME != 0; // local packets
        let r = ed || acts & R_ANYTIME != 0;
        let mut k: Vec<u64> = vec![];
        let mut add = |b: u64, c: bool| {
            if acts & b != 0 && c {
                k.push(b)
            }
        };
        add(CONNECT, w.st == St::Disc || acts & (if w.client { ANYTIME } else { R_ANYTIME }) != 0);
        add(CONNACK, w.st == St::Ing || acts & (if w.client { R_ANYTIME } else { ANYTIME }) != 0);
        add(PUB0, l);
        add(PUB1, l);
        add(PUB2, l);
        for b in [R_PUBACK, R_PUBREC, R_PUBREL, R_PUBCOMP, R_PUB0, R_PUB1, R_PUB2, R_DISC] {
            let c = r && !(b == R_DISC && w.client && !w.v5);
            add(b, c);
        }
        add(ANSWER, !self.owe_rel.is_empty() || !self.owe.is_empty());
        add(SUB, l && w.client);
        add(UNSUB, l && w.client);
        add(R_SUBACK, r && w.client);
        add(PING, l || r);
        add(DISC, l && (w.client || w.v5));
        add(CLOSED, true);
        add(TIMER, self.armed[0] | self.armed[1] | self.armed[2]);
        add(AUTH, w.v5 && (l || w.st == St::Ing));
        add(R_AUTH, w.v5 && (r || w.st == St::Ing));
        add(R_BAD, r || w.st == St::Ing);
        add(R_SYM, r || w.st == St::Ing);
        add(R_TMPL, true);
        add(ACQUIRE, true);
        add(RELEASE, !self.held.is_empty());
        add(RELFLY, !self.fly(w).is_empty());
        add(ERASE, true);
        add(REGISTER, true);
        add(INTERVAL, true);
        add(OFFLINE, true);
        add(RESTART, w.can_restart());
        add(R_SUB, r && !w.client);
        add(SUBACK, l && !w.client && !self.subs.is_empty());
        if k.is_empty() {
            return None;
        }
        let b = k[sx::choose(k.len() as u32) as usize];
        Some(self.make(w, b, acts))
    }
    pub fn make<R: RoleType>(&mut self, w: &W<R>, b: u64, acts: u64) -> Op {
        self.pl = self.pl.wrapping_add(1);
        let pl = self.pl;
        const PACKETS: u64 = CONNECT | CONNACK | PUB0 | PUB1 | PUB2 | R_PUBACK | R_PUBREC | R_PUBREL | R_PUBCOMP | R_PUB0 | R_PUB1 | R_PUB2 | ANSWER | SUB | UNSUB | R_SUBACK | DISC | R_DISC | AUTH | R_AUTH | R_SUB | SUBACK;
        crate::enc::set_rich(if acts & RICH != 0 && b & PACKETS != 0 { sx::choose(3) as u8 } else { 0 });
        match b {
            CONNECT => {
                let c = self.cfg(w);
                if w.client { Op::SConnect(c) } else { Op::RConnect(c) }
            }
            CONNACK => {
                let a = self.ack(w);
                if w.client { Op::RConnack(a) } else { Op::SConnack(a) }
            }
            PUB0 | PUB1 | PUB2 => {
                let qos = if b == PUB0 { 0 } else if b == PUB1 { 1 } else { 2 };
                let (topic, alias) = self.topic(w, acts);
                let mut id = 0;
                if qos > 0 && acts & UNOWNED != 0 && sx::coin() {
                    id = self.rid();
                }
                if qos > 0 && id == 0 {
                    id = self.use_held(acts);
                }
                Op::SPub { qos, id, topic, alias, pl }
            }
            R_PUBACK => Op::RAck { t: 4, id: self.aid(4, acts), rc: self.frc(w, acts, 0x80) },
            R_PUBREC => Op::RAck { t: 5, id: self.aid(5, acts), rc: self.frc(w, acts, 0x80) },
            R_PUBREL => {
                let id = if acts & MATCH != 0 && !self.rx2.is_empty() { self.rx2[self.rx2.len() - 1] } else { self.zid(acts) };
                Op::RAck { t: 6, id, rc: self.frc(w, acts, 0x92) }
            }
            R_PUBCOMP => Op::RAck { t: 7, id: self.aid(7, acts), rc: self.frc(w, acts, 0x92) },
            R_PUB0 | R_PUB1 | R_PUB2 => {
                let qos = if b == R_PUB0 { 0 } else if b == R_PUB1 { 1 } else { 2 };
                let (topic, alias) = self.topic(w, acts);
                let dup = qos > 0 && acts & R_DUP != 0 && sx::coin();
                Op::RPub { qos, dup, id: if qos > 0 { self.zid(acts) } else { 0 }, topic, alias, pl }
            }
            ANSWER => {
                let n = self.owe_rel.len();
                let i = sx::choose((n + self.owe.len()) as u32) as usize;
                if i < n {
                    Op::SAck { t: 6, id: self.owe_rel[i], rc: self.arc(w, acts, 6) }
                } else {
                    let (t, id) = self.owe[i - n];
                    Op::SAck { t, id, rc: self.arc(w, acts, t) }
                }
            }
            SUB => Op::SSub { t: 8, id: self.use_held(acts) },
            UNSUB => Op::SSub { t: 10, id: self.use_held(acts) },
            R_SUBACK => {
                let t = 9 + 2 * sx::choose(2) as u8;
                Op::RSuback { t, id: self.aid(t, acts), rc: if acts & R_FAIL != 0 && sx::coin() { 0x80 } else { 0 } }
            }
            PING => match (w.client, sx::coin()) {
                (true, true) => Op::SPing { t: 12 },
                (true, false) => Op::RPing { t: 13 },
                (false, true) => Op::SPing { t: 13 },
                (false, false) => Op::RPing { t: 12 },
            },
            DISC => Op::SDisc,
            R_DISC => Op::RDisc { rc: if w.v5 && sx::coin() { Some(if w.client { 0x8b } else { 0x04 }) } else { None } },
            CLOSED => Op::Closed,
            TIMER => {
                let a: Vec<TimerKind> = [PingreqSend, PingreqRecv, PingrespRecv].iter().cloned().filter(|k| self.armed[tk(k)]).collect();
                Op::Timer(a[sx::choose(a.len() as u32) as usize])
            }
            AUTH => Op::SAuth,
            R_AUTH => Op::RAuth,
            R_BAD => match sx::choose(4) {
                // malformed packet of a kind the peer may send: PUBLISH with QoS 3
                0 => Op::RRaw(vec![0x36, 3, 0, 1, 97]),
                // kind the peer may never send / wrong role
                1 => Op::RRaw(if w.client { vec![0xc0, 0] } else { vec![0xd0, 0] }),
                // Remaining Length of more than four bytes
                2 => Op::RRaw(vec![0x40, 0xff, 0xff, 0xff, 0xff]),
                // truncated PUBACK
                _ => Op::RRaw(vec![0x40, 1, 0]),
            },
            R_SYM => {
                let n = sx::choose(self.sym + 1) as usize;
                let mut f = vec![0u8; n + 2];
                sx::fill(&mut f[0..1]);
                f[1] = n as u8;
                sx::fill(&mut f[2..]);
                Op::RRaw(f)
            }
            R_TMPL => Op::RRaw(self.template(w)),
            ACQUIRE => Op::Acquire,
            RELEASE => Op::Release(self.held[sx::choose(self.held.len() as u32) as usize]),
            RELFLY => {
                let c = self.fly(w);
                Op::Release(c[sx::choose(c.len() as u32) as usize])
            }
            ERASE => Op::Erase(sx::u16()),
            RESTART => {
                let ok = w.can_restart();
                sx::assume(ok);
                Op::Restart(vec![])
            }
            OFFLINE => Op::SetOffline(sx::coin()),
            R_SUB => Op::RSub { t: if sx::coin() { 8 } else { 10 }, id: self.rid() },
            SUBACK => {
                let (t, id) = self.subs[sx::choose(self.subs.len() as u32) as usize];
                Op::SSuback { t, id }
            }
            REGISTER => Op::Register(sx::u16()),
            INTERVAL => Op::SetSendInterval(match sx::choose(3) {
                0 => None,
                1 => Some(0),
                _ => Some(7000),
            }),
            _ => panic!("gen"),
        }
    }
    /// bookkeeping of the application after an operation
    pub fn after<R: RoleType>(&mut self, w: &W<R>, op: &Op, ev: &[Ev]) {
        if matches!(op, Op::Closed) {
            self.must_close = false;
            self.owe.clear();
            if !w.persist {
                self.owe_rel.clear();
            }
        }
        if let Op::Timer(k) = op {
            self.armed[tk(k)] = false;
        }
        if let Op::Acquire = op {
            if let Some(i) = w.last_id {
                self.held.push(i);
            }
        }
        if let (Op::Register(i), true) = (op, w.last_ok) {
            self.held.push(*i);
        }
        if let Op::Release(i) = op {
            self.held.retain(|x| x != i);
            self.wait.retain(|x| x.1 != *i);
            self.owe_rel.retain(|x| x != i);
        }
        if let Op::SAck { t, id, .. } = op {
            if sent_type(ev, *t) || (*t == 6 && !has_error(ev)) {
                if *t == 6 {
                    if let Some(p) = self.owe_rel.iter().position(|x| x == id) {
                        self.owe_rel.remove(p);
                    }
                } else if let Some(p) = self.owe.iter().position(|x| x.0 == *t && x.1 == *id) {
                    self.owe.remove(p);
                }
            }
        }
        // what the peer may answer
        for p in sends(ev) {
            let id = pid(p).unwrap_or(0);
            let t = match ptype(p) {
                3 => if wire(p)[0] >> 1 & 3 == 1 { 4 } else { 5 },
                6 => 7,
                8 => 9,
                10 => 11,
                _ => 0,
            };
            if t != 0 && id != 0 && !self.wait.iter().any(|x| x.0 == t && x.1 == id) {
                self.wait.push((t, id));
            }
        }
        if let (Op::RAck { t, .. } | Op::RSuback { t, .. }, false) = (op, has_error(ev)) {
            if let Some(id) = notified(ev).iter().filter_map(|p| pid(p)).next() {
                self.wait.retain(|x| x.0 != *t || x.1 != id);
            }
        }
        match op {
            Op::RPub { qos: 2, id, .. } if notified_type(ev, 3) => self.rx2.push(*id),
            Op::RSub { t, id } if !has_error(ev) => self.subs.push((*t + 1, *id)),
            Op::SSuback { .. } if !has_error(ev) => self.subs.clear(),
            Op::Closed => self.subs.clear(),
            _ => {}
        }
        for e in ev {
            match e {
                GenericEvent::RequestClose => self.must_close = true,
                GenericEvent::RequestTimerReset { kind, .. } => self.armed[tk(kind)] = true,
                GenericEvent::RequestTimerCancel(kind) => self.armed[tk(kind)] = false,
                GenericEvent::NotifyPacketReceived(p) if !self.auto_pub => {
                    let id = pid(p).unwrap_or(0);
                    match op {
                        Op::RPub { qos: 1, .. } => self.owe.push((4, id)),
                        Op::RPub { qos: 2, .. } => self.owe.push((5, id)),
                        Op::RAck { t: 6, .. } => self.owe.push((7, id)),
                        Op::RAck { t: 5, rc, .. } if rc.unwrap_or(0) < 0x80 => self.owe_rel.push(id),
                        _ => {}
                    }
                }
                _ => {}
            }
        }
        let fresh = match op {
            Op::SConnect(c) | Op::RConnect(c) => c.clean && !has_error(ev),
            Op::SConnack(a) | Op::RConnack(a) => !a.sp && a.rc == 0 && !has_error(ev),
            _ => false,
        };
        if fresh {
            self.owe_rel.clear();
            self.held.clear();
            self.wait.clear();
            self.rx2.clear();
        }
    }
}
impl<R: RoleType> W<R> {
    /// there is something to export while no transport is open
    fn can_restart(&self) -> bool {
        self.st == St::Disc && self.persist && (!self.c.get_stored_packets().is_empty() || !self.c.get_qos2_publish_handled().is_empty())
    }
    /// acquires the identifier of an operation that needs one
    pub fn resolve(&mut self, op: Op) -> Op {
        match op {
            Op::SPub { qos, id: 0, topic, alias, pl } if qos > 0 => {
                let id = self.c.acquire_packet_id().unwrap();
                Op::SPub { qos, id, topic, alias, pl }
            }
            Op::SSub { t, id: 0 } => {
                let id = self.c.acquire_packet_id().unwrap();
                Op::SSub { t, id }
            }
            o => o,
        }
    }
}
