//! What a user relies on, written from the properties: an independent bookkeeping of one session and its
//! connections, compared with the events and the exported state of the real connection after every call.
//! Each check looks at one facet; the bookkeeping itself is common.
#![allow(dead_code)]
use crate::enc;
use crate::sx;
use crate::world::*;
use mqtt_protocol_core::mqtt::connection::event::GenericEvent;
use mqtt_protocol_core::mqtt::role::RoleType;

pub const F05: u64 = 1 << 5;
pub const F06: u64 = 1 << 6;
pub const F07: u64 = 1 << 7;
pub const F08: u64 = 1 << 8;
pub const F11: u64 = 1 << 11;
pub const F12: u64 = 1 << 12;
pub const F13: u64 = 1 << 13;
/// regulate_for_store at the end of the history
const FREG: u64 = 1 << 21;
pub const F14: u64 = 1 << 14;
pub const F15: u64 = 1 << 15;
pub const F17: u64 = 1 << 17;
pub const F19: u64 = 1 << 19;

/// an exchange started by this side
#[derive(Clone)]
pub struct Ex {
    pub id: u16,
    /// 1, 2: PUBLISH QoS 1, 2; 8, 10: SUBSCRIBE, UNSUBSCRIBE
    pub kind: u8,
    /// acknowledgement awaited; 0: PUBREC received, PUBREL not sent yet
    pub wait: u8,
    /// certainly counts against the peer's Receive Maximum on this connection
    pub conn: bool,
    /// may count (taken over from an earlier connection with nothing to retransmit)
    pub maybe: bool,
}
#[derive(Clone)]
pub struct Sp {
    pub id: u16,
    pub rel: bool,
    pub wire: Vec<u8>,
    /// sent on a session that ends with the connection: may be exported or not
    pub opt: bool,
}
pub struct M {
    pub f: u64,
    pub v5: bool,
    pub auto_pub: bool,
    pub auto_ping: bool,
    pub resp_ms: u64,
    pub ex: Vec<Ex>,
    pub store: Vec<Sp>,
    pub used: Vec<u16>,
    pub handled: Vec<u16>,
    pub persist: bool,
    pub offline: bool,
    /// the receiver's view of the aliases we bound: (alias, topic)
    pub sal: Vec<(u16, Vec<u8>)>,
    /// aliases the peer bound
    pub ral: Vec<(u16, Vec<u8>)>,
    /// unacknowledged QoS>0 PUBLISH of the peer
    pub rx: Vec<u16>,
    pub armed: [bool; 3],
    pub user_ms: Option<u64>,
    pub ka_ms: u64,
    pub ska_ms: Option<u64>,
    pub recv_ms: u64,
    /// the peer sent DISCONNECT on this connection, or its keep-alive timer ran out before CONNACK
    pub rdisc: bool,
    /// first CONNECT / CONNACK of the session not seen yet
    pub fin: bool,
}
fn has(l: &[u16], id: u16) -> bool {
    let mut r = false;
    for x in l {
        r |= *x == id;
    }
    r
}
fn del(l: &mut Vec<u16>, id: u16) {
    if let Some(p) = l.iter().position(|x| *x == id) {
        l.remove(p);
    }
}
fn put(l: &mut Vec<u16>, id: u16) {
    if !l.iter().any(|x| *x == id) {
        l.push(id);
    }
}
/// same elements, each once (a has no duplicates)
pub fn same_set(a: &[u16], b: &[u16]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for x in a {
        let mut n = 0u8;
        for y in b {
            n = n.wrapping_add((*x == *y) as u8);
        }
        ok &= n == 1;
    }
    ok
}
impl M {
    pub fn new(f: u64, v5: bool) -> M {
        M {
            f,
            v5,
            auto_pub: false,
            auto_ping: false,
            resp_ms: 0,
            ex: vec![],
            store: vec![],
            used: vec![],
            handled: vec![],
            persist: false,
            offline: false,
            sal: vec![],
            ral: vec![],
            rx: vec![],
            armed: [false; 3],
            user_ms: None,
            ka_ms: 0,
            ska_ms: None,
            recv_ms: 0,
            rdisc: false,
            fin: false,
        }
    }
    fn ck(&self, f: u64, c: bool, m: &'static str) {
        if self.f & f != 0 {
            sx::check(c, m);
        }
    }
    fn on(&self, f: u64) -> bool {
        self.f & f != 0
    }
    /// exchanges that count against the peer's Receive Maximum: (at least, at most)
    pub fn count(&self) -> (u32, u32) {
        let mut lo = 0;
        let mut hi = 0;
        for e in &self.ex {
            if e.kind <= 2 {
                lo += e.conn as u32;
                hi += (e.conn | e.maybe) as u32;
            }
        }
        (lo, hi)
    }
    fn wipe(&mut self) {
        self.ex.clear();
        self.store.clear();
        self.used.clear();
        self.handled.clear();
    }
    /// removes the exchange with this id waiting for t; the caller knows that there is one
    fn end(&mut self, id: u16, t: u8) -> Option<Ex> {
        let p = self.ex.iter().position(|e| (e.id == id) & (e.wait == t))?;
        let e = self.ex.remove(p);
        if let Some(p) = self.store.iter().position(|s| s.id == id) {
            self.store.remove(p);
        }
        Some(e)
    }
    fn waiting(&self, id: u16, t: u8) -> bool {
        let mut r = false;
        for e in &self.ex {
            r |= (e.id == id) & (e.wait == t);
        }
        r
    }
    fn bound(l: &[(u16, Vec<u8>)], a: u16) -> Option<Vec<u8>> {
        l.iter().find(|x| x.0 == a).map(|x| x.1.clone())
    }
    fn bind(l: &mut Vec<(u16, Vec<u8>)>, a: u16, t: &[u8]) {
        if let Some(p) = l.iter().position(|x| x.0 == a) {
            l.remove(p);
        }
        l.push((a, t.to_vec()));
    }
    pub fn interval(&self) -> u64 {
        match (self.user_ms, self.ska_ms) {
            (Some(v), _) => v,
            (None, Some(v)) => v,
            _ => self.ka_ms,
        }
    }

    /// one PUBLISH requested for sending must be resolvable by the receiver; returns the topic it resolves to
    fn resolve_sent<R: RoleType>(&mut self, w: &W<R>, p: &enc::Pub) -> Vec<u8> {
        let tam = if w.st == St::Ed { w.peer_tam().unwrap_or(0) } else { 0 };
        match p.alias {
            None => {
                self.ck(F13, !p.topic.is_empty(), "PUBLISH sent with neither topic nor alias");
                p.topic.clone()
            }
            Some(a) => {
                self.ck(F13, (a >= 1) & (a <= tam), "PUBLISH sent with a topic alias outside 1..=Topic Alias Maximum of the peer");
                if p.topic.is_empty() {
                    sx::reach("PUBLISH sent with alias only");
                    match M::bound(&self.sal, a) {
                        Some(t) => t,
                        None => {
                            self.ck(F13, false, "PUBLISH sent with an alias not bound on this connection");
                            vec![]
                        }
                    }
                } else {
                    sx::reach("PUBLISH sent binding an alias");
                    M::bind(&mut self.sal, a, &p.topic);
                    p.topic.clone()
                }
            }
        }
    }
    fn general<R: RoleType>(&mut self, w: &W<R>, op: &Op, was: St, ev: &[Ev]) {
        // ---- C19
        let (mut closed, mut last) = (false, false);
        let mps = if self.v5 && (w.st == St::Ed || was == St::Ed || (!w.client && (was == St::Ing || w.st == St::Ing))) { w.peer_mps() } else { None };
        for e in ev {
            match e {
                GenericEvent::RequestClose => closed = true,
                GenericEvent::RequestSendPacket { packet, release_packet_id_if_send_error: rel } => {
                    self.ck(F19, !closed, "a packet is requested for sending after the close request");
                    let b = wire(packet);
                    let t = b[0] >> 4;
                    last |= t == 14 || (t == 2 && b[enc::hlen(&b) + 1] != 0);
                    if let Some(m) = mps {
                        self.ck(F14, b.len() as u32 <= m, "a packet larger than the peer's Maximum Packet Size is requested for sending");
                    }
                    if self.on(F08) {
                        let own = t == 8 || t == 10 || (t == 3 && b[0] >> 1 & 3 > 0 && matches!(op, Op::SPub { .. }) && !self.persist);
                        match rel {
                            Some(r) => sx::check(own & (Some(*r) == pid(packet)), "send error contract: wrong identifier to release"),
                            None => sx::check(!own, "send error contract: identifier to release is missing"),
                        }
                    }
                }
                _ => {}
            }
        }
        if last {
            sx::reach("final packet sent");
        }
        self.ck(F19, !last | closed, "DISCONNECT or refusing CONNACK sent without a close request");
        if let (St::Ed, Op::Timer(k)) = (was, op) {
            if !matches!(k, PingreqSend) {
                sx::reach("keep-alive timeout expired");
                self.ck(F19 | F15, closed, "keep-alive timeout on an established connection without a close request");
            }
        }
        // ---- C05: whatever arrives is delivered, answered as a duplicate, or reported
        if op.is_recv() && !has_error(ev) && notified(ev).is_empty() {
            let dup = matches!(op, Op::RPub { qos: 2, .. });
            let raw = matches!(op, Op::RRaw(b) if b[0] >> 4 == 3);
            self.ck(F05 | F07, !raw | sent_type(ev, 5), "a received PUBLISH is neither delivered nor answered nor reported");
            self.ck(F05, dup | raw, "a received packet is neither delivered nor reported");
            if dup {
                self.ck(F05 | F07, sent_type(ev, 5), "a received QoS 2 PUBLISH is neither delivered nor answered nor reported");
            }
        }
        if op.is_recv() && has_error(ev) {
            sx::reach("received packet rejected");
        }
    }
    fn timers<R: RoleType>(&mut self, w: &W<R>, op: &Op, was: St, ev: &[Ev]) {
        if let Op::Timer(k) = op {
            self.armed[tk(k)] = false;
        }
        match op {
            Op::SConnect(_) | Op::RConnect(_) | Op::Closed => self.rdisc = false,
            Op::RDisc { .. } => self.rdisc = true,
            Op::Timer(_) if was == St::Ing => self.rdisc = true,
            _ => {}
        }
        match op {
            Op::SConnect(c) if sent_type(ev, 1) => {
                self.ka_ms = c.ka as u64 * 1000;
                self.ska_ms = None;
                self.recv_ms = 0;
            }
            Op::RConnect(c) if notified_type(ev, 1) => {
                self.ka_ms = 0;
                self.ska_ms = None;
                self.recv_ms = c.ka as u64 * 1500;
            }
            Op::RConnack(a) if notified_type(ev, 2) && a.rc == 0 && was == St::Ing => {
                if let Some(v) = a.ska {
                    self.ska_ms = Some(v as u64 * 1000);
                }
            }
            Op::SConnack(a) if sent_type(ev, 2) && a.rc == 0 => {
                if let Some(v) = a.ska {
                    self.recv_ms = v as u64 * 1500;
                }
            }
            Op::SetSendInterval(d) => self.user_ms = *d,
            _ => {}
        }
        let mut set = [false; 3];
        let mut sent = 0;
        for e in ev {
            match e {
                GenericEvent::RequestTimerReset { kind, duration_ms } => {
                    let k = tk(kind);
                    self.armed[k] = true;
                    set[k] = true;
                    let exp = match k {
                        0 => self.interval(),
                        1 => self.recv_ms,
                        _ => self.resp_ms,
                    };
                    let raw = matches!(op, Op::RRaw(_)) || (was != St::Ing && matches!(op, Op::RConnack(_)));
                    self.ck(F15, raw | (exp != 0), "a timer is armed although its interval is 0");
                    self.ck(F15, raw | (*duration_ms == exp), "a timer is armed with a wrong duration");
                    self.ck(F15, (k == 1) != w.client, "a timer of the other role is armed");
                }
                GenericEvent::RequestTimerCancel(kind) => {
                    let k = tk(kind);
                    self.ck(F15, self.armed[k], "a timer that is not armed is cancelled");
                    self.armed[k] = false;
                    sx::reach("timer cancelled");
                }
                GenericEvent::RequestSendPacket { .. } => sent += 1,
                _ => {}
            }
        }
        if !self.on(F15) {
            return;
        }
        let any = self.armed[0] | self.armed[1] | self.armed[2];
        if matches!(op, Op::Closed) || sent_type(ev, 14) {
            sx::check(!any, "a timer stays armed after the connection was closed or DISCONNECT sent");
        }
        if was == St::Disc && w.st == St::Disc && !op.is_recv() {
            sx::check(!(set[0] | set[1] | set[2]), "a local call arms a timer while disconnected");
        }
        if w.st == St::Ed && w.client {
            if sent > 0 {
                let ms = self.interval();
                if ms != 0 {
                    sx::check(set[0] && self.armed[0], "the PINGREQ timer is not re-armed after a packet was sent");
                } else {
                    sx::check(!set[0], "the PINGREQ timer is armed although disabled");
                }
            }
            if sent_type(ev, 12) {
                sx::reach("PINGREQ sent");
                sx::check((self.resp_ms == 0) | set[2], "the response timer is not armed after PINGREQ");
            }
            if matches!(op, Op::RPing { t: 13 }) && !has_error(ev) {
                sx::check(!self.armed[2], "PINGRESP does not cancel the response timer");
            }
            if matches!(op, Op::RConnack(_)) && self.interval() == 0 {
                sx::check(!self.armed[0], "the PINGREQ timer stays armed although the negotiated keep-alive is 0");
            }
        }
        if matches!(op, Op::SetSendInterval(Some(0))) {
            sx::check(!self.armed[0], "the PINGREQ timer stays armed after it was disabled");
        }
        if !w.client && op.is_recv() && w.st != St::Disc && !has_error(ev) && !matches!(op, Op::RDisc { .. } | Op::RRaw(_)) {
            if self.recv_ms != 0 {
                sx::check(set[1] && self.armed[1], "the keep-alive timer is not re-armed after a packet was accepted");
            }
        }
        if !w.client && matches!(op, Op::SConnack(_)) && was == St::Ing && w.st == St::Ed && !self.rdisc {
            sx::check(self.armed[1] == (self.recv_ms != 0), "the keep-alive timer does not follow Server Keep Alive");
        }
        if let (St::Ed, Op::Timer(k)) = (was, op) {
            let fits = |n: u32| !self.v5 || w.peer_mps().map_or(true, |m| m >= n);
            match tk(k) {
                0 => sx::check(!fits(2) | sent_type(ev, 12), "expiry of the PINGREQ timer does not send PINGREQ"),
                _ => {
                    if self.v5 {
                        let d = sends(ev).iter().any(|p| {
                            let b = wire(p);
                            b.len() >= 3 && b[0] == 0xe0 && b[2] == 0x8d
                        });
                        sx::check(!fits(4) | d, "keep-alive expiry does not send DISCONNECT Keep Alive timeout");
                    }
                    sx::check(has_close(ev), "keep-alive expiry does not close");
                }
            }
        }
    }
    /// compares what was released with what should have been
    fn rel(&self, ev: &[Ev], exp: &[u16]) {
        if self.on(F08 | F06) {
            let r = released(ev);
            sx::check(same_set(exp, &r), "the released identifiers are not exactly those that became free");
        }
    }
    fn refused(&self, f: u64, ev: &[Ev], m: &'static str) {
        if self.on(f | F11) {
            let ok = errors(ev).len() == 1 && ev.len() == 1 + released(ev).len();
            sx::check(ok, m);
        }
    }
    pub fn step<R: RoleType>(&mut self, w: &mut W<R>, op: &Op, was: St, ev: &[Ev]) {
        self.general(w, op, was, ev);
        self.timers(w, op, was, ev);
        self.apply(w, op, was, ev);
        if w.st != St::Ed || matches!(op, Op::RConnack(_) | Op::SConnack(_)) {
            // bindings end with the connection (they are made after CONNACK at the earliest)
            if w.st != St::Ed {
                self.sal.clear();
            }
            if matches!(op, Op::Closed | Op::SConnect(_) | Op::RConnect(_)) && w.st != St::Ed {
                self.ral.clear();
            }
        }
        if !self.fin {
            self.state(w);
        }
    }
    fn apply<R: RoleType>(&mut self, w: &mut W<R>, op: &Op, was: St, ev: &[Ev]) {
        let ed = was == St::Ed;
        let err = has_error(ev);
        let mut exp: Vec<u16> = vec![];
        // every PUBLISH that is sent resolves at the receiver
        let mut topics: Vec<(enc::Pub, Vec<u8>)> = vec![];
        for p in sends(ev) {
            if ptype(p) == 3 {
                let d = enc::dec_publish(self.v5, &wire(p));
                let t = self.resolve_sent(w, &d);
                topics.push((d, t));
            }
        }
        let my_mps = if self.v5 && was != St::Disc { w.my_mps() } else { None };
        if op.is_recv() {
            let b = wire_of(self.v5, op);
            let two_phase = matches!(op, Op::RConnack(_) | Op::RConnect(_));
            if let Some(m) = my_mps {
                if let Op::RConnack(_) = op {
                    if b.len() as u32 > m {
                        self.ck(F14 | F05, err && notified(ev).is_empty(), "a CONNACK larger than the local maximum is delivered or not reported");
                        return;
                    }
                }
                let framing = matches!(op, Op::RRaw(b) if b.len() == 5 && b[4] & 0x80 != 0);
                if b.len() as u32 > m && !two_phase && !framing {
                    sx::reach("received packet too large");
                    let dis = sends(ev).iter().any(|p| {
                        let b = wire(p);
                        b.len() >= 3 && b[0] == 0xe0 && b[2] == 0x95
                    });
                    let fits = w.peer_mps().map_or(true, |m| m >= 4);
                    self.ck(F14, notified(ev).is_empty(), "a packet larger than the local Maximum Packet Size is delivered");
                    self.ck(F14, !ed | !fits | dis, "a packet larger than the local maximum is not answered with DISCONNECT Packet too large");
                    self.ck(F05 | F14, err, "a packet larger than the local maximum is not reported");
                    self.rel(ev, &exp);
                    return;
                }
                if ed && !framing && b.len() as u32 <= m {
                    let dis = sends(ev).iter().any(|p| {
                        let b = wire(p);
                        b.len() >= 3 && b[0] == 0xe0 && b[2] == 0x95
                    });
                    self.ck(F14, !dis, "a packet within the local maximum is answered with DISCONNECT Packet too large");
                }
            }
        }
        match op {
            Op::SConnect(c) => {
                if was == St::Disc {
                    self.ck(F11 | F05, !err && sends(ev).len() == 1, "CONNECT refused while disconnected");
                    self.session_start(c, w);
                } else {
                    self.refused(0, ev, "CONNECT is not refused");
                }
            }
            Op::RConnect(c) => {
                if was == St::Disc {
                    self.ck(F05 | F17, notified_type(ev, 1) && !err, "CONNECT not accepted by a disconnected server");
                    self.session_start(c, w);
                } else {
                    self.ck(F17 | F05, err && notified(ev).is_empty(), "a second CONNECT is not rejected");
                }
            }
            Op::RConnack(a) => {
                if was == St::Ing {
                    self.ck(F05, notified_type(ev, 2) && !err, "CONNACK not accepted");
                    self.connack(w, a.rc == 0, a.sp, a.sei, ev, &topics, &mut exp);
                } else if ed {
                    self.ck(F17 | F05, err && notified(ev).is_empty(), "a CONNACK on an established connection is not rejected");
                } else {
                    self.fin = true;
                }
            }
            Op::SConnack(a) => {
                let b = wire(&packet(self.v5, op));
                let big = self.v5 && was == St::Ing && w.cfg.mps.map_or(false, |m| b.len() as u32 > m);
                if was == St::Ing && !big {
                    self.ck(F11, sent_type(ev, 2) && !err, "CONNACK refused while connecting");
                    self.connack(w, a.rc == 0, a.sp, a.sei, ev, &topics, &mut exp);
                } else {
                    self.refused(F14, ev, "CONNACK is not refused");
                }
            }
            Op::SPub { qos, id, topic, alias, pl } => self.spub(w, ed, *qos, *id, topic.as_bytes(), *alias, *pl, ev, &topics, &mut exp),
            Op::SAck { t: 6, id, rc } => {
                let n = wire(&packet(self.v5, op)).len() as u32;
                let fits = !self.v5 || w.peer_mps().map_or(true, |m| m >= n);
                let allowed = ed | self.persist;
                let owned = has(&self.used, *id);
                if err {
                    self.ck(F11 | F06, !(allowed & owned & (fits | !ed)) | (!ed & !fits), "PUBREL refused without a reason");
                    self.refused(F06, ev, "a refused PUBREL has effects");
                } else {
                    self.ck(F11 | F06, allowed & owned, "PUBREL accepted although it cannot be sent");
                    self.ck(F11 | F06, sends(ev).len() == ed as usize, "an accepted PUBREL is not sent exactly once");
                    if ed {
                        self.ck(F06, eq_bytes(&wire(sends(ev)[0]), &enc::ack_rich(self.v5, 6, *id, *rc)), "wrong PUBREL sent");
                    }
                    let rel = enc::ack_rich(self.v5, 6, *id, *rc);
                    self.to_rel(*id, ed, rel);
                }
            }
            Op::SAck { t, id, rc } => {
                let n = wire(&packet(self.v5, op)).len() as u32;
                let fits = !self.v5 || w.peer_mps().map_or(true, |m| m >= n);
                if err {
                    self.ck(F11, !(ed & fits), "acknowledgement refused on an established connection");
                    self.refused(F11, ev, "a refused acknowledgement has effects");
                } else {
                    self.ck(F11, ed & (sends(ev).len() == 1), "an acknowledgement is not sent exactly once, or not on an established connection");
                    if rc.is_some() {
                        sx::reach("an answer with a reason code");
                    }
                    self.answered(*t, *id, rc.map_or(false, |r| r >= 0x80));
                }
            }
            Op::SSub { t, id } => {
                let b = wire(&packet(self.v5, op));
                let fits = !self.v5 || w.peer_mps().map_or(true, |m| b.len() as u32 <= m);
                let owned = has(&self.used, *id);
                if err {
                    self.ck(F11, !(ed & fits & owned), "SUBSCRIBE/UNSUBSCRIBE refused without a reason");
                    self.refused(F08, ev, "a refused SUBSCRIBE/UNSUBSCRIBE has effects");
                    if owned {
                        exp.push(*id);
                        del(&mut self.used, *id);
                    }
                } else {
                    self.ck(F11, ed & owned & (sends(ev).len() == 1), "SUBSCRIBE/UNSUBSCRIBE accepted although it cannot be sent");
                    self.ex.push(Ex { id: *id, kind: *t, wait: *t + 1, conn: false, maybe: false });
                }
            }
            Op::SSuback { .. } | Op::SPing { .. } => {
                let b = wire(&packet(self.v5, op));
                let fits = !self.v5 || w.peer_mps().map_or(true, |m| b.len() as u32 <= m);
                if ed & fits {
                    self.ck(F11, !err && sends(ev).len() == 1, "packet refused on an established connection");
                } else {
                    self.refused(F11, ev, "a refused packet has effects");
                }
            }
            Op::SDisc => {
                let n = wire(&packet(self.v5, op)).len() as u32;
                let fits = !self.v5 || w.peer_mps().map_or(true, |m| m >= n);
                if ed & fits {
                    self.ck(F11 | F19, !err && sends(ev).len() == 1 && has_close(ev), "DISCONNECT refused on an established connection or not closed");
                } else {
                    self.refused(F11, ev, "a refused DISCONNECT has effects");
                }
            }
            Op::SAuth => {
                let b = wire(&packet(self.v5, op));
                let fits = w.peer_mps().map_or(true, |m| b.len() as u32 <= m);
                if was == St::Disc {
                    self.refused(F11, ev, "AUTH is not refused while disconnected");
                } else {
                    self.ck(F11, err == !(fits | (w.client & (was == St::Ing))), "AUTH refused or accepted wrongly");
                }
            }
            Op::RPub { qos, id, topic, alias, .. } => self.rpub(w, was, *qos, *id, topic.as_bytes(), *alias, ev),
            Op::RAck { t: 6, id, .. } => {
                if *id == 0 {
                    self.ck(F05, err && notified(ev).is_empty(), "packet identifier 0 is accepted");
                } else if !err {
                    self.ck(F07, notified_type(ev, 6), "a PUBREL is not notified");
                    let known = has(&self.handled, *id);
                    del(&mut self.handled, *id);
                    if ed && self.auto_pub {
                        // Packet Identifier not found is the specified reason for an identifier without exchange
                        let ok = sends(ev).len() == 1 && {
                            let b = wire(sends(ev)[0]);
                            eq_bytes(&b, &enc::ack(7, *id, None)) | (self.v5 & !known & eq_bytes(&b, &enc::ack(7, *id, Some(0x92))))
                        };
                        self.ck(F07, ok, "a PUBREL is not answered with PUBCOMP");
                    }
                    if sent_type(ev, 7) {
                        self.answered(7, *id, false);
                    }
                } else {
                    // PUBCOMP does not fit: the exchange may have ended or not
                    let need = if has(&self.handled, *id) { 4 } else { 5 };
                    let fits = !self.v5 || w.peer_mps().map_or(true, |m| m >= need);
                    self.ck(F07, !fits, "a PUBREL is rejected");
                    if notified_type(ev, 6) {
                        del(&mut self.handled, *id);
                    }
                }
            }
            Op::RAck { t, id, rc } => self.rack(w, ed, *t, *id, rc.unwrap_or(0), ev, &mut exp),
            Op::RSuback { t, id, .. } => {
                let m = self.waiting(*id, *t);
                self.ck(F08 | F06 | F05, m == notified_type(ev, *t), "SUBACK/UNSUBACK: wrong matching");
                self.ck(F05, m != err, "SUBACK/UNSUBACK: neither delivered nor reported, or both");
                if !err {
                    if let Some(e) = self.end(*id, *t) {
                        del(&mut self.used, e.id);
                        exp.push(*id);
                        sx::reach("SUBACK accepted");
                    }
                }
            }
            Op::RSub { id, .. } => {
                self.ck(F05, if *id == 0 { err } else { notified(ev).len() == 1 }, "SUBSCRIBE/UNSUBSCRIBE not delivered");
            }
            Op::RPing { t } => {
                if ed {
                    self.ck(F05, notified_type(ev, *t), "PINGREQ/PINGRESP not delivered");
                    if *t == 12 && self.auto_ping {
                        let fits = !self.v5 || w.peer_mps().map_or(true, |m| m >= 2);
                        self.ck(F15, !fits | sent_type(ev, 13), "PINGREQ not answered");
                    }
                }
            }
            Op::RDisc { .. } | Op::RAuth => {
                self.ck(F05, notified_type(ev, op.ptype()) | (w.client && !self.v5), "DISCONNECT/AUTH not delivered");
            }
            Op::RRaw(_) => {
                self.fin = true;
            }
            Op::Acquire => {
                match w.last_id {
                    Some(i) => {
                        self.ck(F08, (i != 0) & !has(&self.used, i), "acquire returned 0 or an identifier that is in use");
                        self.used.push(i);
                    }
                    None => self.ck(F08, false, "acquire failed although identifiers are free"),
                }
            }
            Op::Register(i) => {
                let ok = (*i != 0) & !has(&self.used, *i);
                self.ck(F08, w.last_ok == ok, "register does not succeed exactly for free identifiers");
                if w.last_ok {
                    sx::reach("register succeeded");
                    self.used.push(*i);
                }
            }
            Op::Release(i) => {
                if has(&self.used, *i) {
                    exp.push(*i);
                    del(&mut self.used, *i);
                    self.ex.retain(|e| e.id != *i);
                }
                self.ck(F08, ev.len() == exp.len(), "release of an identifier has other effects");
            }
            Op::Erase(i) => {
                let mut p = None;
                for k in 0..self.store.len() {
                    if !self.store[k].rel && self.store[k].id == *i {
                        p = Some(k);
                    }
                }
                if let Some(k) = p {
                    self.store.remove(k);
                    self.ex.retain(|e| e.id != *i);
                    del(&mut self.used, *i);
                    exp.push(*i);
                    sx::reach("stored PUBLISH erased");
                }
                self.ck(F08 | F06, ev.len() == exp.len(), "erasing a stored PUBLISH has other effects");
            }
            Op::Closed => {
                let persist = self.persist;
                let mut i = 0;
                while i < self.ex.len() {
                    if self.ex[i].kind >= 8 || !persist {
                        let e = self.ex.remove(i);
                        exp.push(e.id);
                        del(&mut self.used, e.id);
                    } else {
                        self.ex[i].conn = false;
                        self.ex[i].maybe = self.ex[i].wait == 0;
                        i += 1;
                    }
                }
                if !exp.is_empty() {
                    sx::reach("identifiers released at close");
                }
                if !persist {
                    self.store.clear();
                    self.handled.clear();
                }
                self.rx.clear();
                self.ska_ms = None;
                self.recv_ms = 0;
                self.ka_ms = 0;
                self.ck(F05 | F08, !err && sends(ev).is_empty() && !has_close(ev), "the close notification has other effects");
            }
            Op::Timer(k) => {
                if tk(k) != 0 && self.v5 && was == St::Disc {
                    self.ck(F15, ev.is_empty(), "a timer firing while disconnected has effects");
                }
            }
            Op::SetSendInterval(_) => {}
            Op::Restart(l) => {
                // an exchange that goes on with a PUBREL of the application is not in the export: its identifier is just held
                if self.ex.iter().any(|e| e.wait == 0) {
                    sx::reach("restarted with a PUBREL owed");
                }
                self.ex.retain(|e| !l.contains(&e.id));
                sx::reach("restarted from the export");
            }
            Op::SetOffline(b) => {
                self.offline = *b;
                self.persist |= *b;
            }
        }
        if self.fin {
            return;
        }
        self.rel(ev, &exp);
    }
    fn session_start<R: RoleType>(&mut self, c: &enc::Cfg, w: &W<R>) {
        if c.clean {
            self.wipe();
        }
        let _ = w;
        self.persist = if self.v5 { c.sei.map_or(false, |s| s != 0) } else { !c.clean };
        self.ex.retain(|e| e.kind <= 2);
        self.rx.clear();
    }
    fn connack<R: RoleType>(&mut self, w: &W<R>, ok: bool, sp: bool, sei: Option<u32>, ev: &[Ev], topics: &[(enc::Pub, Vec<u8>)], exp: &mut Vec<u16>) {
        let skip = !w.client as usize;
        let s: Vec<&Pk> = sends(ev).into_iter().skip(skip).collect();
        if !ok {
            self.ck(F06 | F11, s.is_empty(), "packets are sent after a refusing CONNACK");
            return;
        }
        if let (true, Some(v)) = (self.v5, sei) {
            self.persist = v != 0;
        }
        if !sp {
            self.ck(F06, s.is_empty(), "packets are retransmitted although the session is not present");
            self.wipe();
            return;
        }
        // everything stored is sent again, in order, except what is too large for the peer
        let lim = if self.v5 { w.peer_mps() } else { None };
        let mut i = 0;
        let mut n = 0;
        let mut t = 0;
        while i < self.store.len() {
            let fits = lim.map_or(true, |m| self.store[i].wire.len() as u32 <= m);
            if fits {
                if self.on(F06 | F13 | F14) {
                    sx::check(n < s.len(), "a stored packet is not retransmitted on session resume");
                    let b = wire(s[n]);
                    sx::check(eq_bytes(&b, &self.store[i].wire), "a retransmitted packet differs from the stored one (order, identifier, DUP, topic, alias)");
                    sx::reach("stored packet retransmitted");
                }
                if !self.store[i].rel && t < topics.len() {
                    self.ck(F13 | F06, topics[t].0.alias.is_none() & !topics[t].0.topic.is_empty() & topics[t].0.dup, "a retransmitted PUBLISH carries an alias, no topic, or no DUP");
                    t += 1;
                }
                let id = self.store[i].id;
                for e in self.ex.iter_mut() {
                    if e.id == id {
                        e.conn = true;
                    }
                }
                n += 1;
                i += 1;
            } else {
                sx::reach("oversize stored packet dropped on resume");
                let p = self.store.remove(i);
                exp.push(p.id);
                del(&mut self.used, p.id);
                self.ex.retain(|e| e.id != p.id);
            }
        }
        self.ck(F06, n == s.len(), "more packets are retransmitted than are stored");
        // right after CONNACK, before any other packet
        if w.client {
            self.ck(F06, notified_type(ev, 2), "CONNACK is not notified");
        }
        if !self.persist {
            for s in self.store.iter_mut() {
                s.opt = true;
            }
        }
    }
    fn to_rel(&mut self, id: u16, ed: bool, wire: Vec<u8>) {
        if let Some(p) = self.ex.iter().position(|e| e.id == id) {
            self.ex[p].wait = 7;
            if ed {
                self.ex[p].conn = true;
            }
        } else {
            self.ex.push(Ex { id, kind: 2, wait: 7, conn: ed, maybe: true });
        }
        if self.persist {
            if !self.store.iter().any(|s| s.rel && s.id == id) {
                self.store.push(Sp { id, rel: true, wire, opt: false });
            }
        }
    }
    fn answered(&mut self, t: u8, id: u16, fail: bool) {
        if t != 5 || fail {
            del(&mut self.rx, id);
        }
        if t == 5 && fail {
            del(&mut self.handled, id);
        }
    }
    fn spub<R: RoleType>(&mut self, w: &W<R>, ed: bool, qos: u8, id: u16, topic: &[u8], alias: Option<u16>, pl: u8, ev: &[Ev], topics: &[(enc::Pub, Vec<u8>)], exp: &mut Vec<u16>) {
        let err = has_error(ev);
        let allowed = ed || (qos > 0 && (self.persist || self.offline));
        let owned = qos == 0 || has(&self.used, id);
        let tam = if ed { w.peer_tam().unwrap_or(0) } else { 0 };
        let mut full = topic.to_vec();
        let mut alias_ok = true;
        if self.v5 {
            if let Some(a) = alias {
                alias_ok = ed & (a >= 1) & (a <= tam);
            }
            if topic.is_empty() {
                match alias.and_then(|a| M::bound(&self.sal, a)) {
                    Some(t) => full = t,
                    None => alias_ok = false,
                }
            }
        }
        let orig = enc::publish(self.v5, qos, false, topic, id, alias, &enc::payload(pl));
        let lim = if self.v5 && (ed || (w.st == St::Ing && !w.client)) { w.peer_mps() } else { None };
        let big = lim.map_or(false, |m| orig.len() as u32 > m);
        let (lo, hi) = self.count();
        let rm = if self.v5 && ed && qos > 0 { w.peer_rm().map(|v| v as u32) } else { None };
        let must_refuse_rm = rm.map_or(false, |m| lo >= m);
        let may_refuse_rm = rm.map_or(false, |m| hi >= m);
        if err {
            self.refused(F08 | F06 | F12 | F13, ev, "a refused PUBLISH has effects");
            sx::reach("PUBLISH refused");
            let reason = !allowed | !owned | !alias_ok | big | may_refuse_rm;
            self.ck(F11 | F12 | F13 | F06, reason, "a PUBLISH is refused without a reason");
            if qos > 0 && has(&self.used, id) {
                exp.push(id);
                del(&mut self.used, id);
            }
            return;
        }
        self.ck(F11 | F06, allowed, "a PUBLISH is accepted although nothing is established and the session does not persist");
        self.ck(F11 | F08, owned, "a PUBLISH with an identifier that is not in use is accepted");
        self.ck(F13, alias_ok, "a PUBLISH with an unusable topic alias is accepted");
        self.ck(F14, !big | !ed, "a PUBLISH larger than the peer's maximum is accepted");
        self.ck(F12, !must_refuse_rm, "more QoS>0 PUBLISH than the peer's Receive Maximum are accepted");
        self.ck(F06 | F11, sends(ev).len() == ed as usize, "an accepted PUBLISH is not requested for sending exactly once");
        if ed {
            sx::reach("PUBLISH sent");
            if topics.len() == 1 {
                let (d, t) = &topics[0];
                self.ck(F13, eq_bytes(t, &full), "a PUBLISH sent resolves to another topic at the receiver");
                self.ck(F06, (d.qos == qos) & (d.pid == id) & !d.dup & eq_bytes(&d.payload, &enc::payload(pl)), "a PUBLISH is sent with other fields than the application gave");
            }
        }
        if qos > 0 {
            if self.persist || !ed {
                self.store.push(Sp { id, rel: false, wire: enc::publish(self.v5, qos, true, &full, id, None, &enc::payload(pl)), opt: false });
                sx::reach("PUBLISH stored");
            }
            self.ex.push(Ex { id, kind: qos, wait: qos + 3, conn: ed, maybe: false });
        }
    }
    fn rack<R: RoleType>(&mut self, w: &W<R>, ed: bool, t: u8, id: u16, rc: u8, ev: &[Ev], exp: &mut Vec<u16>) {
        let err = has_error(ev);
        let n = notified_type(ev, t);
        let m = self.waiting(id, t);
        let fits = !self.v5 || w.peer_mps().map_or(true, |m| m >= 4);
        // an acknowledgement that matches nothing is an error; one that matches is delivered
        self.ck(F06 | F05, m | err, "an acknowledgement that matches nothing is not reported");
        self.ck(F06 | F05 | F08, m | !n, "an acknowledgement that matches nothing is delivered");
        self.ck(F06 | F12, !m | n | !ed, "a matching acknowledgement is not delivered");
        if !n {
            self.ck(F06, m | (sends(ev).iter().all(|p| ptype(p) == 14)), "an unmatched acknowledgement is answered");
            return;
        }
        sx::reach("matching acknowledgement");
        let e = self.end(id, t);
        if e.is_none() {
            return;
        }
        let e = e.unwrap();
        if t != 5 || rc >= 0x80 {
            if t == 5 {
                sx::reach("PUBREC with failure");
            }
            del(&mut self.used, id);
            exp.push(id);
            self.ck(F06 | F12, !err, "a matching acknowledgement is reported as an error");
            return;
        }
        self.ex.push(Ex { wait: 0, ..e });
        if self.auto_pub && ed {
            if sent_type(ev, 6) {
                self.ck(F06, sends(ev).len() == 1 && eq_bytes(&wire(sends(ev)[0]), &enc::ack(6, id, None)), "PUBREC is not answered with PUBREL");
                self.to_rel(id, true, enc::ack(6, id, None));
            } else {
                self.ck(F06, !fits, "PUBREC is not answered with PUBREL");
            }
        } else {
            self.ck(F06, sends(ev).is_empty(), "PUBREC is answered although automatic responses are off");
        }
    }
    fn rpub<R: RoleType>(&mut self, w: &W<R>, was: St, qos: u8, id: u16, topic: &[u8], alias: Option<u16>, ev: &[Ev]) {
        let ed = was == St::Ed;
        let err = has_error(ev);
        let n = notified(ev).len() == 1;
        let dis = |rc: u8| {
            sends(ev).iter().any(|p| {
                let b = wire(p);
                b.len() >= 3 && b[0] == 0xe0 && b[2] == rc
            })
        };
        let fits4 = !self.v5 || w.peer_mps().map_or(true, |m| m >= 4);
        if qos > 0 && id == 0 {
            self.ck(F05, err & !n, "packet identifier 0 is accepted");
            return;
        }
        if self.v5 && qos > 0 && was != St::Disc {
            if let Some(max) = w.my_rm() {
                let excess = !has(&self.rx, id) & (self.rx.len() as u32 >= max as u32);
                self.ck(F12, !excess | !n, "a PUBLISH beyond the local Receive Maximum is delivered");
                self.ck(F12, !excess | !ed | !fits4 | dis(0x93), "a PUBLISH beyond the local Receive Maximum is not answered with DISCONNECT Receive Maximum exceeded");
                self.ck(F12, excess | !dis(0x93), "DISCONNECT Receive Maximum exceeded although within the maximum");
                if excess {
                    sx::reach("Receive Maximum exceeded by the peer");
                    return;
                }
            }
        }
        let mut full = topic.to_vec();
        if self.v5 {
            let tam = if was != St::Disc { w.my_tam().unwrap_or(0) } else { 0 };
            let mut ok = true;
            if let Some(a) = alias {
                ok = (a >= 1) & (a <= tam);
            }
            if topic.is_empty() {
                match alias.and_then(|a| M::bound(&self.ral, a)) {
                    Some(t) => full = t,
                    None => ok = false,
                }
            }
            self.ck(F13, ok | !n, "a PUBLISH with an invalid topic alias is delivered");
            self.ck(F13, ok | err, "a PUBLISH with an invalid topic alias is not reported");
            self.ck(F13, ok | !ed | !fits4 | dis(0x94), "a PUBLISH with an invalid topic alias is not rejected as Topic Alias invalid");
            self.ck(F13, !ok | !dis(0x94), "a PUBLISH with a valid topic alias is rejected");
            if !ok {
                sx::reach("invalid alias received");
                return;
            }
            if let (Some(a), false) = (alias, topic.is_empty()) {
                M::bind(&mut self.ral, a, topic);
            }
        }
        if n {
            let p = notified(ev)[0];
            self.ck(F13 | F07, eq_bytes(crate::world::topic(p).as_bytes(), &full), "a PUBLISH is delivered with another topic");
        }
        if qos == 2 {
            let h = has(&self.handled, id);
            self.ck(F07, !(h & n), "a retransmitted QoS 2 PUBLISH is notified again");
            self.ck(F07, h | n, "a QoS 2 PUBLISH is swallowed");
            let rec = sends(ev).len() == 1 && eq_bytes(&wire(sends(ev)[0]), &enc::ack(5, id, None));
            self.ck(F07, !h | !ed | !fits4 | rec, "a retransmitted QoS 2 PUBLISH is not answered with PUBREC");
            if ed && self.auto_pub {
                self.ck(F07, !fits4 | rec, "a QoS 2 PUBLISH is not answered with PUBREC");
            } else {
                self.ck(F07, h | sends(ev).is_empty(), "a QoS 2 PUBLISH is answered although automatic responses are off");
            }
            if !n {
                sx::reach("QoS 2 duplicate suppressed");
            }
            put(&mut self.handled, id);
            put(&mut self.rx, id);
        } else {
            self.ck(F05, n, "a valid PUBLISH is not delivered");
            if qos == 1 {
                put(&mut self.rx, id);
                if ed && self.auto_pub {
                    let ack = sends(ev).len() == 1 && eq_bytes(&wire(sends(ev)[0]), &enc::ack(4, id, None));
                    self.ck(F07, !fits4 | ack, "a QoS 1 PUBLISH is not answered with PUBACK");
                }
                if sent_type(ev, 4) {
                    self.answered(4, id, false);
                }
            }
        }
    }
    /// exported state and queries
    fn state<R: RoleType>(&mut self, w: &W<R>) {
        if self.on(F06) || self.store.iter().any(|x| x.opt) {
            let s = w.stored();
            let mut j = 0;
            let mut i = 0;
            while i < self.store.len() {
                if j < s.len() && eq_bytes(&wire_store(&s[j]), &self.store[i].wire) {
                    j += 1;
                    i += 1;
                } else {
                    self.ck(F06, self.store[i].opt, "the export lacks a packet that is not acknowledged, or holds it altered or out of order");
                    self.store.remove(i);
                }
            }
            self.ck(F06, j == s.len(), "the export holds a packet that is not in flight, or altered or out of order");
        }
        if self.on(F12) && self.v5 {
            let v = w.c.get_receive_maximum_vacancy_for_send();
            match (if w.st == St::Disc { None } else { w.peer_rm() }, v) {
                (Some(m), Some(v)) => {
                    let (lo, hi) = self.count();
                    let (a, b) = ((m as u32).saturating_sub(hi), (m as u32).saturating_sub(lo));
                    sx::check((v as u32 >= a) & (v as u32 <= b), "the vacancy is not Receive Maximum minus the incomplete exchanges");
                }
                (Some(_), None) => sx::check(false, "no vacancy reported although the peer announced a Receive Maximum"),
                (None, Some(_)) => sx::check(w.st == St::Disc, "a vacancy is reported although the peer announced no Receive Maximum"),
                _ => {}
            }
        }
        if self.on(F07) {
            let h: Vec<u16> = w.c.get_qos2_publish_handled().into_iter().collect();
            sx::check(same_set(&self.handled, &h), "the exported set of handled QoS 2 identifiers is not the set of notified, unreleased ones");
        }
    }
    /// questions asked at the end of a path
    /// what the application itself stores has the full topic name and no alias
    fn regulate<R: RoleType>(&mut self, w: &W<R>) {
        use mqtt_protocol_core::mqtt::packet::{v5_0, PayloadFormat, PayloadFormatIndicator, Property, TopicAlias};
        let (t, alias) = match sx::choose(3) {
            0 => ("abc", None),
            n => (if n == 1 { "abc" } else { "" }, Some(sx::u16())),
        };
        let mut p = vec![Property::PayloadFormatIndicator(PayloadFormatIndicator::new(PayloadFormat::String).unwrap())];
        if let Some(a) = alias {
            sx::assume(a != 0);
            p.insert(sx::choose(2) as usize, Property::TopicAlias(TopicAlias::new(a).unwrap()));
        }
        let b = v5_0::Publish::builder().topic_name(t).unwrap().qos(qos(1)).packet_id(5).retain(true).payload(vec![7]).props(p).build().unwrap();
        let full = if t.is_empty() { if w.st == St::Ed { M::bound(&self.sal, alias.unwrap()) } else { None } } else { Some(t.as_bytes().to_vec()) };
        let r = w.c.regulate_for_store(b);
        match (r, full) {
            (Ok(p), Some(f)) => {
                let x = enc::B::new().s(&f).u16(5).block(&[1, 1]).raw(&[7]).frame(0x33);
                sx::check(eq_bytes(&p.to_continuous_buffer(), &x) & (p.size() == x.len()), "a PUBLISH regulated for storing has not the full topic name and no alias");
                sx::reach("PUBLISH regulated");
            }
            (Ok(_), None) => self.ck(F13, w.st != St::Ed, "a PUBLISH with an alias that is not bound is regulated for storing"),
            (Err(_), f) => self.ck(F13, f.is_none(), "a PUBLISH with a usable topic is not regulated for storing"),
        }
    }
    pub fn last<R: RoleType>(&mut self, w: &mut W<R>) {
        enc::set_rich(0);
        if self.on(F08) && !self.fin {
            let q = sx::u16();
            let ok = w.c.register_packet_id(q).is_ok();
            sx::check(ok == ((q != 0) & !has(&self.used, q)), "an identifier can be registered although it is in use, or not although it is free");
        }
        if self.on(FREG) && self.v5 && !self.fin {
            self.regulate(w);
        }
        if self.on(F05) {
            // the object accepts a new connection after the transport was reported closed
            w.exec(&Op::Closed);
            let c = enc::Cfg { clean: true, ..enc::Cfg::default() };
            if w.client {
                let ev = w.exec(&Op::SConnect(c));
                sx::check(!has_error(&ev) && sent_type(&ev, 1), "CONNECT refused after the transport was reported closed");
                let ev = w.exec(&Op::RConnack(enc::Ack::default()));
                sx::check(!has_error(&ev) && notified_type(&ev, 2), "CONNACK refused on the next connection");
            } else {
                let ev = w.exec(&Op::RConnect(c));
                sx::check(!has_error(&ev) && notified_type(&ev, 1), "CONNECT refused after the transport was reported closed");
                let ev = w.exec(&Op::SConnack(enc::Ack::default()));
                sx::check(!has_error(&ev) && sent_type(&ev, 2), "CONNACK refused on the next connection");
            }
            let ev = w.exec(&Op::SPub { qos: 0, id: 0, topic: "a", alias: None, pl: 1 });
            sx::check(!has_error(&ev) && sent_type(&ev, 3), "PUBLISH refused on the next connection");
        }
    }
}
