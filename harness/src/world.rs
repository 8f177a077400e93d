//! Drives one real connection object; keeps only facts that follow from what the application asked for, what
//! was on the wire and what the connection reported (an observer, independent of the connection's own state).
#![allow(dead_code)]
use crate::enc::{self, Ack, Cfg};
use crate::sx;
use mqtt_protocol_core::mqtt;
use mqtt::connection::event::{GenericEvent, TimerKind};
use mqtt::connection::{GenericConnection, Sendable};
use mqtt::packet::{v3_1_1, v5_0, GenericPacket, GenericPacketTrait, GenericStorePacket, Property, Qos, SubEntry, SubOpts};
use mqtt::result_code::*;
use mqtt::role::RoleType;
pub type Ev = GenericEvent<u16>;
pub use mqtt::role::{Any, Client, Server};
pub use mqtt::Version;
pub use TimerKind::{PingreqRecv, PingreqSend, PingrespRecv};
pub type Pk = GenericPacket<u16>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum St {
    Disc,
    Ing,
    Ed,
}
#[derive(Clone)]
pub enum Op {
    SConnect(Cfg),
    SConnack(Ack),
    SPub { qos: u8, id: u16, topic: &'static str, alias: Option<u16>, pl: u8 },
    SAck { t: u8, id: u16, rc: Option<u8> },
    SSub { t: u8, id: u16 },
    SSuback { t: u8, id: u16 },
    SPing { t: u8 },
    SDisc,
    SAuth,
    RConnect(Cfg),
    RConnack(Ack),
    RPub { qos: u8, dup: bool, id: u16, topic: &'static str, alias: Option<u16>, pl: u8 },
    RAck { t: u8, id: u16, rc: Option<u8> },
    RSub { t: u8, id: u16 },
    RSuback { t: u8, id: u16, rc: u8 },
    RPing { t: u8 },
    RDisc { rc: Option<u8> },
    RAuth,
    RRaw(Vec<u8>),
    Acquire,
    Register(u16),
    Release(u16),
    Erase(u16),
    Closed,
    Timer(TimerKind),
    SetSendInterval(Option<u64>),
    SetOffline(bool),
    /// the process dies; a new object is given the export and the application registers the identifiers it still uses
    Restart(Vec<u16>),
}
/// options of the application
#[derive(Default, Clone)]
pub struct Opts {
    pub auto_pub: bool,
    pub auto_ping: bool,
    pub map: bool,
    pub replace: bool,
    pub resp: u64,
    pub interval: Option<u64>,
    pub offline: bool,
}
impl Op {
    pub fn is_recv(&self) -> bool {
        use Op::*;
        matches!(self, RConnect(_) | RConnack(_) | RPub { .. } | RAck { .. } | RSub { .. } | RSuback { .. } | RPing { .. } | RDisc { .. } | RAuth | RRaw(_))
    }
    pub fn is_send(&self) -> bool {
        use Op::*;
        matches!(self, SConnect(_) | SConnack(_) | SPub { .. } | SAck { .. } | SSub { .. } | SSuback { .. } | SPing { .. } | SDisc | SAuth)
    }
    /// control packet type of a packet operation
    pub fn ptype(&self) -> u8 {
        use Op::*;
        match self {
            SConnect(_) | RConnect(_) => 1,
            SConnack(_) | RConnack(_) => 2,
            SPub { .. } | RPub { .. } => 3,
            SAck { t, .. } | RAck { t, .. } => *t,
            SSub { t, .. } | RSub { t, .. } => *t,
            SSuback { t, .. } | RSuback { t, .. } => *t,
            SPing { t } | RPing { t } => *t,
            SDisc | RDisc { .. } => 14,
            SAuth | RAuth => 15,
            _ => 0,
        }
    }
}

pub fn qos(q: u8) -> Qos {
    match q {
        0 => Qos::AtMostOnce,
        1 => Qos::AtLeastOnce,
        _ => Qos::ExactlyOnce,
    }
}
/// the properties enc::rich_props() encodes
fn rich_props(t: u8) -> Vec<Property> {
    use mqtt::packet as k;
    let user = || Property::UserProperty(k::UserProperty::new("k", "v").unwrap());
    let reason = || Property::ReasonString(k::ReasonString::new("r").unwrap());
    let text = core::str::from_utf8(&enc::LONG).unwrap();
    let long = || Property::UserProperty(k::UserProperty::new("k", text).unwrap());
    let method = || Property::AuthenticationMethod(k::AuthenticationMethod::new("m").unwrap());
    match (t, enc::rich()) {
        (_, 0) => vec![],
        (1, 1) => vec![user()],
        (1, _) => vec![
            Property::RequestProblemInformation(k::RequestProblemInformation::new(0).unwrap()),
            Property::RequestResponseInformation(k::RequestResponseInformation::new(1).unwrap()),
            method(),
            long(),
        ],
        (2, 1) => vec![
            Property::RetainAvailable(k::RetainAvailable::new(0).unwrap()),
            Property::AssignedClientIdentifier(k::AssignedClientIdentifier::new("x").unwrap()),
            user(),
        ],
        (2, _) => vec![
            Property::MaximumQos(k::MaximumQos::new(1).unwrap()),
            Property::WildcardSubscriptionAvailable(k::WildcardSubscriptionAvailable::new(0).unwrap()),
            Property::SharedSubscriptionAvailable(k::SharedSubscriptionAvailable::new(0).unwrap()),
            Property::SubscriptionIdentifierAvailable(k::SubscriptionIdentifierAvailable::new(0).unwrap()),
            Property::ReasonString(k::ReasonString::new(text).unwrap()),
        ],
        (3, 1) => vec![Property::PayloadFormatIndicator(k::PayloadFormatIndicator::new(k::PayloadFormat::String).unwrap()), user()],
        (3, _) => vec![
            Property::MessageExpiryInterval(k::MessageExpiryInterval::new(9).unwrap()),
            Property::ContentType(k::ContentType::new("c").unwrap()),
            Property::ResponseTopic(k::ResponseTopic::new("r").unwrap()),
            Property::CorrelationData(k::CorrelationData::new("d").unwrap()),
        ],
        (4..=7, 1) => vec![reason(), user()],
        (8, 1) => vec![Property::SubscriptionIdentifier(k::SubscriptionIdentifier::new(5).unwrap())],
        (14, 1) => vec![reason()],
        (14, _) => vec![],
        (15, 1) => vec![method()],
        (15, _) => vec![method(), Property::AuthenticationData(k::AuthenticationData::new("d").unwrap()), Property::ReasonString(k::ReasonString::new(text).unwrap())],
        (_, 1) => vec![user()],
        _ => vec![long()],
    }
}
/// build the packet of a send operation with the public builders
pub fn packet(v5: bool, op: &Op) -> Pk {
    use Op::*;
    let rich = enc::rich();
    let arc = if let SAck { rc, .. } = op { if rich != 0 { Some(rc.unwrap_or(0)) } else { *rc } } else { None };
    match op {
        SConnect(c) => {
            if v5 {
                let mut p: Vec<Property> = rich_props(1);
                if let Some(v) = c.sei {
                    p.push(Property::SessionExpiryInterval(mqtt::packet::SessionExpiryInterval::new(v).unwrap()))
                }
                if let Some(v) = c.rm {
                    p.push(Property::ReceiveMaximum(mqtt::packet::ReceiveMaximum::new(v).unwrap()))
                }
                if let Some(v) = c.mps {
                    p.push(Property::MaximumPacketSize(mqtt::packet::MaximumPacketSize::new(v).unwrap()))
                }
                if let Some(v) = c.tam {
                    p.push(Property::TopicAliasMaximum(mqtt::packet::TopicAliasMaximum::new(v).unwrap()))
                }
                let mut b = v5_0::Connect::builder().client_id("c").unwrap().clean_start(c.clean).keep_alive(c.ka).props(p);
                if rich == 1 {
                    let wp = vec![Property::WillDelayInterval(mqtt::packet::WillDelayInterval::new(1).unwrap())];
                    b = b.will_message("w", b"p".to_vec(), Qos::ExactlyOnce, true).unwrap().will_props(wp).user_name("u").unwrap().password(b"s".to_vec()).unwrap();
                }
                b.build().unwrap().into()
            } else {
                let mut b = v3_1_1::Connect::builder().client_id("c").unwrap().clean_session(c.clean).keep_alive(c.ka);
                if rich == 1 {
                    b = b.will_message("w", b"p".to_vec(), Qos::ExactlyOnce, true).unwrap().user_name("u").unwrap().password(b"s".to_vec()).unwrap();
                }
                b.build().unwrap().into()
            }
        }
        SConnack(a) => {
            if v5 {
                let mut p: Vec<Property> = if a.rc == 0 { rich_props(2) } else { vec![] };
                if let Some(v) = a.sei {
                    p.push(Property::SessionExpiryInterval(mqtt::packet::SessionExpiryInterval::new(v).unwrap()))
                }
                if let Some(v) = a.rm {
                    p.push(Property::ReceiveMaximum(mqtt::packet::ReceiveMaximum::new(v).unwrap()))
                }
                if let Some(v) = a.mps {
                    p.push(Property::MaximumPacketSize(mqtt::packet::MaximumPacketSize::new(v).unwrap()))
                }
                if let Some(v) = a.tam {
                    p.push(Property::TopicAliasMaximum(mqtt::packet::TopicAliasMaximum::new(v).unwrap()))
                }
                if let Some(v) = a.ska {
                    p.push(Property::ServerKeepAlive(mqtt::packet::ServerKeepAlive::new(v).unwrap()))
                }
                let rc = if a.rc == 0 { ConnectReasonCode::Success } else { [ConnectReasonCode::NotAuthorized, ConnectReasonCode::ServerUnavailable, ConnectReasonCode::ServerMoved][rich as usize] };
                v5_0::Connack::builder().session_present(a.sp).reason_code(rc).props(p).build().unwrap().into()
            } else {
                let rc = if a.rc == 0 { ConnectReturnCode::Accepted } else { [ConnectReturnCode::NotAuthorized, ConnectReturnCode::ServerUnavailable, ConnectReturnCode::UnacceptableProtocolVersion][rich as usize] };
                v3_1_1::Connack::builder().session_present(a.sp).return_code(rc).build().unwrap().into()
            }
        }
        SPub { qos: q, id, topic, alias, pl } => {
            if v5 {
                let mut b = v5_0::Publish::builder().topic_name(*topic).unwrap().qos(qos(*q)).retain(rich != 0).payload(enc::payload(*pl));
                if *q > 0 {
                    b = b.packet_id(*id);
                }
                let mut p = rich_props(3);
                if let Some(a) = alias {
                    p.push(Property::TopicAlias(mqtt::packet::TopicAlias::new(*a).unwrap()));
                }
                if !p.is_empty() {
                    b = b.props(p);
                }
                b.build().unwrap().into()
            } else {
                let mut b = v3_1_1::Publish::builder().topic_name(*topic).unwrap().qos(qos(*q)).retain(rich != 0).payload(enc::payload(*pl));
                if *q > 0 {
                    b = b.packet_id(*id);
                }
                b.build().unwrap().into()
            }
        }
        SAck { t, id, rc } => match (v5, t) {
            (false, 4) => v3_1_1::Puback::builder().packet_id(*id).build().unwrap().into(),
            (false, 5) => v3_1_1::Pubrec::builder().packet_id(*id).build().unwrap().into(),
            (false, 6) => v3_1_1::Pubrel::builder().packet_id(*id).build().unwrap().into(),
            (false, _) => v3_1_1::Pubcomp::builder().packet_id(*id).build().unwrap().into(),
            (true, 4) => {
                let b = v5_0::Puback::builder().packet_id(*id);
                let b = if let Some(r) = arc { b.reason_code(PubackReasonCode::try_from(r).unwrap()) } else { b };
                if rich != 0 { b.props(rich_props(4)) } else { b }.build().unwrap().into()
            }
            (true, 5) => {
                let b = v5_0::Pubrec::builder().packet_id(*id);
                let b = if let Some(r) = arc { b.reason_code(PubrecReasonCode::try_from(r).unwrap()) } else { b };
                if rich != 0 { b.props(rich_props(5)) } else { b }.build().unwrap().into()
            }
            (true, 6) => {
                let b = v5_0::Pubrel::builder().packet_id(*id);
                let b = if let Some(r) = arc { b.reason_code(PubrelReasonCode::try_from(r).unwrap()) } else { b };
                if rich != 0 { b.props(rich_props(6)) } else { b }.build().unwrap().into()
            }
            (true, _) => {
                let b = v5_0::Pubcomp::builder().packet_id(*id);
                let b = if let Some(r) = arc { b.reason_code(PubcompReasonCode::try_from(r).unwrap()) } else { b };
                if rich != 0 { b.props(rich_props(7)) } else { b }.build().unwrap().into()
            }
        },
        SSub { t: 8, id } => {
            let o = |q| SubOpts::new().set_qos(q);
            let e = match rich {
                0 => vec![SubEntry::new("t", SubOpts::new()).unwrap()],
                1 => vec![SubEntry::new("t", o(Qos::AtLeastOnce)).unwrap(), SubEntry::new("#", o(Qos::ExactlyOnce)).unwrap()],
                _ => vec![SubEntry::new(if v5 { "$share/g/t" } else { "a/+/#" }, o(Qos::ExactlyOnce)).unwrap()],
            };
            if v5 {
                v5_0::Subscribe::builder().packet_id(*id).entries(e).props(rich_props(8)).build().unwrap().into()
            } else {
                v3_1_1::Subscribe::builder().packet_id(*id).entries(e).build().unwrap().into()
            }
        }
        SSub { id, .. } => {
            if v5 {
                v5_0::Unsubscribe::builder().packet_id(*id).entries(if rich == 1 { vec!["+/x", "t"] } else { vec!["t"] }).unwrap().props(rich_props(10)).build().unwrap().into()
            } else {
                v3_1_1::Unsubscribe::builder().packet_id(*id).entries(if rich == 1 { vec!["+/x", "t"] } else { vec!["t"] }).unwrap().build().unwrap().into()
            }
        }
        SSuback { t: 9, id } => {
            if v5 {
                v5_0::Suback::builder().packet_id(*id).reason_codes(if rich == 0 { vec![SubackReasonCode::GrantedQos0] } else { vec![SubackReasonCode::NotAuthorized, SubackReasonCode::GrantedQos2] }).props(rich_props(9)).build().unwrap().into()
            } else {
                v3_1_1::Suback::builder().packet_id(*id).return_codes(if rich == 0 { vec![SubackReturnCode::SuccessMaximumQos0] } else { vec![SubackReturnCode::Failure, SubackReturnCode::SuccessMaximumQos2] }).build().unwrap().into()
            }
        }
        SSuback { id, .. } => {
            if v5 {
                v5_0::Unsuback::builder().packet_id(*id).reason_codes(if rich == 0 { vec![UnsubackReasonCode::Success] } else { vec![UnsubackReasonCode::NoSubscriptionExisted, UnsubackReasonCode::Success] }).props(rich_props(11)).build().unwrap().into()
            } else {
                v3_1_1::Unsuback::builder().packet_id(*id).build().unwrap().into()
            }
        }
        SPing { t } => match (v5, t) {
            (false, 12) => v3_1_1::Pingreq::new().into(),
            (false, _) => v3_1_1::Pingresp::new().into(),
            (true, 12) => v5_0::Pingreq::new().into(),
            (true, _) => v5_0::Pingresp::new().into(),
        },
        SDisc => {
            if v5 {
                let b = v5_0::Disconnect::builder();
                match rich {
                    0 => b,
                    1 => b.reason_code(DisconnectReasonCode::DisconnectWithWillMessage).props(rich_props(14)),
                    _ => b.reason_code(DisconnectReasonCode::AdministrativeAction),
                }
                .build()
                .unwrap()
                .into()
            } else {
                v3_1_1::Disconnect::new().into()
            }
        }
        SAuth => v5_0::Auth::builder()
            .reason_code([AuthReasonCode::ContinueAuthentication, AuthReasonCode::ReAuthenticate, AuthReasonCode::Success][rich as usize])
            .props(if rich == 0 { vec![Property::AuthenticationMethod(mqtt::packet::AuthenticationMethod::new("m").unwrap())] } else { rich_props(15) })
            .build()
            .unwrap()
            .into(),
        _ => panic!("not a send operation"),
    }
}
/// wire bytes of a receive operation, from the independent encoder
pub fn wire_of(v5: bool, op: &Op) -> Vec<u8> {
    use Op::*;
    match op {
        RConnect(c) => enc::connect(v5, c),
        RConnack(a) => enc::connack(v5, a),
        RPub { qos, dup, id, topic, alias, pl } => enc::publish(v5, *qos, *dup, topic.as_bytes(), *id, *alias, &enc::payload(*pl)),
        RAck { t, id, rc } => enc::ack_rich(v5, *t, *id, *rc),
        RSub { t: 8, id } => enc::subscribe(v5, *id),
        RSub { id, .. } => enc::unsubscribe(v5, *id),
        RSuback { t: 9, id, rc } => enc::suback(v5, *id, *rc),
        RSuback { id, rc, .. } => enc::unsuback(v5, *id, *rc),
        RPing { t: 12 } => enc::pingreq(),
        RPing { .. } => enc::pingresp(),
        RDisc { rc } => enc::disconnect(*rc),
        RAuth => enc::auth([0x18, 0x19, 0][enc::rich() as usize]),
        RRaw(b) => b.clone(),
        _ => panic!("not a receive operation"),
    }
}
pub fn wire(p: &Pk) -> Vec<u8> {
    p.to_continuous_buffer()
}
pub fn ptype(p: &Pk) -> u8 {
    p.packet_type() as u8
}
pub fn pid(p: &Pk) -> Option<u16> {
    use GenericPacket::*;
    match p {
        V3_1_1Publish(p) => p.packet_id(),
        V5_0Publish(p) => p.packet_id(),
        V3_1_1Puback(p) => Some(p.packet_id()),
        V5_0Puback(p) => Some(p.packet_id()),
        V3_1_1Pubrec(p) => Some(p.packet_id()),
        V5_0Pubrec(p) => Some(p.packet_id()),
        V3_1_1Pubrel(p) => Some(p.packet_id()),
        V5_0Pubrel(p) => Some(p.packet_id()),
        V3_1_1Pubcomp(p) => Some(p.packet_id()),
        V5_0Pubcomp(p) => Some(p.packet_id()),
        V3_1_1Subscribe(p) => Some(p.packet_id()),
        V5_0Subscribe(p) => Some(p.packet_id()),
        V3_1_1Suback(p) => Some(p.packet_id()),
        V5_0Suback(p) => Some(p.packet_id()),
        V3_1_1Unsubscribe(p) => Some(p.packet_id()),
        V5_0Unsubscribe(p) => Some(p.packet_id()),
        V3_1_1Unsuback(p) => Some(p.packet_id()),
        V5_0Unsuback(p) => Some(p.packet_id()),
        _ => None,
    }
}
pub fn topic(p: &Pk) -> &str {
    match p {
        GenericPacket::V3_1_1Publish(p) => p.topic_name(),
        GenericPacket::V5_0Publish(p) => p.topic_name(),
        _ => "",
    }
}
/// library-independent comparison of two event lists; equal(...) is branch-free in the symbolic parts
pub fn flat(e: &Ev) -> (u8, u64, u64, Vec<u8>, Vec<u8>) {
    match e {
        GenericEvent::NotifyPacketReceived(p) => (1, 0, 0, wire(p), topic(p).as_bytes().to_vec()),
        GenericEvent::RequestSendPacket { packet, release_packet_id_if_send_error: r } => (2, r.is_some() as u64, r.unwrap_or(0) as u64, wire(packet), vec![]),
        GenericEvent::NotifyPacketIdReleased(i) => (3, *i as u64, 0, vec![], vec![]),
        GenericEvent::RequestTimerReset { kind, duration_ms } => (4, *kind as u64, *duration_ms, vec![], vec![]),
        GenericEvent::RequestTimerCancel(k) => (5, *k as u64, 0, vec![], vec![]),
        GenericEvent::NotifyError(e) => (6, *e as u64, 0, vec![], vec![]),
        GenericEvent::RequestClose => (7, 0, 0, vec![], vec![]),
    }
}
pub fn eq_bytes(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
/// are the lists equal?  Released-id events that are adjacent may be permuted (set iteration order).
pub fn equal(a: &[Ev], b: &[Ev]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut ok = true;
    for i in 0..a.len() {
        let (x, y) = (flat(&a[i]), flat(&b[i]));
        if x.0 != y.0 {
            return false;
        }
        if x.0 == 3 {
            // membership in both directions over all released ids of the list
            let mut m = false;
            let mut n = false;
            for j in 0..a.len() {
                if let GenericEvent::NotifyPacketIdReleased(k) = &b[j] {
                    m |= *k as u64 == x.1;
                }
                if let GenericEvent::NotifyPacketIdReleased(k) = &a[j] {
                    n |= *k as u64 == y.1;
                }
            }
            ok &= m & n;
        } else {
            ok &= (x.1 == y.1) & (x.2 == y.2) & eq_bytes(&x.3, &y.3) & eq_bytes(&x.4, &y.4);
        }
    }
    ok
}
pub fn sends<'a>(ev: &'a [Ev]) -> Vec<&'a Pk> {
    ev.iter()
        .filter_map(|e| match e {
            GenericEvent::RequestSendPacket { packet, .. } => Some(packet),
            _ => None,
        })
        .collect()
}
pub fn notified<'a>(ev: &'a [Ev]) -> Vec<&'a Pk> {
    ev.iter()
        .filter_map(|e| match e {
            GenericEvent::NotifyPacketReceived(packet) => Some(packet),
            _ => None,
        })
        .collect()
}
pub fn released(ev: &[Ev]) -> Vec<u16> {
    ev.iter()
        .filter_map(|e| match e {
            GenericEvent::NotifyPacketIdReleased(i) => Some(*i),
            _ => None,
        })
        .collect()
}
pub fn errors(ev: &[Ev]) -> Vec<MqttError> {
    ev.iter()
        .filter_map(|e| match e {
            GenericEvent::NotifyError(i) => Some(*i),
            _ => None,
        })
        .collect()
}
pub fn has_error(ev: &[Ev]) -> bool {
    ev.iter().any(|e| matches!(e, GenericEvent::NotifyError(_)))
}
pub fn has_close(ev: &[Ev]) -> bool {
    ev.iter().any(|e| matches!(e, GenericEvent::RequestClose))
}
pub fn sent_type(ev: &[Ev], t: u8) -> bool {
    sends(ev).iter().any(|p| ptype(p) == t)
}
pub fn notified_type(ev: &[Ev], t: u8) -> bool {
    notified(ev).iter().any(|p| ptype(p) == t)
}
pub fn tk(k: &TimerKind) -> usize {
    match k {
        PingreqSend => 0,
        PingreqRecv => 1,
        PingrespRecv => 2,
    }
}
pub fn obs(ev: &[Ev]) {
    for e in ev {
        let f = flat(e);
        sx::obs(f.0 as u32, f.1);
        sx::obs_bytes(100 + f.0 as u32, &f.3);
    }
}

pub struct W<R: RoleType> {
    pub c: GenericConnection<R, u16>,
    pub v5: bool,
    /// acts as client on the current/last connection
    pub client: bool,
    pub st: St,
    /// parameters of the current connection: what CONNECT said / what CONNACK said
    pub cfg: Cfg,
    pub ack: Ack,
    /// the session outlives the current connection
    pub persist: bool,
    pub last_id: Option<u16>,
    pub last_ok: bool,
    pub quiet: bool,
    pub opts: Opts,
}
impl<R: RoleType> W<R> {
    pub fn options(&mut self) {
        let o = self.opts.clone();
        self.c.set_auto_pub_response(o.auto_pub);
        self.c.set_auto_ping_response(o.auto_ping);
        self.c.set_auto_map_topic_alias_send(o.map);
        self.c.set_auto_replace_topic_alias_send(o.replace);
        self.c.set_pingresp_recv_timeout(o.resp);
    }
    pub fn new(v5: bool, client: bool) -> W<R> {
        W {
            c: GenericConnection::new(if v5 { Version::V5_0 } else { Version::V3_1_1 }),
            v5,
            client,
            st: St::Disc,
            cfg: Cfg::default(),
            ack: Ack::default(),
            persist: false,
            opts: Opts::default(),
            last_id: None,
            last_ok: false,
            quiet: false,
        }
    }
    pub fn recv(&mut self, b: &[u8]) -> Vec<Ev> {
        let mut cur = mqtt::common::Cursor::new(b);
        let ev = self.c.recv(&mut cur);
        sx::check(cur.position() == b.len() as u64, "recv did not consume exactly the packet");
        ev
    }
    /// limits the peer announced on this connection
    pub fn peer_rm(&self) -> Option<u16> {
        if self.client { self.ack.rm } else { self.cfg.rm }
    }
    pub fn peer_tam(&self) -> Option<u16> {
        if self.client { self.ack.tam } else { self.cfg.tam }
    }
    pub fn peer_mps(&self) -> Option<u32> {
        if self.client { self.ack.mps } else { self.cfg.mps }
    }
    pub fn my_rm(&self) -> Option<u16> {
        if self.client { self.cfg.rm } else { self.ack.rm }
    }
    pub fn my_tam(&self) -> Option<u16> {
        if self.client { self.cfg.tam } else { self.ack.tam }
    }
    pub fn my_mps(&self) -> Option<u32> {
        if self.client { self.cfg.mps } else { self.ack.mps }
    }
    pub fn exec(&mut self, op: &Op) -> Vec<Ev> {
        use Op::*;
        let ev = if op.is_send() {
            let p = packet(self.v5, op);
            self.c.send(p)
        } else if op.is_recv() {
            let b = wire_of(self.v5, op);
            self.recv(&b)
        } else {
            match op {
                Acquire => {
                    self.last_id = self.c.acquire_packet_id().ok();
                    vec![]
                }
                Register(i) => {
                    self.last_ok = self.c.register_packet_id(*i).is_ok();
                    vec![]
                }
                Release(i) => self.c.release_packet_id(*i),
                Erase(i) => self.c.erase_stored_publish(*i),
                Closed => self.c.notify_closed(),
                Timer(k) => self.c.notify_timer_fired(*k),
                SetSendInterval(d) => {
                    self.opts.interval = *d;
                    self.c.set_pingreq_send_interval(*d)
                }
                Restart(ids) => {
                    let st = self.c.get_stored_packets();
                    let h = self.c.get_qos2_publish_handled();
                    self.c = GenericConnection::new(if self.v5 { Version::V5_0 } else { Version::V3_1_1 });
                    self.options();
                    self.c.set_pingreq_send_interval(self.opts.interval);
                    self.c.set_offline_publish(self.opts.offline);
                    self.c.restore_packets(st);
                    self.c.restore_qos2_publish_handled(h);
                    for i in ids {
                        sx::check(self.c.register_packet_id(*i).is_ok(), "an identifier that is not in the export is in use after the restore");
                    }
                    vec![]
                }
                SetOffline(b) => {
                    self.opts.offline = *b;
                    self.c.set_offline_publish(*b);
                    self.persist |= *b;
                    vec![]
                }
                _ => unreachable!(),
            }
        };
        // observed status
        match op {
            SConnect(c) if sent_type(&ev, 1) => {
                self.client = true;
                self.st = St::Ing;
                self.cfg = c.clone();
                self.ack = Ack::default();
                self.persist = if self.v5 { c.sei.map_or(false, |s| s != 0) } else { !c.clean };
            }
            RConnect(c) if notified_type(&ev, 1) => {
                self.client = false;
                self.st = St::Ing;
                self.cfg = c.clone();
                self.ack = Ack::default();
                self.persist = if self.v5 { c.sei.map_or(false, |s| s != 0) } else { !c.clean };
            }
            SConnack(a) if sent_type(&ev, 2) => {
                if a.rc == 0 {
                    self.st = St::Ed;
                    self.ack = a.clone();
                    if let (true, Some(s)) = (self.v5, a.sei) {
                        self.persist = s != 0;
                    }
                } else {
                    self.st = St::Disc;
                }
            }
            RConnack(a) if notified_type(&ev, 2) && a.rc == 0 && self.st == St::Ing => {
                self.st = St::Ed;
                self.ack = a.clone();
                if let (true, Some(s)) = (self.v5, a.sei) {
                    self.persist = s != 0;
                }
            }
            Closed => self.st = St::Disc,
            _ => {}
        }
        if sent_type(&ev, 14) {
            self.st = St::Disc;
        }
        if !self.quiet {
            obs(&ev);
        }
        ev
    }
    pub fn stored(&self) -> Vec<GenericStorePacket<u16>> {
        self.c.get_stored_packets()
    }
}
pub fn wire_store(p: &GenericStorePacket<u16>) -> Vec<u8> {
    p.to_continuous_buffer()
}
/// free memory is irrelevant for checking; skipping drops halves the work
pub fn done<T>(t: T) {
    std::mem::forget(t)
}
