//! Abstract MQTT packets, independent of the library: reference encoder, generator of symbolic packets, and the two
//! translations to and from the library's packet types (public builders, public accessors).
//! Numbers, tables and layouts are written from the OASIS specifications.
#![allow(dead_code)]
use crate::enc::B;
use crate::sx;
use mqtt_protocol_core::mqtt;
use mqtt::packet::{self, v3_1_1 as v3, v5_0 as v5, GenericPacket, IntoPacketId, IsPacketId, MqttString, Property, Qos};
use mqtt::result_code::*;

pub const CONNECT: u8 = 1;
pub const CONNACK: u8 = 2;
pub const PUBLISH: u8 = 3;
pub const PUBACK: u8 = 4;
pub const PUBREC: u8 = 5;
pub const PUBREL: u8 = 6;
pub const PUBCOMP: u8 = 7;
pub const SUBSCRIBE: u8 = 8;
pub const SUBACK: u8 = 9;
pub const UNSUBSCRIBE: u8 = 10;
pub const UNSUBACK: u8 = 11;
pub const PINGREQ: u8 = 12;
pub const PINGRESP: u8 = 13;
pub const DISCONNECT: u8 = 14;
pub const AUTH: u8 = 15;
/// pseudo location: properties of the will message
pub const WILL: u8 = 0;

#[derive(Clone)]
pub enum V {
    Byte(u8),
    Two(u16),
    Four(u32),
    Vbi(u32),
    Text(Vec<u8>),
    Bin(Vec<u8>),
    Pair(Vec<u8>, Vec<u8>),
}
pub type Props = Vec<(u8, V)>;
#[derive(Clone)]
pub struct Will {
    pub props: Props,
    pub topic: Vec<u8>,
    pub payload: Vec<u8>,
    pub qos: u8,
    pub retain: bool,
}
#[derive(Clone, Default)]
pub struct A {
    pub v5: bool,
    pub t: u8,
    pub dup: bool,
    pub retain: bool,
    pub qos: u8,
    pub pid: Option<u32>,
    pub rc: Option<u8>,
    pub codes: Vec<u8>,
    pub props: Option<Props>,
    pub topic: Option<Vec<u8>>,
    pub payload: Vec<u8>,
    pub subs: Vec<(Vec<u8>, u8)>,
    pub clean: bool,
    pub ka: u16,
    pub client: Vec<u8>,
    pub will: Option<Will>,
    pub user: Option<Vec<u8>>,
    pub pass: Option<Vec<u8>>,
    pub sp: bool,
    /// will properties given to the builder although there is no will
    pub stray_wprops: Option<Props>,
    /// every setter is first called with other values
    pub twice: bool,
    /// which conversion the payload takes into the builder
    pub psrc: u8,
}

// ---------------------------------------------------------------------------------------------- specification tables

#[derive(Clone, Copy, PartialEq, Eq)]
pub enum Ty {
    Byte,
    Two,
    Four,
    Vbi,
    Text,
    Bin,
    Pair,
}
pub const IDS: [u8; 27] =
    [1, 2, 3, 8, 9, 11, 17, 18, 19, 21, 22, 23, 24, 25, 26, 28, 31, 33, 34, 35, 36, 37, 38, 39, 40, 41, 42];
/// MQTT v5.0 table 2-4: type of each property
pub fn ty(id: u8) -> Option<Ty> {
    Some(match id {
        1 | 23 | 25 | 36 | 37 | 40 | 41 | 42 => Ty::Byte,
        19 | 33 | 34 | 35 => Ty::Two,
        2 | 17 | 24 | 39 => Ty::Four,
        11 => Ty::Vbi,
        3 | 8 | 18 | 21 | 26 | 28 | 31 => Ty::Text,
        9 | 22 => Ty::Bin,
        38 => Ty::Pair,
        _ => return None,
    })
}
/// MQTT v5.0 table 2-4: where each property may appear
pub fn allowed(id: u8, loc: u8) -> bool {
    let l: &[u8] = match id {
        1 | 2 | 3 | 8 | 9 => &[PUBLISH, WILL],
        11 => &[PUBLISH, SUBSCRIBE],
        17 => &[CONNECT, CONNACK, DISCONNECT],
        18 | 19 | 26 | 36 | 37 | 40 | 41 | 42 => &[CONNACK],
        21 | 22 => &[CONNECT, CONNACK, AUTH],
        23 | 25 => &[CONNECT],
        24 => &[WILL],
        28 => &[CONNACK, DISCONNECT],
        31 => &[CONNACK, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBACK, UNSUBACK, DISCONNECT, AUTH],
        33 | 34 | 39 => &[CONNECT, CONNACK],
        35 => &[PUBLISH],
        38 => &[
            CONNECT, CONNACK, PUBLISH, WILL, PUBACK, PUBREC, PUBREL, PUBCOMP, SUBSCRIBE, SUBACK, UNSUBSCRIBE, UNSUBACK,
            DISCONNECT, AUTH,
        ],
        _ => &[],
    };
    l.contains(&loc)
}
pub fn repeatable(id: u8, loc: u8) -> bool {
    id == 38 || (id == 11 && loc == PUBLISH)
}
/// non-empty and without wildcards
pub fn topic_ok(t: &[u8]) -> bool {
    let mut ok = !t.is_empty();
    for b in t {
        ok &= (*b != b'#') & (*b != b'+');
    }
    ok
}
/// is the value one the specification permits for that property
pub fn value_ok(id: u8, v: &V) -> bool {
    match (id, v) {
        (1 | 23 | 25 | 36 | 37 | 40 | 41 | 42, V::Byte(b)) => *b < 2,
        (33 | 35, V::Two(w)) => *w != 0,
        (39, V::Four(d)) => *d != 0,
        (11, V::Vbi(d)) => *d != 0,
        (8, V::Text(s)) => topic_ok(s),
        _ => true,
    }
}
macro_rules! codes {
    ($to:ident, $from:ident, $T:ident, $list:ident, $($n:literal $V:ident),*) => {
        pub const $list: &[u8] = &[$($n),*];
        pub fn $to(b: u8) -> Option<$T> {
            Some(match b { $($n => $T::$V,)* _ => return None })
        }
        pub fn $from(c: $T) -> u8 {
            match c { $($T::$V => $n),* }
        }
    };
}
codes!(crc3_to, crc3_from, ConnectReturnCode, CRC3, 0 Accepted, 1 UnacceptableProtocolVersion, 2 IdentifierRejected,
    3 ServerUnavailable, 4 BadUserNameOrPassword, 5 NotAuthorized);
codes!(src3_to, src3_from, SubackReturnCode, SRC3, 0 SuccessMaximumQos0, 1 SuccessMaximumQos1, 2 SuccessMaximumQos2, 0x80 Failure);
codes!(crc_to, crc_from, ConnectReasonCode, CRC, 0 Success, 0x80 UnspecifiedError, 0x81 MalformedPacket, 0x82 ProtocolError,
    0x83 ImplementationSpecificError, 0x84 UnsupportedProtocolVersion, 0x85 ClientIdentifierNotValid, 0x86 BadUserNameOrPassword,
    0x87 NotAuthorized, 0x88 ServerUnavailable, 0x89 ServerBusy, 0x8a Banned, 0x8c BadAuthenticationMethod, 0x90 TopicNameInvalid,
    0x95 PacketTooLarge, 0x97 QuotaExceeded, 0x99 PayloadFormatInvalid, 0x9a RetainNotSupported, 0x9b QosNotSupported,
    0x9c UseAnotherServer, 0x9d ServerMoved, 0x9f ConnectionRateExceeded);
codes!(puback_to, puback_from, PubackReasonCode, PUBACK_RC, 0 Success, 0x10 NoMatchingSubscribers, 0x80 UnspecifiedError,
    0x83 ImplementationSpecificError, 0x87 NotAuthorized, 0x90 TopicNameInvalid, 0x91 PacketIdentifierInUse, 0x97 QuotaExceeded,
    0x99 PayloadFormatInvalid);
codes!(pubrec_to, pubrec_from, PubrecReasonCode, PUBREC_RC, 0 Success, 0x10 NoMatchingSubscribers, 0x80 UnspecifiedError,
    0x83 ImplementationSpecificError, 0x87 NotAuthorized, 0x90 TopicNameInvalid, 0x91 PacketIdentifierInUse, 0x97 QuotaExceeded,
    0x99 PayloadFormatInvalid);
codes!(pubrel_to, pubrel_from, PubrelReasonCode, PUBREL_RC, 0 Success, 0x92 PacketIdentifierNotFound);
codes!(pubcomp_to, pubcomp_from, PubcompReasonCode, PUBCOMP_RC, 0 Success, 0x92 PacketIdentifierNotFound);
codes!(suback_to, suback_from, SubackReasonCode, SUBACK_RC, 0 GrantedQos0, 1 GrantedQos1, 2 GrantedQos2, 0x80 UnspecifiedError,
    0x83 ImplementationSpecificError, 0x87 NotAuthorized, 0x8f TopicFilterInvalid, 0x91 PacketIdentifierInUse, 0x97 QuotaExceeded,
    0x9e SharedSubscriptionsNotSupported, 0xa1 SubscriptionIdentifiersNotSupported, 0xa2 WildcardSubscriptionsNotSupported);
codes!(unsuback_to, unsuback_from, UnsubackReasonCode, UNSUBACK_RC, 0 Success, 0x11 NoSubscriptionExisted, 0x80 UnspecifiedError,
    0x83 ImplementationSpecificError, 0x87 NotAuthorized, 0x8f TopicFilterInvalid, 0x91 PacketIdentifierInUse);
codes!(disc_to, disc_from, DisconnectReasonCode, DISC_RC, 0 NormalDisconnection, 4 DisconnectWithWillMessage, 0x80 UnspecifiedError,
    0x81 MalformedPacket, 0x82 ProtocolError, 0x83 ImplementationSpecificError, 0x87 NotAuthorized, 0x89 ServerBusy,
    0x8b ServerShuttingDown, 0x8d KeepAliveTimeout, 0x8e SessionTakenOver, 0x8f TopicFilterInvalid, 0x90 TopicNameInvalid,
    0x93 ReceiveMaximumExceeded, 0x94 TopicAliasInvalid, 0x95 PacketTooLarge, 0x96 MessageRateTooHigh, 0x97 QuotaExceeded,
    0x98 AdministrativeAction, 0x99 PayloadFormatInvalid, 0x9a RetainNotSupported, 0x9b QosNotSupported, 0x9c UseAnotherServer,
    0x9d ServerMoved, 0x9e SharedSubscriptionsNotSupported, 0x9f ConnectionRateExceeded, 0xa0 MaximumConnectTime,
    0xa1 SubscriptionIdentifiersNotSupported, 0xa2 WildcardSubscriptionsNotSupported);
codes!(auth_to, auth_from, AuthReasonCode, AUTH_RC, 0 Success, 0x18 ContinueAuthentication, 0x19 ReAuthenticate);

/// reason codes the specification lists for a packet (return codes in v3.1.1; the acknowledgements' optional v3.1.1 reason
/// code is an extension of the library and takes the v5.0 values)
pub fn rc_list(v5: bool, t: u8) -> &'static [u8] {
    match (t, v5) {
        (CONNACK, false) => CRC3,
        (CONNACK, true) => CRC,
        (SUBACK, false) => SRC3,
        (SUBACK, true) => SUBACK_RC,
        (PUBACK, _) => PUBACK_RC,
        (PUBREC, _) => PUBREC_RC,
        (PUBREL, _) => PUBREL_RC,
        (PUBCOMP, _) => PUBCOMP_RC,
        (UNSUBACK, _) => UNSUBACK_RC,
        (DISCONNECT, _) => DISC_RC,
        (AUTH, _) => AUTH_RC,
        _ => &[],
    }
}

// ------------------------------------------------------------------------------------------------- reference encoder

pub fn enc_prop(b: B, id: u8, v: &V) -> B {
    let b = b.u8(id);
    match v {
        V::Byte(x) => b.u8(*x),
        V::Two(x) => b.u16(*x),
        V::Four(x) => b.u32(*x),
        V::Vbi(x) => {
            let mut b = b;
            crate::enc::vbi(&mut b.0, *x as usize);
            b
        }
        V::Text(s) | V::Bin(s) => b.s(s),
        V::Pair(k, v) => b.s(k).s(v),
    }
}
pub fn enc_props(p: &Props) -> Vec<u8> {
    let mut b = B::new();
    for (id, v) in p {
        b = enc_prop(b, *id, v);
    }
    b.0
}
fn pid(b: B, w: usize, id: u32) -> B {
    if w == 2 {
        b.u16(id as u16)
    } else {
        b.u32(id)
    }
}
pub fn b0(a: &A) -> u8 {
    match a.t {
        PUBLISH => 0x30 | (a.dup as u8) << 3 | a.qos << 1 | a.retain as u8,
        PUBREL | SUBSCRIBE | UNSUBSCRIBE => a.t << 4 | 2,
        t => t << 4,
    }
}
/// body (everything behind the fixed header) with packet identifiers of `w` bytes
pub fn enc_body(a: &A, w: usize) -> Vec<u8> {
    let none = vec![];
    let pr = enc_props(a.props.as_ref().unwrap_or(&none));
    let id = a.pid.unwrap_or(0);
    let b = B::new();
    match a.t {
        CONNECT => {
            let mut fl = (a.clean as u8) << 1;
            if let Some(w) = &a.will {
                fl |= 4 | w.qos << 3 | (w.retain as u8) << 5;
            }
            fl |= (a.pass.is_some() as u8) << 6 | (a.user.is_some() as u8) << 7;
            let mut b = b.s(b"MQTT").u8(if a.v5 { 5 } else { 4 }).u8(fl).u16(a.ka);
            if a.v5 {
                b = b.block(&pr);
            }
            b = b.s(&a.client);
            if let Some(w) = &a.will {
                if a.v5 {
                    b = b.block(&enc_props(&w.props));
                }
                b = b.s(&w.topic).s(&w.payload);
            }
            b.if_some(a.user.as_ref(), |b, u| b.s(u)).if_some(a.pass.as_ref(), |b, p| b.s(p))
        }
        CONNACK => {
            let b = b.u8(a.sp as u8).u8(a.rc.unwrap_or(0));
            if a.v5 {
                b.block(&pr)
            } else {
                b
            }
        }
        PUBLISH => {
            let mut b = b.s(a.topic.as_deref().unwrap_or(&[]));
            if a.qos > 0 {
                b = pid(b, w, id);
            }
            if a.v5 {
                b = b.block(&pr);
            }
            b.raw(&a.payload)
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            let b = pid(b, w, id).if_some(a.rc, |b, r| b.u8(r));
            if a.props.is_some() {
                b.block(&pr)
            } else {
                b
            }
        }
        SUBSCRIBE | UNSUBSCRIBE => {
            let mut b = pid(b, w, id);
            if a.v5 {
                b = b.block(&pr);
            }
            for (f, o) in &a.subs {
                b = b.s(f);
                if a.t == SUBSCRIBE {
                    b = b.u8(*o);
                }
            }
            b
        }
        SUBACK | UNSUBACK => {
            let mut b = pid(b, w, id);
            if a.v5 {
                b = b.block(&pr);
            }
            b.raw(&a.codes)
        }
        DISCONNECT | AUTH => {
            let b = b.if_some(a.rc, |b, r| b.u8(r));
            if a.props.is_some() {
                b.block(&pr)
            } else {
                b
            }
        }
        _ => b,
    }
    .0
}

// ---------------------------------------------------------------------------------------------------------- equality

/// equality without branching on contents
pub fn same(a: &[u8], b: &[u8]) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut d = 0u8;
    for i in 0..a.len() {
        d |= a[i] ^ b[i];
    }
    d == 0
}
pub fn same_v(a: &V, b: &V) -> bool {
    match (a, b) {
        (V::Byte(a), V::Byte(b)) => a == b,
        (V::Two(a), V::Two(b)) => a == b,
        (V::Four(a), V::Four(b)) | (V::Vbi(a), V::Vbi(b)) => a == b,
        (V::Text(a), V::Text(b)) | (V::Bin(a), V::Bin(b)) => same(a, b),
        (V::Pair(a, c), V::Pair(b, d)) => same(a, b) & same(c, d),
        _ => false,
    }
}
pub fn same_props(a: &Props, b: &Props) -> bool {
    if a.len() != b.len() {
        return false;
    }
    let mut r = true;
    for i in 0..a.len() {
        r &= a[i].0 == b[i].0 && same_v(&a[i].1, &b[i].1);
    }
    r
}
pub fn same_opt<T>(a: &Option<T>, b: &Option<T>, f: impl Fn(&T, &T) -> bool) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(a), Some(b)) => f(a, b),
        _ => false,
    }
}
fn o_bytes(a: &Option<Vec<u8>>, b: &Option<Vec<u8>>) -> bool {
    same_opt(a, b, |a, b| same(a, b))
}

// ------------------------------------------------------------------------------------- translation to library packets

pub trait Id: IsPacketId + IntoPacketId<Self> + serde::Serialize + 'static {
    const W: usize;
    fn of(v: u32) -> Self;
    fn num(self) -> u32;
}
impl Id for u16 {
    const W: usize = 2;
    fn of(v: u32) -> u16 {
        v as u16
    }
    fn num(self) -> u32 {
        self as u32
    }
}
impl Id for u32 {
    const W: usize = 4;
    fn of(v: u32) -> u32 {
        v
    }
    fn num(self) -> u32 {
        self
    }
}
/// the bytes are ASCII or come from a valid str
pub fn st(b: &[u8]) -> &str {
    unsafe { core::str::from_utf8_unchecked(b) }
}
pub fn qos(q: u8) -> Qos {
    match q {
        0 => Qos::AtMostOnce,
        1 => Qos::AtLeastOnce,
        _ => Qos::ExactlyOnce,
    }
}
pub fn unqos(q: Qos) -> u8 {
    match q {
        Qos::AtMostOnce => 0,
        Qos::AtLeastOnce => 1,
        Qos::ExactlyOnce => 2,
    }
}
pub fn to_prop(id: u8, v: &V) -> Result<Property, MqttError> {
    use packet::*;
    Ok(match (id, v) {
        (1, V::Byte(b)) => {
            if *b > 1 {
                return Err(MqttError::ProtocolError); // cannot be expressed by the typed constructor
            }
            PayloadFormatIndicator::new(if *b == 0 { PayloadFormat::Binary } else { PayloadFormat::String })?.into()
        }
        (2, V::Four(x)) => MessageExpiryInterval::new(*x)?.into(),
        (3, V::Text(s)) => ContentType::new(st(s))?.into(),
        (8, V::Text(s)) => ResponseTopic::new(st(s))?.into(),
        (9, V::Bin(s)) => CorrelationData::new(s.clone())?.into(),
        (11, V::Vbi(x)) => SubscriptionIdentifier::new(*x)?.into(),
        (17, V::Four(x)) => SessionExpiryInterval::new(*x)?.into(),
        (18, V::Text(s)) => AssignedClientIdentifier::new(st(s))?.into(),
        (19, V::Two(x)) => ServerKeepAlive::new(*x)?.into(),
        (21, V::Text(s)) => AuthenticationMethod::new(st(s))?.into(),
        (22, V::Bin(s)) => AuthenticationData::new(s.clone())?.into(),
        (23, V::Byte(x)) => RequestProblemInformation::new(*x)?.into(),
        (24, V::Four(x)) => WillDelayInterval::new(*x)?.into(),
        (25, V::Byte(x)) => RequestResponseInformation::new(*x)?.into(),
        (26, V::Text(s)) => ResponseInformation::new(st(s))?.into(),
        (28, V::Text(s)) => ServerReference::new(st(s))?.into(),
        (31, V::Text(s)) => ReasonString::new(st(s))?.into(),
        (33, V::Two(x)) => ReceiveMaximum::new(*x)?.into(),
        (34, V::Two(x)) => TopicAliasMaximum::new(*x)?.into(),
        (35, V::Two(x)) => TopicAlias::new(*x)?.into(),
        (36, V::Byte(x)) => MaximumQos::new(*x)?.into(),
        (37, V::Byte(x)) => RetainAvailable::new(*x)?.into(),
        (38, V::Pair(k, v)) => UserProperty::new(st(k), st(v))?.into(),
        (39, V::Four(x)) => MaximumPacketSize::new(*x)?.into(),
        (40, V::Byte(x)) => WildcardSubscriptionAvailable::new(*x)?.into(),
        (41, V::Byte(x)) => SubscriptionIdentifierAvailable::new(*x)?.into(),
        (42, V::Byte(x)) => SharedSubscriptionAvailable::new(*x)?.into(),
        _ => panic!("harness: property of the wrong type"),
    })
}
pub fn to_props(p: &Props) -> Result<Vec<Property>, MqttError> {
    let mut r = vec![];
    for (id, v) in p {
        r.push(to_prop(*id, v)?);
    }
    Ok(r)
}
pub fn sub_opts(o: u8) -> packet::SubOpts {
    let rh = match (o >> 4) & 3 {
        0 => packet::RetainHandling::SendRetained,
        1 => packet::RetainHandling::SendRetainedIfNotExists,
        _ => packet::RetainHandling::DoNotSendRetained,
    };
    // every setter twice: the last call counts
    packet::SubOpts::new()
        .set_rh(packet::RetainHandling::SendRetainedIfNotExists)
        .set_qos(Qos::AtLeastOnce)
        .set_nl(true)
        .set_rap(true)
        .set_qos(Qos::ExactlyOnce)
        .set_rh(packet::RetainHandling::DoNotSendRetained)
        .set_qos(qos(o & 3))
        .set_nl(o & 4 != 0)
        .set_rap(o & 8 != 0)
        .set_rh(rh)
}
pub fn un_opts(o: &packet::SubOpts) -> u8 {
    let rh = match o.rh() {
        packet::RetainHandling::SendRetained => 0,
        packet::RetainHandling::SendRetainedIfNotExists => 1,
        packet::RetainHandling::DoNotSendRetained => 2,
    };
    unqos(o.qos()) | (o.nl() as u8) << 2 | (o.rap() as u8) << 3 | rh << 4
}
/// a code for which the library has no name: the packet cannot be expressed through the builder
fn named<T>(o: Option<T>) -> Result<T, MqttError> {
    o.ok_or(MqttError::ProtocolError)
}
macro_rules! build_ack3 {
    ($a:ident, $T:ident, $var:ident, $to:ident) => {{
        let mut b = v3::$T::<P>::builder();
        if let Some(i) = $a.pid {
            b = b.packet_id(P::of(i));
        }
        if let Some(r) = $a.rc {
            b = b.reason_code(named($to(r))?);
        }
        GenericPacket::$var(b.build()?)
    }};
}
macro_rules! build_ack5 {
    ($a:ident, $T:ident, $var:ident, $to:ident) => {{
        let mut b = v5::$T::<P>::builder();
        if let Some(i) = $a.pid {
            b = b.packet_id(P::of(i));
        }
        if let Some(r) = $a.rc {
            b = b.reason_code(named($to(r))?);
        }
        if let Some(p) = &$a.props {
            b = b.props(to_props(p)?);
        }
        GenericPacket::$var(b.build()?)
    }};
}
pub fn build<P: Id>(a: &A) -> Result<GenericPacket<P>, MqttError>
where
    GenericPacket<P>: Sized,
{
    Ok(match (a.t, a.v5) {
        (CONNECT, false) => {
            let mut b = v3::Connect::builder();
            if a.twice {
                b = b.client_id("zz")?.clean_session(!a.clean).keep_alive(0x1234);
                if a.will.is_some() {
                    b = b.will_message("zz", b"zz".to_vec(), Qos::AtLeastOnce, true)?;
                    b = b.will_message("zz", b"zz".to_vec(), Qos::ExactlyOnce, true)?;
                }
                if a.user.is_some() {
                    b = b.user_name("zz")?;
                }
                if a.pass.is_some() {
                    b = b.password(b"zz".to_vec())?;
                }
            }
            b = b.client_id(st(&a.client))?.clean_session(a.clean).keep_alive(a.ka);
            if let Some(w) = &a.will {
                b = b.will_message(st(&w.topic), w.payload.clone(), qos(w.qos), w.retain)?;
            }
            if let Some(u) = &a.user {
                b = b.user_name(st(u))?;
            }
            if let Some(p) = &a.pass {
                b = b.password(p.clone())?;
            }
            GenericPacket::V3_1_1Connect(b.build()?)
        }
        (CONNECT, true) => {
            let mut b = v5::Connect::builder();
            if a.twice {
                b = b.client_id("zz")?.clean_start(!a.clean).keep_alive(0x1234);
                if a.will.is_some() {
                    b = b.will_message("zz", b"zz".to_vec(), Qos::AtLeastOnce, true)?;
                    b = b.will_message("zz", b"zz".to_vec(), Qos::ExactlyOnce, true)?;
                }
                if a.user.is_some() {
                    b = b.user_name("zz")?;
                }
                if a.pass.is_some() {
                    b = b.password(b"zz".to_vec())?;
                }
            }
            b = b.client_id(st(&a.client))?.clean_start(a.clean).keep_alive(a.ka);
            if let Some(p) = &a.props {
                b = b.props(to_props(p)?);
            }
            if let Some(w) = &a.will {
                b = b.will_message(st(&w.topic), w.payload.clone(), qos(w.qos), w.retain)?.will_props(to_props(&w.props)?);
            }
            if let Some(p) = &a.stray_wprops {
                b = b.will_props(to_props(p)?);
            }
            if let Some(u) = &a.user {
                b = b.user_name(st(u))?;
            }
            if let Some(p) = &a.pass {
                b = b.password(p.clone())?;
            }
            GenericPacket::V5_0Connect(b.build()?)
        }
        (CONNACK, false) => {
            let mut b = v3::Connack::builder().session_present(a.sp);
            if let Some(r) = a.rc {
                b = b.return_code(named(crc3_to(r))?);
            }
            GenericPacket::V3_1_1Connack(b.build()?)
        }
        (CONNACK, true) => {
            let mut b = v5::Connack::builder().session_present(a.sp);
            if let Some(r) = a.rc {
                b = b.reason_code(named(crc_to(r))?);
            }
            if let Some(p) = &a.props {
                b = b.props(to_props(p)?);
            }
            GenericPacket::V5_0Connack(b.build()?)
        }
        (PUBLISH, false) => {
            let mut b = v3::GenericPublish::<P>::builder();
            if a.twice {
                b = b.qos(Qos::AtLeastOnce).qos(Qos::ExactlyOnce).retain(!a.retain).dup(!a.dup).payload("zz");
                if a.topic.is_some() {
                    b = b.topic_name("zz")?;
                }
                if a.pid.is_some() {
                    b = b.packet_id(P::of(0x1234));
                }
            }
            b = b.qos(qos(a.qos)).retain(a.retain).dup(a.dup);
            b = match a.psrc {
                0 => b.payload(a.payload.clone()),
                1 => b.payload(&a.payload[..]),
                2 => b.payload(&a.payload),
                3 => b.payload(mqtt::Arc::<[u8]>::from(&a.payload[..])),
                _ => {
                    // a part of a larger buffer
                    let mut l = vec![7u8; 3];
                    l.extend_from_slice(&a.payload);
                    l.extend_from_slice(b"more");
                    b.payload(mqtt::ArcPayload::new(mqtt::Arc::from(&l[..]), 3, a.payload.len()))
                }
            };
            if let Some(t) = &a.topic {
                b = b.topic_name(st(t))?;
            }
            if let Some(i) = a.pid {
                b = b.packet_id(P::of(i));
            }
            GenericPacket::V3_1_1Publish(b.build()?)
        }
        (PUBLISH, true) => {
            let mut b = v5::GenericPublish::<P>::builder();
            if a.twice {
                b = b.qos(Qos::AtLeastOnce).qos(Qos::ExactlyOnce).retain(!a.retain).dup(!a.dup).payload("zz");
                if a.topic.is_some() {
                    b = b.topic_name("zz")?;
                }
                if a.pid.is_some() {
                    b = b.packet_id(P::of(0x1234));
                }
            }
            b = b.qos(qos(a.qos)).retain(a.retain).dup(a.dup);
            b = match a.psrc {
                0 => b.payload(a.payload.clone()),
                1 => b.payload(&a.payload[..]),
                2 => b.payload(&a.payload),
                3 => b.payload(mqtt::Arc::<[u8]>::from(&a.payload[..])),
                _ => {
                    // a part of a larger buffer
                    let mut l = vec![7u8; 3];
                    l.extend_from_slice(&a.payload);
                    l.extend_from_slice(b"more");
                    b.payload(mqtt::ArcPayload::new(mqtt::Arc::from(&l[..]), 3, a.payload.len()))
                }
            };
            if let Some(t) = &a.topic {
                b = b.topic_name(st(t))?;
            }
            if let Some(i) = a.pid {
                b = b.packet_id(P::of(i));
            }
            if let Some(p) = &a.props {
                b = b.props(to_props(p)?);
            }
            GenericPacket::V5_0Publish(b.build()?)
        }
        (PUBACK, false) => build_ack3!(a, GenericPuback, V3_1_1Puback, puback_to),
        (PUBREC, false) => build_ack3!(a, GenericPubrec, V3_1_1Pubrec, pubrec_to),
        (PUBREL, false) => build_ack3!(a, GenericPubrel, V3_1_1Pubrel, pubrel_to),
        (PUBCOMP, false) => build_ack3!(a, GenericPubcomp, V3_1_1Pubcomp, pubcomp_to),
        (PUBACK, true) => build_ack5!(a, GenericPuback, V5_0Puback, puback_to),
        (PUBREC, true) => build_ack5!(a, GenericPubrec, V5_0Pubrec, pubrec_to),
        (PUBREL, true) => build_ack5!(a, GenericPubrel, V5_0Pubrel, pubrel_to),
        (PUBCOMP, true) => build_ack5!(a, GenericPubcomp, V5_0Pubcomp, pubcomp_to),
        (SUBSCRIBE, _) => {
            let mut e = vec![];
            for (f, o) in &a.subs {
                let mut x = packet::SubEntry::new(if a.twice { "zz" } else { st(f) }, if a.twice { sub_opts(0) } else { sub_opts(*o) })?;
                if a.twice {
                    x.set_topic_filter(st(f).into())?;
                    x.set_sub_opts(sub_opts(*o));
                }
                e.push(x);
            }
            if a.v5 {
                let mut b = v5::GenericSubscribe::<P>::builder().entries(e);
                if let Some(i) = a.pid {
                    b = b.packet_id(P::of(i));
                }
                if let Some(p) = &a.props {
                    b = b.props(to_props(p)?);
                }
                GenericPacket::V5_0Subscribe(b.build()?)
            } else {
                let mut b = v3::GenericSubscribe::<P>::builder().entries(e);
                if let Some(i) = a.pid {
                    b = b.packet_id(P::of(i));
                }
                GenericPacket::V3_1_1Subscribe(b.build()?)
            }
        }
        (SUBACK, false) => {
            let mut c = vec![];
            for x in &a.codes {
                c.push(named(src3_to(*x))?);
            }
            let mut b = v3::GenericSuback::<P>::builder().return_codes(c);
            if let Some(i) = a.pid {
                b = b.packet_id(P::of(i));
            }
            GenericPacket::V3_1_1Suback(b.build()?)
        }
        (SUBACK, true) => {
            let mut c = vec![];
            for x in &a.codes {
                c.push(named(suback_to(*x))?);
            }
            let mut b = v5::GenericSuback::<P>::builder().reason_codes(c);
            if let Some(i) = a.pid {
                b = b.packet_id(P::of(i));
            }
            if let Some(p) = &a.props {
                b = b.props(to_props(p)?);
            }
            GenericPacket::V5_0Suback(b.build()?)
        }
        (UNSUBSCRIBE, false) => {
            let e: Vec<&str> = a.subs.iter().map(|(f, _)| st(f)).collect();
            let mut b = v3::GenericUnsubscribe::<P>::builder().entries(e)?;
            if let Some(i) = a.pid {
                b = b.packet_id(P::of(i));
            }
            GenericPacket::V3_1_1Unsubscribe(b.build()?)
        }
        (UNSUBSCRIBE, true) => {
            let e: Vec<&str> = a.subs.iter().map(|(f, _)| st(f)).collect();
            let mut b = v5::GenericUnsubscribe::<P>::builder().entries(e)?;
            if let Some(i) = a.pid {
                b = b.packet_id(P::of(i));
            }
            if let Some(p) = &a.props {
                b = b.props(to_props(p)?);
            }
            GenericPacket::V5_0Unsubscribe(b.build()?)
        }
        (UNSUBACK, false) => {
            let mut b = v3::GenericUnsuback::<P>::builder();
            if let Some(i) = a.pid {
                b = b.packet_id(P::of(i));
            }
            GenericPacket::V3_1_1Unsuback(b.build()?)
        }
        (UNSUBACK, true) => {
            let mut c = vec![];
            for x in &a.codes {
                c.push(named(unsuback_to(*x))?);
            }
            let mut b = v5::GenericUnsuback::<P>::builder().reason_codes(c);
            if let Some(i) = a.pid {
                b = b.packet_id(P::of(i));
            }
            if let Some(p) = &a.props {
                b = b.props(to_props(p)?);
            }
            GenericPacket::V5_0Unsuback(b.build()?)
        }
        (PINGREQ, false) => GenericPacket::V3_1_1Pingreq(v3::Pingreq::builder().build()?),
        (PINGREQ, true) => GenericPacket::V5_0Pingreq(v5::Pingreq::builder().build()?),
        (PINGRESP, false) => GenericPacket::V3_1_1Pingresp(v3::Pingresp::builder().build()?),
        (PINGRESP, true) => GenericPacket::V5_0Pingresp(v5::Pingresp::builder().build()?),
        (DISCONNECT, false) => GenericPacket::V3_1_1Disconnect(v3::Disconnect::builder().build()?),
        (DISCONNECT, true) => {
            let mut b = v5::Disconnect::builder();
            if let Some(r) = a.rc {
                b = b.reason_code(named(disc_to(r))?);
            }
            if let Some(p) = &a.props {
                b = b.props(to_props(p)?);
            }
            GenericPacket::V5_0Disconnect(b.build()?)
        }
        (AUTH, true) => {
            let mut b = v5::Auth::builder();
            if let Some(r) = a.rc {
                b = b.reason_code(named(auth_to(r))?);
            }
            if let Some(p) = &a.props {
                b = b.props(to_props(p)?);
            }
            GenericPacket::V5_0Auth(b.build()?)
        }
        _ => panic!("harness: no such packet"),
    })
}

// ----------------------------------------------------------------------------------- translation from library packets

pub fn un_prop(p: &Property) -> (u8, V) {
    match p {
        Property::PayloadFormatIndicator(x) => (1, V::Byte(x.val())),
        Property::MessageExpiryInterval(x) => (2, V::Four(x.val())),
        Property::ContentType(x) => (3, V::Text(x.val().as_bytes().to_vec())),
        Property::ResponseTopic(x) => (8, V::Text(x.val().as_bytes().to_vec())),
        Property::CorrelationData(x) => (9, V::Bin(x.val().to_vec())),
        Property::SubscriptionIdentifier(x) => (11, V::Vbi(x.val())),
        Property::SessionExpiryInterval(x) => (17, V::Four(x.val())),
        Property::AssignedClientIdentifier(x) => (18, V::Text(x.val().as_bytes().to_vec())),
        Property::ServerKeepAlive(x) => (19, V::Two(x.val())),
        Property::AuthenticationMethod(x) => (21, V::Text(x.val().as_bytes().to_vec())),
        Property::AuthenticationData(x) => (22, V::Bin(x.val().to_vec())),
        Property::RequestProblemInformation(x) => (23, V::Byte(x.val())),
        Property::WillDelayInterval(x) => (24, V::Four(x.val())),
        Property::RequestResponseInformation(x) => (25, V::Byte(x.val())),
        Property::ResponseInformation(x) => (26, V::Text(x.val().as_bytes().to_vec())),
        Property::ServerReference(x) => (28, V::Text(x.val().as_bytes().to_vec())),
        Property::ReasonString(x) => (31, V::Text(x.val().as_bytes().to_vec())),
        Property::ReceiveMaximum(x) => (33, V::Two(x.val())),
        Property::TopicAliasMaximum(x) => (34, V::Two(x.val())),
        Property::TopicAlias(x) => (35, V::Two(x.val())),
        Property::MaximumQos(x) => (36, V::Byte(x.val())),
        Property::RetainAvailable(x) => (37, V::Byte(x.val())),
        Property::UserProperty(x) => (38, V::Pair(x.key().as_bytes().to_vec(), x.val().as_bytes().to_vec())),
        Property::MaximumPacketSize(x) => (39, V::Four(x.val())),
        Property::WildcardSubscriptionAvailable(x) => (40, V::Byte(x.val())),
        Property::SubscriptionIdentifierAvailable(x) => (41, V::Byte(x.val())),
        Property::SharedSubscriptionAvailable(x) => (42, V::Byte(x.val())),
    }
}
/// the second way to read a property: PropertyValueAccess and PropertyId
pub fn un_prop2(p: &Property) -> (u8, V) {
    use mqtt::prelude::PropertyValueAccess;
    let id = p.id().as_u8();
    let v = match ty(id) {
        Some(Ty::Byte) => V::Byte(p.as_u8().unwrap()),
        Some(Ty::Two) => V::Two(p.as_u16().unwrap()),
        Some(Ty::Four) => V::Four(p.as_u32().unwrap()),
        Some(Ty::Vbi) => V::Vbi(p.as_u32().unwrap()),
        Some(Ty::Text) => V::Text(p.as_str().unwrap().as_bytes().to_vec()),
        Some(Ty::Bin) => V::Bin(p.as_bytes().unwrap().to_vec()),
        Some(Ty::Pair) => {
            let (k, v) = p.as_key_value().unwrap();
            V::Pair(k.as_bytes().to_vec(), v.as_bytes().to_vec())
        }
        None => sx::fail("a property reports an identifier the specification does not define"),
    };
    (id, v)
}
pub fn un_props(p: &[Property]) -> Props {
    p.iter()
        .map(|p| {
            let r = un_prop(p);
            let q = un_prop2(p);
            sx::check(r.0 == q.0 && same_v(&r.1, &q.1), "the accessors of a property disagree");
            r
        })
        .collect()
}
/// well-formed UTF-8 (RFC 3629)
pub fn utf8_ok(b: &[u8]) -> bool {
    let mut i = 0;
    while i < b.len() {
        let c = b[i];
        let cont = |k: usize| i + k < b.len() && b[i + k] & 0xc0 == 0x80;
        i += if c < 0x80 {
            1
        } else if c < 0xc2 {
            return false;
        } else if c < 0xe0 {
            if !cont(1) {
                return false;
            }
            2
        } else if c < 0xf0 {
            if !cont(1) || !cont(2) || (c == 0xe0 && b[i + 1] < 0xa0) || (c == 0xed && b[i + 1] > 0x9f) {
                return false;
            }
            3
        } else if c < 0xf5 {
            if !cont(1) || !cont(2) || !cont(3) || (c == 0xf0 && b[i + 1] < 0x90) || (c == 0xf4 && b[i + 1] > 0x8f) {
                return false;
            }
            4
        } else {
            return false;
        };
    }
    true
}
fn props_utf8(p: &Props) -> bool {
    p.iter().all(|(_, v)| match v {
        V::Text(s) => utf8_ok(s),
        V::Pair(k, v) => utf8_ok(k) && utf8_ok(v),
        _ => true,
    })
}
/// every string field is well-formed UTF-8
pub fn strings_ok(a: &A) -> bool {
    utf8_ok(&a.client)
        && a.topic.as_ref().map_or(true, |t| utf8_ok(t))
        && a.user.as_ref().map_or(true, |t| utf8_ok(t))
        && a.subs.iter().all(|(f, _)| utf8_ok(f))
        && a.props.as_ref().map_or(true, props_utf8)
        && a.will.as_ref().map_or(true, |w| utf8_ok(&w.topic) && props_utf8(&w.props))
}
fn bytes_of(s: &str) -> Vec<u8> {
    s.as_bytes().to_vec()
}
fn strs(e: &[MqttString]) -> Vec<(Vec<u8>, u8)> {
    e.iter().map(|s| (bytes_of(s.as_str()), 0)).collect()
}
fn subs(e: &[packet::SubEntry]) -> Vec<(Vec<u8>, u8)> {
    e.iter().map(|s| (bytes_of(s.topic_filter()), un_opts(s.sub_opts()))).collect()
}
/// what the accessors of a packet say
pub fn abstracted<P: Id>(p: &GenericPacket<P>) -> A {
    let mut a = A::default();
    macro_rules! ack {
        ($t:expr, $v:expr, $x:expr, $from:ident) => {{
            a.t = $t;
            a.v5 = $v;
            a.pid = Some($x.packet_id().num());
            a.rc = $x.reason_code().map($from);
        }};
    }
    match p {
        GenericPacket::V3_1_1Connect(x) => {
            a.t = CONNECT;
            a.clean = x.clean_session();
            sx::check(a.clean == x.clean_start(), "clean_session and clean_start disagree");
            a.ka = x.keep_alive();
            a.client = bytes_of(x.client_id());
            sx::check(x.protocol_name() == "MQTT", "protocol name");
            sx::check(x.protocol_version() == 4, "protocol version");
            sx::check(x.will_flag() == x.will_topic().is_some() && x.will_flag() == x.will_payload().is_some(), "will flag");
            if let (Some(t), Some(p)) = (x.will_topic(), x.will_payload()) {
                a.will = Some(Will { props: vec![], topic: bytes_of(t), payload: p.to_vec(), qos: unqos(x.will_qos()), retain: x.will_retain() });
            }
            a.user = x.user_name().map(bytes_of);
            a.pass = x.password().map(|p| p.to_vec());
            sx::check(x.user_name_flag() == a.user.is_some() && x.password_flag() == a.pass.is_some(), "user name / password flags");
        }
        GenericPacket::V5_0Connect(x) => {
            a.t = CONNECT;
            a.v5 = true;
            a.clean = x.clean_start();
            a.ka = x.keep_alive();
            a.client = bytes_of(x.client_id());
            a.props = Some(un_props(x.props()));
            sx::check(x.protocol_name() == "MQTT", "protocol name");
            sx::check(x.protocol_version() == 5, "protocol version");
            sx::check(x.will_flag() == x.will_topic().is_some() && x.will_flag() == x.will_payload().is_some(), "will flag");
            if let (Some(t), Some(p)) = (x.will_topic(), x.will_payload()) {
                a.will = Some(Will { props: un_props(x.will_props()), topic: bytes_of(t), payload: p.to_vec(), qos: unqos(x.will_qos()), retain: x.will_retain() });
            } else if !x.will_props().is_empty() {
                a.stray_wprops = Some(un_props(x.will_props()));
            }
            a.user = x.user_name().map(bytes_of);
            a.pass = x.password().map(|p| p.to_vec());
            sx::check(x.user_name_flag() == a.user.is_some() && x.password_flag() == a.pass.is_some(), "user name / password flags");
        }
        GenericPacket::V3_1_1Connack(x) => {
            a.t = CONNACK;
            a.sp = x.session_present();
            a.rc = Some(crc3_from(x.return_code()));
        }
        GenericPacket::V5_0Connack(x) => {
            a.t = CONNACK;
            a.v5 = true;
            a.sp = x.session_present();
            a.rc = Some(crc_from(x.reason_code()));
            a.props = Some(un_props(x.props()));
        }
        GenericPacket::V3_1_1Publish(x) => {
            a.t = PUBLISH;
            a.dup = x.dup();
            a.retain = x.retain();
            a.qos = unqos(x.qos());
            a.pid = x.packet_id().map(|i| i.num());
            a.topic = Some(bytes_of(x.topic_name()));
            a.payload = x.payload().as_slice().to_vec();
        }
        GenericPacket::V5_0Publish(x) => {
            a.t = PUBLISH;
            a.v5 = true;
            a.dup = x.dup();
            a.retain = x.retain();
            a.qos = unqos(x.qos());
            a.pid = x.packet_id().map(|i| i.num());
            a.topic = Some(bytes_of(x.topic_name()));
            a.payload = x.payload().as_slice().to_vec();
            a.props = Some(un_props(x.props()));
        }
        GenericPacket::V3_1_1Puback(x) => ack!(PUBACK, false, x, puback_from),
        GenericPacket::V3_1_1Pubrec(x) => ack!(PUBREC, false, x, pubrec_from),
        GenericPacket::V3_1_1Pubrel(x) => ack!(PUBREL, false, x, pubrel_from),
        GenericPacket::V3_1_1Pubcomp(x) => ack!(PUBCOMP, false, x, pubcomp_from),
        GenericPacket::V5_0Puback(x) => {
            ack!(PUBACK, true, x, puback_from);
            a.props = x.props().as_ref().map(|p| un_props(p));
        }
        GenericPacket::V5_0Pubrec(x) => {
            ack!(PUBREC, true, x, pubrec_from);
            a.props = x.props().as_ref().map(|p| un_props(p));
        }
        GenericPacket::V5_0Pubrel(x) => {
            ack!(PUBREL, true, x, pubrel_from);
            a.props = x.props().as_ref().map(|p| un_props(p));
        }
        GenericPacket::V5_0Pubcomp(x) => {
            ack!(PUBCOMP, true, x, pubcomp_from);
            a.props = x.props().as_ref().map(|p| un_props(p));
        }
        GenericPacket::V3_1_1Subscribe(x) => {
            a.t = SUBSCRIBE;
            a.pid = Some(x.packet_id().num());
            a.subs = subs(x.entries());
        }
        GenericPacket::V5_0Subscribe(x) => {
            a.t = SUBSCRIBE;
            a.v5 = true;
            a.pid = Some(x.packet_id().num());
            a.subs = subs(x.entries());
            a.props = Some(un_props(x.props()));
        }
        GenericPacket::V3_1_1Suback(x) => {
            a.t = SUBACK;
            a.pid = Some(x.packet_id().num());
            a.codes = x.return_codes().into_iter().map(src3_from).collect();
        }
        GenericPacket::V5_0Suback(x) => {
            a.t = SUBACK;
            a.v5 = true;
            a.pid = Some(x.packet_id().num());
            a.codes = x.reason_codes().into_iter().map(suback_from).collect();
            a.props = Some(un_props(x.props()));
        }
        GenericPacket::V3_1_1Unsubscribe(x) => {
            a.t = UNSUBSCRIBE;
            a.pid = Some(x.packet_id().num());
            a.subs = strs(x.entries());
        }
        GenericPacket::V5_0Unsubscribe(x) => {
            a.t = UNSUBSCRIBE;
            a.v5 = true;
            a.pid = Some(x.packet_id().num());
            a.subs = strs(x.entries());
            a.props = Some(un_props(x.props()));
        }
        GenericPacket::V3_1_1Unsuback(x) => {
            a.t = UNSUBACK;
            a.pid = Some(x.packet_id().num());
        }
        GenericPacket::V5_0Unsuback(x) => {
            a.t = UNSUBACK;
            a.v5 = true;
            a.pid = Some(x.packet_id().num());
            a.codes = x.reason_codes().into_iter().map(unsuback_from).collect();
            a.props = Some(un_props(x.props()));
        }
        GenericPacket::V3_1_1Pingreq(_) => a.t = PINGREQ,
        GenericPacket::V3_1_1Pingresp(_) => a.t = PINGRESP,
        GenericPacket::V3_1_1Disconnect(_) => a.t = DISCONNECT,
        GenericPacket::V5_0Pingreq(_) => {
            a.t = PINGREQ;
            a.v5 = true;
        }
        GenericPacket::V5_0Pingresp(_) => {
            a.t = PINGRESP;
            a.v5 = true;
        }
        GenericPacket::V5_0Disconnect(x) => {
            a.t = DISCONNECT;
            a.v5 = true;
            a.rc = x.reason_code().map(disc_from);
            a.props = x.props().as_ref().map(|p| un_props(p));
        }
        GenericPacket::V5_0Auth(x) => {
            a.t = AUTH;
            a.v5 = true;
            a.rc = x.reason_code().map(auth_from);
            a.props = x.props().as_ref().map(|p| un_props(p));
        }
    }
    a
}
/// field by field comparison of two abstract packets
pub fn check_same(g: &A, w: &A, what: [&'static str; 6]) {
    sx::check(g.t == w.t && g.v5 == w.v5, what[0]);
    sx::check((g.dup == w.dup) & (g.retain == w.retain) & (g.qos == w.qos) & (g.clean == w.clean) & (g.sp == w.sp) & (g.ka == w.ka), what[1]);
    // a PUBLISH with QoS 0 has no packet identifier
    sx::check(same_opt(&g.pid, &w.pid, |a, b| a == b), what[2]);
    sx::check(same_opt(&g.rc, &w.rc, |a, b| a == b) & same(&g.codes, &w.codes), what[3]);
    let none: Props = vec![];
    sx::check(same_props(g.props.as_ref().unwrap_or(&none), w.props.as_ref().unwrap_or(&none)), what[4]);
    let mut r = same(g.topic.as_deref().unwrap_or(&[]), w.topic.as_deref().unwrap_or(&[]));
    r &= same(&g.payload, &w.payload) & same(&g.client, &w.client) & o_bytes(&g.user, &w.user) & o_bytes(&g.pass, &w.pass);
    r &= g.subs.len() == w.subs.len();
    if r {
        for i in 0..g.subs.len() {
            r &= same(&g.subs[i].0, &w.subs[i].0) & (g.subs[i].1 == w.subs[i].1);
        }
    }
    r &= same_opt(&g.will, &w.will, |a, b| {
        same_props(&a.props, &b.props) & same(&a.topic, &b.topic) & same(&a.payload, &b.payload) & (a.qos == b.qos) & (a.retain == b.retain)
    });
    r &= same_opt(&g.stray_wprops, &w.stray_wprops, |a, b| same_props(a, b));
    sx::check(r, what[5]);
}

// ------------------------------------------------------------------------------------------- serialising and parsing

/// evaluates an expression for the concrete packet inside a GenericPacket
#[macro_export]
macro_rules! each {
    ($p:expr, $x:ident => $e:expr) => {
        match $p {
            GenericPacket::V3_1_1Connect($x) => $e,
            GenericPacket::V3_1_1Connack($x) => $e,
            GenericPacket::V3_1_1Subscribe($x) => $e,
            GenericPacket::V3_1_1Suback($x) => $e,
            GenericPacket::V3_1_1Unsubscribe($x) => $e,
            GenericPacket::V3_1_1Unsuback($x) => $e,
            GenericPacket::V3_1_1Publish($x) => $e,
            GenericPacket::V3_1_1Puback($x) => $e,
            GenericPacket::V3_1_1Pubrec($x) => $e,
            GenericPacket::V3_1_1Pubrel($x) => $e,
            GenericPacket::V3_1_1Pubcomp($x) => $e,
            GenericPacket::V3_1_1Disconnect($x) => $e,
            GenericPacket::V3_1_1Pingreq($x) => $e,
            GenericPacket::V3_1_1Pingresp($x) => $e,
            GenericPacket::V5_0Connect($x) => $e,
            GenericPacket::V5_0Connack($x) => $e,
            GenericPacket::V5_0Subscribe($x) => $e,
            GenericPacket::V5_0Suback($x) => $e,
            GenericPacket::V5_0Unsubscribe($x) => $e,
            GenericPacket::V5_0Unsuback($x) => $e,
            GenericPacket::V5_0Publish($x) => $e,
            GenericPacket::V5_0Puback($x) => $e,
            GenericPacket::V5_0Pubrec($x) => $e,
            GenericPacket::V5_0Pubrel($x) => $e,
            GenericPacket::V5_0Pubcomp($x) => $e,
            GenericPacket::V5_0Disconnect($x) => $e,
            GenericPacket::V5_0Pingreq($x) => $e,
            GenericPacket::V5_0Pingresp($x) => $e,
            GenericPacket::V5_0Auth($x) => $e,
        }
    };
}
pub fn concat(b: Vec<std::io::IoSlice<'_>>) -> Vec<u8> {
    let mut v = vec![];
    for s in b {
        v.extend_from_slice(&s);
    }
    v
}
/// the parser of one packet kind; `flags` are the low four bits of the first byte
pub fn parse<P: Id>(v5_: bool, t: u8, flags: u8, body: &[u8]) -> Result<(GenericPacket<P>, usize), MqttError> {
    macro_rules! p {
        ($ty:ty, $v:ident) => {
            <$ty>::parse(body).map(|(x, n)| (GenericPacket::$v(x), n))
        };
    }
    match (t, v5_) {
        (CONNECT, false) => p!(v3::Connect, V3_1_1Connect),
        (CONNACK, false) => p!(v3::Connack, V3_1_1Connack),
        (PUBLISH, false) => v3::GenericPublish::<P>::parse(flags, body.into()).map(|(x, n)| (GenericPacket::V3_1_1Publish(x), n)),
        (PUBACK, false) => p!(v3::GenericPuback<P>, V3_1_1Puback),
        (PUBREC, false) => p!(v3::GenericPubrec<P>, V3_1_1Pubrec),
        (PUBREL, false) => p!(v3::GenericPubrel<P>, V3_1_1Pubrel),
        (PUBCOMP, false) => p!(v3::GenericPubcomp<P>, V3_1_1Pubcomp),
        (SUBSCRIBE, false) => p!(v3::GenericSubscribe<P>, V3_1_1Subscribe),
        (SUBACK, false) => p!(v3::GenericSuback<P>, V3_1_1Suback),
        (UNSUBSCRIBE, false) => p!(v3::GenericUnsubscribe<P>, V3_1_1Unsubscribe),
        (UNSUBACK, false) => p!(v3::GenericUnsuback<P>, V3_1_1Unsuback),
        (PINGREQ, false) => p!(v3::Pingreq, V3_1_1Pingreq),
        (PINGRESP, false) => p!(v3::Pingresp, V3_1_1Pingresp),
        (DISCONNECT, false) => p!(v3::Disconnect, V3_1_1Disconnect),
        (CONNECT, true) => p!(v5::Connect, V5_0Connect),
        (CONNACK, true) => p!(v5::Connack, V5_0Connack),
        (PUBLISH, true) => v5::GenericPublish::<P>::parse(flags, body.into()).map(|(x, n)| (GenericPacket::V5_0Publish(x), n)),
        (PUBACK, true) => p!(v5::GenericPuback<P>, V5_0Puback),
        (PUBREC, true) => p!(v5::GenericPubrec<P>, V5_0Pubrec),
        (PUBREL, true) => p!(v5::GenericPubrel<P>, V5_0Pubrel),
        (PUBCOMP, true) => p!(v5::GenericPubcomp<P>, V5_0Pubcomp),
        (SUBSCRIBE, true) => p!(v5::GenericSubscribe<P>, V5_0Subscribe),
        (SUBACK, true) => p!(v5::GenericSuback<P>, V5_0Suback),
        (UNSUBSCRIBE, true) => p!(v5::GenericUnsubscribe<P>, V5_0Unsubscribe),
        (UNSUBACK, true) => p!(v5::GenericUnsuback<P>, V5_0Unsuback),
        (PINGREQ, true) => p!(v5::Pingreq, V5_0Pingreq),
        (PINGRESP, true) => p!(v5::Pingresp, V5_0Pingresp),
        (DISCONNECT, true) => p!(v5::Disconnect, V5_0Disconnect),
        (AUTH, true) => p!(v5::Auth, V5_0Auth),
        _ => panic!("harness: no such packet"),
    }
}

// --------------------------------------------------------------------------------------------- symbolic packet values

/// what a generated packet looks like
#[derive(Clone, Copy)]
pub struct Shape {
    /// length of every string and binary (WIDE: chosen per string from 0..=s)
    pub s: usize,
    /// length of the payload
    pub p: usize,
    /// most properties per section
    pub np: usize,
    /// number of entries / codes: 1..=n (WIDE: 0..=n)
    pub n: usize,
    pub flags: u64,
}
/// strings of length 0..=s
pub const STRS: u64 = 1;
/// also give the builder combinations the specification forbids
pub const WILD: u64 = 2;
/// reason code is any of the packet's codes instead of the first failure code
pub const CODES: u64 = 4;
/// fixed header bits and CONNECT flags vary
pub const BITS: u64 = 8;
/// strings may contain characters of several bytes
pub const UTF8: u64 = 16;
/// all of CONNECT's optional fields present
pub const FULL: u64 = 32;
/// exactly np properties
pub const EXACT: u64 = 64;
/// strings of length s get their bytes from the solver only at both ends (long strings)
impl Shape {
    fn is(&self, f: u64) -> bool {
        self.flags & f != 0
    }
}
fn ascii(n: usize) -> Vec<u8> {
    if n <= 4 {
        let v = sx::bytes(n);
        let mut ok = true;
        for b in &v {
            ok &= (*b >= 0x20) & (*b < 0x7f);
        }
        sx::assume(ok);
        return v;
    }
    let mut v = vec![b'a'; n];
    for i in [0, n - 1] {
        let b = sx::u8();
        sx::assume((b >= 0x20) & (b < 0x7f));
        v[i] = b;
    }
    v
}
pub fn text(g: &Shape) -> Vec<u8> {
    let n = if g.is(STRS) { sx::choose(g.s as u32 + 1) as usize } else { g.s };
    if g.is(UTF8) && n >= 2 && n <= 4 && sx::coin() {
        // one character of n bytes
        let v = sx::bytes(n);
        let lead = match n {
            2 => (v[0] >= 0xc2) & (v[0] <= 0xdf),
            3 => (v[0] >= 0xe1) & (v[0] <= 0xec),
            _ => (v[0] >= 0xf1) & (v[0] <= 0xf3),
        };
        sx::assume(lead);
        for i in 1..n {
            sx::assume(v[i] & 0xc0 == 0x80);
        }
        return v;
    }
    ascii(n)
}
pub fn bin(g: &Shape) -> Vec<u8> {
    let n = if g.is(STRS) { sx::choose(g.s as u32 + 1) as usize } else { g.s };
    blob(n)
}
pub fn blob(n: usize) -> Vec<u8> {
    if n <= 8 {
        return sx::bytes(n);
    }
    let mut v = vec![0x5au8; n];
    v[0] = sx::u8();
    v[n - 1] = sx::u8();
    v
}
pub fn value(g: &Shape, id: u8) -> V {
    match ty(id) {
        Some(Ty::Byte) => V::Byte(sx::u8()),
        Some(Ty::Two) => V::Two(sx::u16()),
        Some(Ty::Four) => V::Four(sx::u32()),
        Some(Ty::Vbi) => {
            let x = sx::u32();
            sx::assume(x <= 268_435_455);
            V::Vbi(x)
        }
        Some(Ty::Text) => V::Text(text(g)),
        Some(Ty::Bin) => V::Bin(bin(g)),
        Some(Ty::Pair) => {
            let k = text(g);
            V::Pair(k, text(g))
        }
        None => panic!("harness: no such property"),
    }
}
pub fn ids_of(loc: u8) -> Vec<u8> {
    IDS.iter().copied().filter(|i| allowed(*i, loc)).collect()
}
pub fn gen_props(g: &Shape, loc: u8) -> Props {
    let ids = if g.is(WILD) { IDS.to_vec() } else { ids_of(loc) };
    let mut r: Props = vec![];
    for _ in 0..g.np {
        let k = if g.is(EXACT) { 1 + sx::choose(ids.len() as u32) } else { sx::choose(ids.len() as u32 + 1) };
        if k == 0 {
            break;
        }
        let id = ids[k as usize - 1];
        if !g.is(WILD) && !repeatable(id, loc) {
            sx::assume(!r.iter().any(|(i, _)| *i == id));
        }
        let v = value(g, id);
        if !g.is(WILD) {
            sx::assume(value_ok(id, &v));
        }
        r.push((id, v));
    }
    r
}
fn setters(g: &Shape, a: &mut A) {
    if g.is(BITS) {
        a.twice = sx::coin();
    }
}
fn bit(g: &Shape, d: bool) -> bool {
    if g.is(BITS) {
        sx::bool()
    } else {
        d
    }
}
fn a_qos(g: &Shape, d: u8) -> u8 {
    if g.is(BITS) {
        sx::choose(3) as u8
    } else {
        d
    }
}
fn a_pid<P: Id>(g: &Shape) -> Option<u32> {
    let v = if P::W == 2 { sx::u16() as u32 } else { sx::u32() };
    if g.is(WILD) {
        if sx::coin() {
            return None;
        }
    } else {
        sx::assume(v != 0);
    }
    Some(v)
}
fn a_rc(g: &Shape, v5: bool, t: u8) -> u8 {
    let l = rc_list(v5, t);
    if g.is(CODES) {
        l[sx::choose(l.len() as u32) as usize]
    } else {
        l[1 % l.len()]
    }
}
pub fn gen<P: Id>(v5_: bool, t: u8, g: &Shape) -> A {
    let mut a = A { v5: v5_, t, ..A::default() };
    let with_props = match t {
        CONNECT | CONNACK | PUBLISH | SUBSCRIBE | SUBACK | UNSUBSCRIBE | UNSUBACK => v5_,
        _ => false,
    };
    if with_props {
        let p = gen_props(g, t);
        // builder without a call of props() must be the same as with an empty list
        a.props = if p.is_empty() && sx::coin() { None } else { Some(p) };
    }
    if matches!(t, CONNECT | PUBLISH | SUBSCRIBE) {
        setters(g, &mut a);
    }
    match t {
        CONNECT => {
            a.clean = bit(g, true);
            a.ka = sx::u16();
            a.client = text(g);
            if !g.is(WILD) {
                sx::assume(a.clean || !a.client.is_empty());
            }
            if g.is(FULL) || sx::coin() {
                let topic = text(g);
                if !g.is(WILD) {
                    sx::assume(topic_ok(&topic));
                }
                let payload = bin(g);
                let props = if v5_ { gen_props(g, WILL) } else { vec![] };
                a.will = Some(Will { props, topic, payload, qos: a_qos(g, 1), retain: bit(g, true) });
            } else if v5_ && g.is(WILD) {
                a.stray_wprops = Some(gen_props(g, WILL));
            }
            let k = if g.is(FULL) { 2 } else { sx::choose(if g.is(WILD) || v5_ && false { 4 } else { 3 }) };
            if k == 1 || k == 2 {
                a.user = Some(text(g));
            }
            if k >= 2 {
                a.pass = Some(bin(g));
            }
        }
        CONNACK => {
            a.sp = bit(g, true);
            a.rc = if g.is(WILD) && sx::coin() { None } else { Some(a_rc(g, v5_, t)) };
        }
        PUBLISH => {
            a.dup = bit(g, false);
            a.retain = bit(g, false);
            a.qos = a_qos(g, 1);
            if g.is(WILD) {
                a.pid = if sx::coin() { a_pid::<P>(g) } else { None };
            } else if a.qos > 0 {
                a.pid = a_pid::<P>(g);
            } else {
                sx::assume(!a.dup);
            }
            let t = text(g);
            if g.is(WILD) {
                a.topic = if sx::coin() { Some(t) } else { None };
            } else {
                let alias = a.props.as_ref().map_or(false, |p| p.iter().any(|(i, _)| *i == 35));
                sx::assume(if t.is_empty() { alias } else { topic_ok(&t) });
                a.topic = Some(t);
            }
            a.payload = blob(g.p);
            if g.is(BITS) {
                a.psrc = sx::choose(5) as u8;
            }
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => {
            a.pid = a_pid::<P>(g);
            if sx::coin() {
                a.rc = Some(a_rc(g, v5_, t));
            }
            if v5_ && (a.rc.is_some() || g.is(WILD)) && sx::coin() {
                a.props = Some(gen_props(g, t));
            }
        }
        SUBSCRIBE | UNSUBSCRIBE => {
            a.pid = a_pid::<P>(g);
            let n = if g.is(WILD) { sx::choose(g.n as u32 + 1) as usize } else { 1 + sx::choose(g.n as u32) as usize };
            for _ in 0..n {
                let mut f = text(g);
                if !g.is(WILD) {
                    sx::assume(topic_ok(&f));
                    f.extend_from_slice([&b""[..], b"/+/x", b"/#"][if g.is(BITS) { sx::choose(3) as usize } else { 0 }]);
                }
                let o = if t == UNSUBSCRIBE {
                    0
                } else if g.is(BITS) {
                    let o = sx::u8();
                    sx::assume((o & 0xc0 == 0) & (o & 3 != 3) & (o & 0x30 != 0x30));
                    if !v5_ && !g.is(WILD) {
                        sx::assume(o < 3);
                    }
                    o
                } else {
                    1
                };
                a.subs.push((f, o));
            }
        }
        SUBACK | UNSUBACK => {
            a.pid = a_pid::<P>(g);
            if v5_ || t == SUBACK {
                let n = if g.is(WILD) { sx::choose(g.n as u32 + 1) as usize } else { 1 + sx::choose(g.n as u32) as usize };
                for _ in 0..n {
                    a.codes.push(a_rc(g, v5_, t));
                }
            }
        }
        DISCONNECT | AUTH if v5_ => {
            if sx::coin() {
                a.rc = Some(a_rc(g, v5_, t));
            }
            if (a.rc.is_some() || g.is(WILD)) && ((t == AUTH && !g.is(WILD)) || sx::coin()) {
                // (the specification has no AUTH with a reason code but without a property length)
                a.props = Some(gen_props(g, t));
            }
            if t == AUTH && !g.is(WILD) {
                // a reason code other than success needs an authentication method; data needs the method
                let has = |id: u8| a.props.as_ref().map_or(false, |p| p.iter().any(|(i, _)| *i == id));
                sx::assume(has(21) || (!has(22) && (a.rc.is_none() || a.rc == Some(0))));
            }
        }
        _ => {}
    }
    a
}
/// the packet identifier a packet really carries
pub fn norm(mut a: A) -> A {
    if a.t == PUBLISH && a.qos == 0 {
        a.pid = None;
    }
    a
}
