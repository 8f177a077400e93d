//! C02, C03, C04, C18: the packet codec against an independently written reference (pk.rs).
#[path = "../sx.rs"]
#[macro_use]
mod sx;
#[cfg(feature = "native")]
#[path = "../native.rs"]
mod native;
#[path = "../enc.rs"]
mod enc;
#[path = "../pk.rs"]
#[macro_use]
mod pk;
use mqtt_protocol_core::mqtt;
use mqtt::packet::{GenericPacket, GenericPacketTrait};
use pk::*;

struct Ser {
    bytes: Vec<u8>,
    hl: usize,
}
/// the three serialisations and the reported sizes of a packet agree, and so does the Remaining Length field
fn serial<P: Id>(p: &GenericPacket<P>) -> Ser {
    let bytes = each!(p, x => x.to_continuous_buffer());
    let vect = each!(p, x => concat(x.to_buffers()));
    let size = each!(p, x => x.size());
    sx::check(same(&bytes, &vect), "contiguous and vectored serialisation differ");
    sx::check(size == bytes.len(), "reported size differs from the length of the serialisation");
    sx::check(same(&bytes, &GenericPacketTrait::to_continuous_buffer(p)), "GenericPacket serialises differently");
    sx::check(same(&bytes, &concat(GenericPacketTrait::to_buffers(p))), "GenericPacket serialises differently (vectored)");
    sx::check(size == GenericPacketTrait::size(p), "GenericPacket reports another size");
    // the same packet as a stored packet
    use mqtt::packet::GenericStorePacket;
    let stored = match p {
        GenericPacket::V3_1_1Publish(x) => GenericStorePacket::<P>::try_from(x.clone()).ok(),
        GenericPacket::V5_0Publish(x) => GenericStorePacket::<P>::try_from(x.clone()).ok(),
        GenericPacket::V3_1_1Pubrel(x) => GenericStorePacket::<P>::try_from(x.clone()).ok(),
        GenericPacket::V5_0Pubrel(x) => GenericStorePacket::<P>::try_from(x.clone()).ok(),
        _ => None,
    };
    if let Some(q) = stored {
        sx::check(same(&bytes, &q.to_continuous_buffer()), "GenericStorePacket serialises differently");
        sx::check(same(&bytes, &concat(q.to_buffers())), "GenericStorePacket serialises differently (vectored)");
        sx::check(size == q.size(), "GenericStorePacket reports another size");
        sx::check(GenericPacket::from(q) == *p, "a stored packet is not the packet");
    }
    // Remaining Length
    let mut rl = 0usize;
    let mut i = 1;
    loop {
        sx::check(i < bytes.len() && i <= 4, "no terminated Remaining Length");
        let b = sx::conc(bytes[i] as u64) as usize;
        rl += (b & 0x7f) << (7 * (i - 1));
        i += 1;
        if b & 0x80 == 0 {
            break;
        }
    }
    sx::check(rl == bytes.len() - i, "Remaining Length differs from the length of the body");
    let mut canon = vec![];
    enc::vbi(&mut canon, rl);
    sx::check(canon.len() == i - 1, "Remaining Length not minimally encoded");
    Ser { bytes, hl: i }
}
fn shape() -> (bool, bool, u8, Shape) {
    let v = sx::param(0);
    // params 8, 9: all lengths from s to s + span, from p to p + span
    let span = |i: u32| if sx::param(i) > 0 { sx::choose(sx::param(i) as u32 + 1) as usize } else { 0 };
    let g = Shape {
        s: sx::param(2) as usize + span(8),
        p: sx::param(3) as usize + span(9),
        np: sx::param(4) as usize,
        n: sx::param(5) as usize,
        flags: sx::param(6),
    };
    (v & 1 != 0, v & 2 != 0, sx::param(1) as u8, g)
}
fn reparse<P: Id>(p: &GenericPacket<P>, s: &Ser, v5: bool, t: u8) {
    let body = &s.bytes[s.hl..];
    sx::check(s.bytes[0] >> 4 == t, "packet type in the first byte");
    match parse::<P>(v5, t, s.bytes[0] & 15, body) {
        Err(_) => sx::fail("the parser rejects the packet's own serialisation"),
        Ok((q, n)) => {
            sx::check(n == body.len(), "the parser does not consume exactly the body");
            sx::check(q == *p, "the parsed packet differs from the packet that was serialised");
            sx::check(each!((&q), x => x.size()) == s.bytes.len(), "the parsed packet reports another size");
            sx::check(same(&each!((&q), x => x.to_continuous_buffer()), &s.bytes), "the parsed packet serialises differently");
            std::mem::forget(q);
        }
    }
}
/// round trip of whatever the builder accepts
fn rt<P: Id>(v5: bool, t: u8, g: &Shape) {
    let a = gen::<P>(v5, t, g);
    match build::<P>(&a) {
        Err(_) => sx::reach("refused"),
        Ok(p) => {
            sx::reach("built");
            let s = serial(&p);
            reparse(&p, &s, v5, t);
            std::mem::forget(p);
        }
    }
    std::mem::forget(a);
}
fn c02() {
    sx::expect(&["built"]);
    let (v5, wide, t, g) = shape();
    if wide {
        rt::<u32>(v5, t, &g)
    } else {
        rt::<u16>(v5, t, &g)
    }
}
const SAME_B: [&str; 6] = [
    "kind of the built packet",
    "flags of the built packet",
    "packet identifier of the built packet",
    "reason codes of the built packet",
    "properties of the built packet",
    "strings, payload, entries or will of the built packet",
];
const SAME_P: [&str; 6] = [
    "kind of the parsed packet",
    "flags of the parsed packet",
    "packet identifier of the parsed packet",
    "reason codes of the parsed packet",
    "properties of the parsed packet",
    "strings, payload, entries or will of the parsed packet",
];
/// against the reference codec
fn refc<P: Id>(v5: bool, t: u8, g: &Shape) {
    let mut a = gen::<P>(v5, t, g);
    let want = {
        let b = enc_body(&a, P::W);
        enc::frame(b0(&a), &b)
    };
    if a.t == CONNACK && a.rc.is_none() {
        a.rc = Some(0)
    }
    let built = match build::<P>(&a) {
        Err(_) => sx::fail("the builder rejects field values the specification allows"),
        Ok(p) => p,
    };
    let got = each!((&built), x => x.to_continuous_buffer());
    sx::check(got.len() == want.len(), "length of the serialisation");
    sx::check(same(&got, &want), "bytes of the serialisation");
    check_same(&abstracted(&built), &a, SAME_B);
    let hl = enc::hlen(&want);
    match parse::<P>(v5, t, want[0] & 15, &want[hl..]) {
        Err(_) => sx::fail("the parser rejects a conformant packet"),
        Ok((q, n)) => {
            sx::check(n == want.len() - hl, "consumed length");
            let b = abstracted(&q);
            sx::check(same_opt(&b.props, &if b.props.is_none() { None } else { Some(a.props.clone().unwrap_or_default()) }, same_props), "properties");
            check_same(&b, &a, SAME_P);
            sx::reach("parsed");
            std::mem::forget(q);
        }
    }
    std::mem::forget((built, a));
}
fn c03() {
    sx::expect(&["parsed"]);
    let (v5, wide, t, g) = shape();
    if wide {
        refc::<u32>(v5, t, &g)
    } else {
        refc::<u16>(v5, t, &g)
    }
}
/// the properties of an accepted v5.0 packet lie within the property length it announced
fn within(a: &A, w: usize, body: &[u8]) {
    let at = match a.t {
        CONNECT => 10,
        CONNACK => 2,
        PUBLISH => {
            let l = a.topic.as_ref().map_or(0, |t| if t.is_empty() { sx::conc((body[0] as u64) << 8 | body[1] as u64) as usize } else { t.len() });
            2 + l + if a.qos > 0 { w } else { 0 }
        }
        PUBACK | PUBREC | PUBREL | PUBCOMP => w + 1,
        SUBSCRIBE | SUBACK | UNSUBSCRIBE | UNSUBACK => w,
        DISCONNECT | AUTH => 1,
        _ => return,
    };
    let mut announced = 0;
    let mut i = 0;
    while at + i < body.len() && i < 4 {
        let b = body[at + i] as usize;
        announced |= (b & 0x7f) << (7 * i);
        i += 1;
        if b & 0x80 == 0 {
            break;
        }
    }
    let used = a.props.as_ref().map_or(0, |p| enc_props(p).len());
    sx::check(used <= announced, "properties beyond the announced property length accepted");
}
/// what a parser may do with arbitrary bytes
fn total<P: Id>(v5: bool, t: u8, flags: u8, body: &[u8]) {
    match parse::<P>(v5, t, flags, body) {
        Err(_) => sx::reach("rejected"),
        Ok((p, n)) => {
            sx::reach("accepted");
            sx::check(n <= body.len(), "consumed more than given");
            let s = serial(&p);
            reparse(&p, &s, v5, t);
            // the builder accepts the same field values, and the result is the same packet
            let mut a = abstracted(&p);
            if v5 {
                within(&a, P::W, &body[..n]);
            }
            sx::check(strings_ok(&a), "a string of an accepted packet is not UTF-8");
            let mut want = s.bytes;
            if t == AUTH && a.rc.is_some() && a.props.is_none() {
                // the builder has no AUTH with a reason code but without a property length
                a.props = Some(vec![]);
                want[1] += 1;
                want.push(0);
            }
            match build::<P>(&a) {
                Err(_) => sx::fail("the parser accepts a packet the builder refuses"),
                Ok(q) => {
                    sx::check(same(&each!((&q), x => x.to_continuous_buffer()), &want), "rebuilt from its accessors the packet has other bytes");
                    std::mem::forget(q);
                }
            }
            std::mem::forget((p, a));
        }
    }
}
fn tot(wide: bool, v5: bool, t: u8, flags: u8, body: &[u8]) {
    if wide {
        total::<u32>(v5, t, flags, body)
    } else {
        total::<u16>(v5, t, flags, body)
    }
}
/// body of n arbitrary bytes, behind the given fixed beginning
fn c04_any() {
    sx::expect(&["rejected"]);
    let v = sx::param(0);
    let t = sx::param(1) as u8;
    let n = sx::param(2) as usize;
    let flags = if t == PUBLISH { sx::below(16) } else { 0 };
    let mut body = vec![];
    if sx::param(3) != 0 {
        // CONNECT: protocol name and version as they should be
        body.extend_from_slice(&[0, 4, b'M', b'Q', b'T', b'T', if v & 1 != 0 { 5 } else { 4 }]);
    }
    body.extend_from_slice(&sx::bytes(n));
    tot(v & 2 != 0, v & 1 != 0, t, flags, &body);
}
/// a valid encoding (every shape of the generator, with fixed values) damaged at an arbitrary place
fn c04_mut() {
    sx::expect(&["rejected", "accepted"]);
    let (v5, wide, t, g) = shape();
    let a = if wide { gen::<u32>(v5, t, &g) } else { gen::<u16>(v5, t, &g) };
    let mut body = enc_body(&a, if wide { 4 } else { 2 });
    let mut flags = b0(&a) & 15;
    let kind = sx::param(7);
    let i = sx::choose(body.len() as u32 + 1) as usize;
    match kind {
        // overwrite a window with arbitrary bytes
        0 | 1 => {
            let w = kind as usize + 1;
            if i + w > body.len() {
                if t != PUBLISH || i < body.len() {
                    return;
                }
                flags = sx::below(16);
            } else {
                let x = sx::bytes(w);
                body[i..i + w].copy_from_slice(&x);
            }
        }
        // truncate
        2 => body.truncate(i),
        // insert one arbitrary byte
        3 => body.insert(i, sx::u8()),
        // delete one byte
        4 => {
            if i < body.len() {
                body.remove(i);
            }
        }
        // insert a continuation byte: the variable byte integer at i becomes non-minimal
        5 => {
            if i == body.len() || body[i] & 0x80 != 0 {
                return;
            }
            body[i] |= 0x80;
            body.insert(i + 1, 0);
        }
        // append arbitrary bytes
        _ => {
            let x = sx::bytes(2);
            body.extend_from_slice(&x);
        }
    }
    tot(wide, v5, t, flags, &body);
    std::mem::forget(a);
}
/// SUBSCRIBE / UNSUBSCRIBE with several filters of which one is `$share/` and up to n arbitrary bytes
fn c04_share() {
    sx::expect(&["rejected", "accepted"]);
    let v = sx::param(0);
    let t = sx::param(1) as u8;
    let n = sx::choose(sx::param(2) as u32 + 1) as usize;
    let k = 1 + sx::choose(3) as usize;
    let at = sx::choose(k as u32) as usize;
    let mut b = enc::B::new();
    b = if v & 2 != 0 { b.u32(1) } else { b.u16(1) };
    if v & 1 != 0 {
        b = b.u8(0);
    }
    for i in 0..k {
        b = if i == at {
            let mut f = b"$share/".to_vec();
            f.extend_from_slice(&sx::bytes(n));
            b.s(&f)
        } else {
            b.s(b"$share/g/t")
        };
        if t == SUBSCRIBE {
            b = b.u8(1);
        }
    }
    let body = b.0;
    tot(v & 2 != 0, v & 1 != 0, t, 2, &body);
}
/// PUBLISH packets changed by the methods the connection uses stay consistent and mean what they should
fn mutators<P: Id>(g: &Shape) {
    let mut a = gen::<P>(true, PUBLISH, g);
    let p = match build::<P>(&a) {
        Ok(GenericPacket::V5_0Publish(p)) => p,
        _ => sx::fail("the builder rejects field values the specification allows"),
    };
    let name = sx::bytes(sx::choose(3) as usize);
    let mut ok = true;
    for b in &name {
        ok &= (*b >= 0x20) & (*b < 0x7f) & (*b != b'#') & (*b != b'+');
    }
    sx::assume(ok);
    let alias = sx::u16();
    sx::assume(alias != 0);
    let dup = sx::bool();
    let drop_alias = |a: &mut A| {
        let mut pr = a.props.take().unwrap_or_default();
        pr.retain(|(i, _)| *i != 35);
        a.props = Some(pr);
    };
    let empty = a.topic.as_ref().map_or(true, |t| t.is_empty());
    let q = match sx::choose(7) {
        0 => {
            a.dup = dup;
            Ok(p.set_dup(dup))
        }
        1 => {
            drop_alias(&mut a);
            a.topic = Some(name.clone());
            let r = p.remove_topic_alias_add_topic(st(&name).into());
            sx::check(r.is_ok() == empty, "a topic is added exactly to a packet without one");
            r
        }
        2 => {
            sx::assume(!empty);
            drop_alias(&mut a);
            Ok(p.remove_topic_alias())
        }
        3 => {
            a.topic = Some(name.clone());
            let r = p.add_extracted_topic_name(st(&name));
            sx::check(r.is_ok() == empty, "a topic is added exactly to a packet without one");
            r
        }
        4 => {
            drop_alias(&mut a);
            a.topic = Some(vec![]);
            a.props.as_mut().unwrap().push((35, V::Two(alias)));
            Ok(p.remove_topic_add_topic_alias(alias))
        }
        5 => {
            drop_alias(&mut a);
            a.props.as_mut().unwrap().push((35, V::Two(alias)));
            Ok(p.add_topic_alias(alias))
        }
        _ => Ok(p),
    };
    if let Ok(q) = q {
        sx::assume(!a.topic.as_ref().unwrap().is_empty() || a.props.as_ref().map_or(false, |p| p.iter().any(|(i, _)| *i == 35)));
        let g = GenericPacket::V5_0Publish(q);
        let s = serial(&g);
        let want = enc::frame(b0(&a), &enc_body(&a, P::W));
        sx::check(want.len() == s.bytes.len(), "length of the serialisation of a changed PUBLISH");
        sx::check(same(&want, &s.bytes), "serialisation of a changed PUBLISH");
        check_same(&abstracted(&g), &norm(a.clone()), SAME_B);
        sx::reach("changed");
        std::mem::forget(g);
    }
    std::mem::forget((a, name));
}
fn c02_mutators() {
    sx::expect(&["changed"]);
    let (_, wide, _, g) = shape();
    if wide {
        mutators::<u32>(&g)
    } else {
        mutators::<u16>(&g)
    }
}
/// decoders of the parts, on n arbitrary bytes
fn c04_part() {
    use mqtt::packet::*;
    sx::expect(&["rejected", "accepted"]);
    let n = sx::param(1) as usize;
    let mut b = sx::bytes(n);
    if sx::param(2) != 0 {
        // property: fixed identifier
        b[0] = sx::param(2) as u8;
    }
    let rej = || sx::reach("rejected");
    match sx::param(0) {
        0 => match Property::parse(&b) {
            Err(_) => rej(),
            Ok((p, k)) => {
                sx::reach("accepted");
                sx::check(k <= n, "consumed more than given");
                let e = p.to_continuous_buffer();
                sx::check(e.len() == p.size() && same(&e, &concat(p.to_buffers())), "sizes of a property");
                sx::check(e[0] == b[0], "identifier of a property");
                let (id, v) = un_prop(&p);
                let (id2, v2) = un_prop2(&p);
                sx::check(id == b[0] && id2 == id && same_v(&v, &v2), "the accessors of a property disagree");
                sx::check(value_ok(id, &v) || id == 8, "a property with a forbidden value is accepted");
                sx::check(same(&enc_prop(enc::B::new(), id, &v).0, &e), "a property serialises differently from its value");
                let own = match &v {
                    V::Text(s) => utf8_ok(s),
                    V::Pair(k, v) => utf8_ok(k) && utf8_ok(v),
                    _ => true,
                };
                sx::check(own, "a string of an accepted property is not UTF-8");
                sx::check(id == 11 || k == e.len(), "length of a property");
                match Property::parse(&e) {
                    Ok((q, l)) => sx::check(l == e.len() && q == p, "a property does not survive its own serialisation"),
                    Err(_) => sx::fail("a property's own serialisation is rejected"),
                }
                match to_prop(id, &v) {
                    Ok(q) => sx::check(q == p, "a property built from the value differs"),
                    Err(_) => sx::fail("the parser accepts a property the constructor refuses"),
                }
                std::mem::forget((p, v));
            }
        },
        1 => match <Properties as PropertiesParse>::parse(&b) {
            Err(_) => rej(),
            Ok((p, k)) => {
                sx::reach("accepted");
                sx::check(k <= n, "consumed more than given");
                let e = concat(p.to_buffers());
                sx::check(e.len() == PropertiesSize::size(&p), "sizes of properties");
                sx::check(same(&enc_props(&un_props(&p)), &e), "properties serialise differently from their values");
                // e is the length, then the properties: they lie within what the input announced
                let l = b.iter().position(|x| x & 0x80 == 0).unwrap() + 1;
                let mut announced = 0usize;
                for i in 0..l {
                    announced |= ((b[i] & 0x7f) as usize) << (7 * i);
                }
                sx::check(k == l + announced, "properties beyond the announced property length accepted");
                std::mem::forget(p);
            }
        },
        2 => match SubEntry::parse(&b) {
            Err(_) => rej(),
            Ok((p, k)) => {
                sx::reach("accepted");
                let e = p.to_continuous_buffer();
                sx::check(k <= n && same(&e, &b[..k]) && same(&e, &concat(p.to_buffers())) && p.size() == k, "a SUBSCRIBE entry is not the bytes it was parsed from");
                let o = b[k - 1];
                sx::check((o & 3 != 3) & (o & 0x30 != 0x30) & (o & 0xc0 == 0), "invalid subscription options accepted");
                sx::check(un_opts(p.sub_opts()) == o, "subscription options");
                sx::check(same(p.topic_filter().as_bytes(), &b[2..k - 1]) && utf8_ok(&b[2..k - 1]), "topic filter");
            }
        },
        3 => match MqttString::decode(&b) {
            Err(_) => {
                rej();
                let l = (b[0] as usize) << 8 | *b.get(1).unwrap_or(&0) as usize;
                if n >= 2 && n >= 2 + l {
                    sx::check(!utf8_ok(&b[2..2 + l]), "a well-formed string is rejected");
                }
            }
            Ok((p, k)) => {
                sx::reach("accepted");
                sx::check(k <= n && k >= 2 && (b[0] as usize) << 8 | b[1] as usize == k - 2, "length of a string");
                sx::check(same(p.as_str().as_bytes(), &b[2..k]) && utf8_ok(&b[2..k]), "string contents");
                sx::check(same(&p.to_continuous_buffer(), &b[..k]) && same(&concat(p.to_buffers()), &b[..k]) && same(p.as_bytes(), &b[..k]), "string bytes");
                sx::check(p.len() == k - 2 && p.size() == k && p.is_empty() == (k == 2), "string length");
                sx::check(MqttString::new(p.as_str()).ok() == Some(p.clone()), "constructed string");
            }
        },
        4 => match MqttBinary::decode(&b) {
            Err(_) => {
                rej();
                let l = (b[0] as usize) << 8 | *b.get(1).unwrap_or(&0) as usize;
                sx::check(n < 2 || n < 2 + l, "a well-formed binary is rejected");
            }
            Ok((p, k)) => {
                sx::reach("accepted");
                sx::check(k <= n && k >= 2 && (b[0] as usize) << 8 | b[1] as usize == k - 2, "length of a binary");
                sx::check(same(p.as_slice(), &b[2..k]), "binary contents");
                sx::check(same(&p.to_continuous_buffer(), &b[..k]) && same(&concat(p.to_buffers()), &b[..k]) && same(p.as_bytes(), &b[..k]), "binary bytes");
                sx::check(p.len() == k - 2 && p.size() == k && p.is_empty() == (k == 2), "binary length");
                sx::check(MqttBinary::new(p.as_slice()).ok() == Some(p.clone()), "constructed binary");
            }
        },
        _ => {
            // value and length according to the specification's algorithm
            let mut v = 0u32;
            let mut used = 0;
            for i in 0..4.min(n) {
                v += ((b[i] & 0x7f) as u32) << (7 * i);
                if b[i] & 0x80 == 0 {
                    used = i + 1;
                    break;
                }
            }
            match VariableByteInteger::decode_stream(&b) {
                DecodeResult::Ok(x, k) => {
                    sx::reach("accepted");
                    sx::check(used > 0 && k == used && x.to_u32() == v, "decoded variable byte integer");
                    let mut e = vec![];
                    enc::vbi(&mut e, v as usize);
                    sx::check(x.size() == e.len() && same(x.as_bytes(), &e) && same(&x.to_continuous_buffer(), &e), "encoded variable byte integer");
                    sx::check(VariableByteInteger::from_u32(v) == Some(x), "constructed variable byte integer");
                }
                DecodeResult::Incomplete => {
                    rej();
                    sx::check(used == 0 && n < 4, "a complete variable byte integer is called incomplete");
                }
                DecodeResult::Err(_) => {
                    rej();
                    // too long, or not minimal
                    sx::check(if used == 0 { n >= 4 } else { used > 1 && b[used - 1] == 0 }, "a valid variable byte integer is rejected");
                }
            }
        }
    }
    std::mem::forget(b);
}
/// C18: any k properties (arbitrary identifiers, arbitrary values) in one place of one packet
fn c18() {
    let loc = sx::param(0) as u8;
    let k = sx::param(1) as usize;
    let g = Shape { s: sx::param(2) as usize, p: 0, np: 0, n: 1, flags: 0 };
    sx::expect(&["accepted", "rejected"]);
    let t = if loc == WILL { CONNECT } else { loc };
    let mut props: Props = vec![];
    let mut ok = true;
    for _ in 0..k {
        let id = IDS[sx::choose(27) as usize];
        let v = value(&g, id);
        if let (8, V::Text(t)) = (id, &v) {
            sx::assume(topic_ok(t)); // not judged here
        }
        ok &= allowed(id, loc) && (repeatable(id, loc) || !props.iter().any(|(i, _)| *i == id));
        ok &= value_ok(id, &v);
        props.push((id, v));
    }
    let mut a = A { v5: true, t, ka: 1, client: b"c".to_vec(), clean: true, pid: Some(1), qos: 1, ..A::default() };
    a.topic = Some(b"t".to_vec());
    a.subs = vec![(b"t".to_vec(), 0)];
    a.rc = if loc == CONNACK || loc >= PUBACK { Some(0) } else { None };
    a.codes = vec![0];
    // Authentication Data goes with an Authentication Method (a rule on its own: only the agreement is judged)
    let has = |i: u8| props.iter().any(|(x, _)| *x == i);
    let judged = !has(22) || has(21);
    if loc == WILL {
        a.props = Some(vec![]);
        a.will = Some(Will { props, topic: b"w".to_vec(), payload: vec![], qos: 0, retain: false });
    } else {
        a.props = Some(props);
    }
    let built = build::<u16>(&a);
    let body = enc_body(&a, 2);
    let parsed = parse::<u16>(true, t, b0(&a) & 15, &body);
    if !judged {
        sx::check(built.is_ok() == parsed.is_ok(), "builder and parser disagree about the properties");
    } else if ok {
        sx::reach("accepted");
        sx::check(built.is_ok(), "the builder refuses properties the specification allows");
        sx::check(parsed.is_ok(), "the parser refuses properties the specification allows");
    } else {
        sx::reach("rejected");
        sx::check(built.is_err(), "the builder accepts properties the specification forbids");
        sx::check(parsed.is_err(), "the parser accepts properties the specification forbids");
    }
    std::mem::forget((built, parsed, a));
}
/// C18: an identifier the specification does not define, with any bytes behind it, is refused everywhere
fn c18_unknown() {
    let loc = sx::param(0) as u8;
    sx::expect(&["rejected"]);
    let id = sx::u8();
    for i in IDS {
        sx::assume(id != i);
    }
    let rest = sx::bytes(sx::param(1) as usize);
    let mut p = vec![id];
    p.extend_from_slice(&rest);
    let b = enc::B::new();
    let (t, body) = match loc {
        WILL => (CONNECT, enc::B::new().s(b"MQTT").u8(5).u8(6).u16(0).u8(0).s(b"c").block(&p).s(b"w").s(b"").0),
        CONNECT => (CONNECT, b.s(b"MQTT").u8(5).u8(2).u16(0).block(&p).s(b"c").0),
        CONNACK => (loc, b.u8(0).u8(0).block(&p).0),
        PUBLISH => (loc, b.s(b"t").u16(1).block(&p).0),
        PUBACK | PUBREC | PUBREL | PUBCOMP => (loc, b.u16(1).u8(0).block(&p).0),
        SUBSCRIBE => (loc, b.u16(1).block(&p).s(b"t").u8(0).0),
        UNSUBSCRIBE => (loc, b.u16(1).block(&p).s(b"t").0),
        SUBACK | UNSUBACK => (loc, b.u16(1).block(&p).u8(0).0),
        _ => (loc, b.u8(0).block(&p).0),
    };
    let r = parse::<u16>(true, t, if t == PUBLISH { 2 } else { 0 }, &body);
    sx::check(r.is_err(), "the parser accepts an undefined property");
    sx::reach("rejected");
    std::mem::forget(r);
}
/// every way to hand a payload, string or binary to a builder; params: 0 v5.0, 1 length, 2 span
fn payload() {
    use mqtt::common::{ArcPayload, IntoPayload};
    use mqtt::packet::{MqttBinary, MqttString};
    use std::sync::Arc;
    sx::expect(&["built"]);
    let n = sx::param(1) as usize + sx::choose(sx::param(2) as u32 + 1) as usize;
    let mut b: Vec<u8> = (0..n).map(|i| (i % 96) as u8 + 32).collect();
    if n > 0 {
        b[0] = sx::u8();
        b[n - 1] = sx::u8();
        sx::assume((b[0] < 0x80) & (b[n - 1] < 0x80) & (b[0] >= 0x20) & (b[n - 1] >= 0x20));
    }
    let a: ArcPayload = match sx::choose(8) {
        0 => st(&b).into_payload(),
        1 => String::from(st(&b)).into_payload(),
        2 => b.as_slice().into_payload(),
        3 => b.clone().into_payload(),
        4 => (&b).into_payload(),
        5 => Arc::<[u8]>::from(b.as_slice()).into_payload(),
        6 => {
            // a part of a larger buffer
            let mut c = vec![9, 8, 7];
            c.extend_from_slice(&b);
            c.push(6);
            ArcPayload::new(Arc::from(c), 3, n)
        }
        _ => {
            if n == 0 {
                ().into_payload()
            } else {
                let mut c = [0u8; 3];
                let k = if n < 3 { n } else { 3 };
                c[..k].copy_from_slice(&b[..k]);
                b = c.to_vec();
                (&c).into_payload()
            }
        }
    };
    sx::check(same(a.as_slice(), &b), "the payload's bytes");
    sx::check((a.len() == b.len()) & (a.is_empty() == b.is_empty()), "the payload's length");
    let c = ArcPayload::new(Arc::from(b.as_slice()), 0, b.len());
    sx::check(a == c && a.clone() == c, "equal payloads compare unequal");
    // as string and as binary
    let s = MqttString::new(st(&b));
    let y = MqttBinary::new(b.as_slice());
    if b.len() > 65535 {
        sx::check(s.is_err() && y.is_err(), "a string longer than 65535 bytes is accepted");
    } else {
        let mut e = vec![(b.len() >> 8) as u8, b.len() as u8];
        e.extend_from_slice(&b);
        match (s, y) {
            (Ok(s), Ok(y)) => {
                sx::check(same(s.as_bytes(), &e) & same(y.as_bytes(), &e), "encoded string or binary");
                sx::check(same(s.as_str().as_bytes(), &b) & same(y.as_slice(), &b), "contents of string or binary");
                sx::check((s.size() == e.len()) & (y.size() == e.len()) & (s.len() == b.len()) & (y.len() == b.len()), "size of string or binary");
                e.push(1);
                match (MqttString::decode(&e), MqttBinary::decode(&e)) {
                    (Ok((s2, k)), Ok((y2, l))) => {
                        sx::check((k == e.len() - 1) & (l == e.len() - 1), "bytes consumed by string or binary");
                        sx::check(s2 == s && y2 == y, "decoded string or binary differs");
                    }
                    _ => sx::fail("the decoder rejects an encoded string or binary"),
                }
            }
            _ => sx::fail("a string or binary of legal length is refused"),
        }
    }
    let p: GenericPacket<u16> = if sx::param(0) != 0 {
        GenericPacket::V5_0Publish(mqtt::packet::v5_0::GenericPublish::builder().topic_name("t").unwrap().payload(a).build().unwrap())
    } else {
        GenericPacket::V3_1_1Publish(mqtt::packet::v3_1_1::GenericPublish::builder().topic_name("t").unwrap().payload(a).build().unwrap())
    };
    let s = serial(&p);
    sx::check(s.bytes.len() >= b.len() && same(&s.bytes[s.bytes.len() - b.len()..], &b), "payload of the serialised packet");
    reparse(&p, &s, sx::param(0) != 0, PUBLISH);
    sx::reach("built");
    std::mem::forget((p, c));
}
entries! {
    h02_payload => payload,
    h18 => c18, h18_unknown => c18_unknown,
    h02 => c02, h02_mutators => c02_mutators, h04_part => c04_part, h03 => c03, h04_any => c04_any, h04_mut => c04_mut, h04_share => c04_share,
}
