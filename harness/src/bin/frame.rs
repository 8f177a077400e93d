//! C09: framing is independent of the chunking of the byte stream.
#[path = "../sx.rs"]
#[macro_use]
mod sx;
#[cfg(feature = "native")]
#[path = "../native.rs"]
mod native;
#[path = "../enc.rs"]
mod enc;
#[path = "../world.rs"]
mod world;
use enc::{Ack, Cfg};
use mqtt_protocol_core::mqtt;
use mqtt_protocol_core::mqtt::common::Cursor;
use mqtt_protocol_core::mqtt::connection::{PacketBuildResult, PacketBuilder};
use mqtt_protocol_core::mqtt::role::RoleType;
use world::*;

/// what the stream contains, according to the specification (MQTT 2.2.3: at most four bytes of Remaining Length)
enum Item {
    /// first byte, start and end of the body
    Packet(u8, usize, usize),
    /// ends after the fourth Remaining Length byte
    Error(usize),
}
/// a packet longer than the rest of the stream: a few lengths stand for all (they only size a buffer)
fn too_long(s: &[u8], q: usize, k: usize, room: usize) {
    let mut v = 0u32;
    for j in 0..k {
        v |= ((s[q + j] & 0x7f) as u32) << (7 * j);
    }
    let r = room as u32;
    sx::assume((v == r + 1) | (v == r + 2) | (v == 128) | (v == 300) | (v == 16384) | (v == 16389) | (v == 70000));
}
/// concrete lengths are needed: forks on every value of the length bytes that the stream has room for
fn split(s: &[u8]) -> Vec<Item> {
    let mut r = vec![];
    let mut p = 0;
    while p < s.len() {
        let b0 = s[p];
        let mut q = p + 1;
        let mut n = 0usize;
        let mut k = 0;
        loop {
            if q == s.len() {
                return r;
            }
            let b = s[q];
            q += 1;
            if b & 0x80 == 0 {
                let v = b as usize;
                // lengths past the end of the stream behave alike
                let room = (s.len() - q) >> (7 * k);
                if v > room {
                    too_long(s, p + 1, k + 1, s.len() - q);
                    return r;
                }
                n |= (sx::conc(v as u64) as usize) << (7 * k);
                break;
            }
            k += 1;
            if k == 4 {
                break;
            }
            if b & 0x7f != 0 {
                let v = (b & 0x7f) as usize;
                if v > (s.len() - q) >> (7 * (k - 1)) {
                    // longer than the stream, unless the next bytes make it malformed
                    let mut j = k;
                    let mut e = q;
                    loop {
                        if e == s.len() {
                            return r;
                        }
                        let c = s[e];
                        e += 1;
                        if c & 0x80 == 0 {
                            too_long(s, p + 1, j + 1, s.len() - e);
                            return r;
                        }
                        j += 1;
                        if j == 4 {
                            break;
                        }
                    }
                    q = e;
                    k = 4;
                    break;
                }
                n |= (sx::conc(v as u64) as usize) << (7 * (k - 1));
            }
        }
        if k == 4 {
            r.push(Item::Error(q));
            p = q;
            continue;
        }
        if q + n > s.len() {
            too_long(s, p + 1, k + 1, s.len() - q);
            return r;
        }
        r.push(Item::Packet(b0, q, q + n));
        p = q + n;
    }
    r
}
fn end(i: &Item) -> usize {
    match i {
        Item::Packet(_, _, e) => *e,
        Item::Error(e) => *e,
    }
}
/// next chunk: `mode` 0 any length, otherwise cuts only close to the places where something begins or ends
/// (and at most `mode` cuts)
fn chunk(mode: &mut u64, pos: usize, len: usize, marks: &[usize]) -> usize {
    if *mode == 0 {
        return pos + 1 + sx::choose((len - pos) as u32) as usize;
    }
    if *mode == 1 {
        return len;
    }
    *mode -= 1;
    let c: Vec<usize> = marks.iter().copied().filter(|m| *m > pos && *m < len).chain([len]).collect();
    c[sx::choose(c.len() as u32) as usize]
}
/// drives `feed` over the stream; its answer: (number of items, end of the stream reached)
fn drive(s: &[u8], items: &[Item], mut mode: u64, marks: &[usize]) {
    let mut b = PacketBuilder::new();
    let mut pos = 0;
    let mut i = 0;
    while pos < s.len() {
        let to = chunk(&mut mode, pos, s.len(), marks);
        let mut cur = Cursor::new(&s[pos..to]);
        let mut idle = false;
        loop {
            let before = cur.position() as usize;
            if before == to - pos {
                // an empty buffer changes nothing
                if !idle {
                    idle = true;
                } else {
                    break;
                }
            }
            let r = b.feed(&mut cur);
            let at = cur.position() as usize;
            sx::check(at <= to - pos && (at > before || idle), "a call makes no progress or reads past the end of its buffer");
            let want = if i < items.len() { end(&items[i]) } else { usize::MAX };
            match r {
                PacketBuildResult::Incomplete => {
                    sx::check(at == before || pos + at < want, "a complete packet is not delivered");
                }
                PacketBuildResult::Complete(p) => {
                    sx::check(i < items.len() && pos + at == want && !idle, "a packet is delivered that does not end here");
                    if let Item::Packet(b0, x, y) = items[i] {
                        sx::check(p.packet_type() == b0 >> 4 && p.flags() == b0 & 15, "first byte wrong");
                        sx::check(p.is_publish() == (b0 >> 4 == 3), "first byte wrong");
                        sx::check(p.remaining_length() as usize == y - x, "length wrong");
                        sx::check(eq_bytes(p.data_as_slice(), &s[x..y]), "body wrong");
                        sx::reach("packet framed");
                    } else {
                        sx::fail("a Remaining Length of more than four bytes is accepted");
                    }
                    i += 1;
                }
                PacketBuildResult::Error(_) => {
                    sx::check(i < items.len() && pos + at == want && !idle, "an error is reported where there is none");
                    sx::check(matches!(items[i], Item::Error(_)), "an error is reported for a well-formed packet");
                    sx::reach("Remaining Length of more than four bytes reported");
                    i += 1;
                }
            }
        }
        pos = to;
    }
    sx::check(i == items.len(), "packets are missing");
}
/// params: 0 length of the stream, 1 bytes of it that are symbolic at the front, 2 mode
fn builder() {
    let n = sx::param(0) as usize;
    let s = sx::bytes(n);
    let items = split(&s);
    drive(&s, &items, sx::param(1), &[]);
}
/// long packets: every width of the Remaining Length; params: 0 body length, 1 padded Remaining Length bytes, 2 mode
fn long() {
    let n = sx::param(0) as usize;
    let pad = sx::param(1) as usize;
    let mut s = vec![];
    // something before
    if sx::coin() {
        s.extend([0xd0, 0]);
    }
    let start = s.len();
    s.push(sx::u8());
    let mut l = vec![];
    enc::vbi(&mut l, n);
    for _ in 0..pad {
        *l.last_mut().unwrap() |= 0x80;
        l.push(0);
    }
    s.extend(&l);
    let body = s.len();
    s.resize(body + n, 0x55);
    for k in [0, n / 3, n / 2, n - 1] {
        s[body + k] = sx::u8();
    }
    let e = s.len();
    // something after
    s.push(sx::u8());
    s.push(1);
    s.push(sx::u8());
    s.extend([0x30]);
    let mut items = vec![];
    if start > 0 {
        items.push(Item::Packet(0xd0, 2, 2));
    }
    items.push(Item::Packet(s[start], body, e));
    items.push(Item::Packet(s[e], e + 2, e + 3));
    let marks: Vec<usize> = [start, start + 1, start + 2, start + 3, body, body + 1, body + n / 2, e - 1, e, e + 1, e + 3].into_iter().collect();
    let mut m: Vec<usize> = vec![];
    for x in marks {
        if x > 0 && m.last().map_or(true, |y| *y < x) {
            m.push(x);
        }
    }
    drive(&s, &items, sx::param(2), &m);
}

/// one frame of the stream
fn piece(v5: bool, client: bool) -> Vec<u8> {
    let id = 1 + sx::below(3) as u16;
    let kind = sx::choose(12);
    let b0 = match (sx::param(1), kind) {
        (1, _) => sx::u8(),
        (_, 7..=10) => [0x00, 0x40, 0x34][sx::choose(3) as usize],
        _ => 0,
    };
    match kind {
        0 => enc::publish(v5, 0, false, b"a", 0, None, &[sx::u8()]),
        1 => enc::publish(v5, 1, false, b"a", id, None, b""),
        2 => enc::publish(v5, 2, sx::bool(), b"ab", id, None, b"xyz"),
        3 => enc::ack(4, id, None),
        4 => enc::ack(5, id, None),
        5 => enc::ack(6, id, None),
        6 => if client { enc::pingresp() } else { enc::pingreq() },
        7 => vec![b0, 0],
        8 => vec![b0, 2, sx::u8(), sx::u8()],
        9 => vec![b0, 0x81, 0x80, 0, sx::u8()],
        10 => vec![b0, 0x80 | sx::u8(), 0x80 | sx::u8(), 0x80 | sx::u8(), 0x80 | sx::u8()],
        _ => vec![0x30, 0x83, 0x80, 0x80, 0, 0, 1, sx::u8()],
    }
}
/// params: 0 version, 1 frames, 2 connected, 3 mode of cutting, 4 close in the middle
fn conn<R: RoleType>(client: bool) {
    let v5 = sx::param(0) == 5;
    let mut a = W::<R>::new(v5, client);
    let mut b = W::<R>::new(v5, client);
    b.quiet = true;
    for w in [&mut a, &mut b] {
        w.c.set_auto_pub_response(true);
        w.c.set_auto_ping_response(true);
        w.c.set_pingresp_recv_timeout(1000);
    }
    let first = |w: &mut W<R>| {
        let c = Cfg { clean: true, ka: 1, ..Cfg::default() };
        let k = Ack::default();
        let l = if client { [Op::SConnect(c), Op::RConnack(k)] } else { [Op::RConnect(c), Op::SConnack(k)] };
        for op in l {
            w.exec(&op);
        }
        for qos in [1, 2] {
            let id = w.c.acquire_packet_id().unwrap();
            w.exec(&Op::SPub { qos, id, topic: "a", alias: None, pl: 0 });
        }
        if client {
            w.exec(&Op::SPing { t: 12 });
        }
    };
    if sx::param(2) != 0 {
        first(&mut a);
        first(&mut b);
    }
    let mut s = vec![];
    let mut ends = vec![];
    let mut marks = vec![];
    for _ in 0..sx::param(1) {
        let p = piece(v5, client);
        let o = s.len();
        let l = p.len();
        marks.extend([o, o + 1, o + 2, o + l - 1]);
        s.extend(p);
        ends.push((o, s.len()));
    }
    // one packet at a time
    let mut want: Vec<Vec<Ev>> = vec![];
    for (x, y) in &ends {
        let mut cur = Cursor::new(&s[*x..*y]);
        let mut ev = vec![];
        let mut first = true;
        while (cur.position() as usize) < y - x {
            let e = b.c.recv(&mut cur);
            // the fifth byte of a broken Remaining Length begins the next frame
            if !first {
                sx::check(e.is_empty(), "the byte after a broken Remaining Length has effects alone");
            }
            first = false;
            ev.extend(e);
        }
        want.push(ev);
    }
    // in pieces
    let mut m: Vec<usize> = vec![];
    for x in marks {
        if x > 0 && m.last().map_or(true, |y| *y < x) {
            m.push(x);
        }
    }
    let mut got: Vec<Ev> = vec![];
    let mut pos = 0;
    let mut mode = sx::param(3);
    while pos < s.len() {
        let to = chunk(&mut mode, pos, s.len(), &m);
        let mut cur = Cursor::new(&s[pos..to]);
        let mut n = 0;
        loop {
            let before = cur.position();
            let ev = a.c.recv(&mut cur);
            sx::check(cur.position() as usize <= to - pos, "recv reads past the end of its buffer");
            if before as usize == to - pos {
                sx::check(ev.is_empty(), "an empty buffer has effects");
                break;
            }
            sx::check(cur.position() > before, "recv makes no progress");
            n += 1;
            sx::check(n < 64, "recv makes no progress");
            got.extend(ev);
        }
        pos = to;
    }
    obs(&got);
    let want: Vec<Ev> = want.into_iter().flatten().collect();
    sx::check(equal(&got, &want), "the events depend on how the stream is cut");
    sx::check(a.c.get_receive_maximum_vacancy_for_send() == b.c.get_receive_maximum_vacancy_for_send(), "the state depends on how the stream is cut");
    sx::reach("stream delivered");
    done((a, b, got, want));
}
entries! {
    h09_builder => builder,
    h09_long => long,
    h09_client => { fn f() { conn::<Client>(true) } f },
    h09_server => { fn f() { conn::<Server>(false) } f },
    h09_any => { fn f() { conn::<Any>(false) } f },
}
