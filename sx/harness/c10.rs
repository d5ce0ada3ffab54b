//! C10: with an authentication key only authentic responses are delivered.
use super::common::*;
use crate::error::*;

pub const SALT: [u8; 8] = [1, 2, 3, 4, 5, 6, 7, 8];

/// msgData and salt of a message with this PDU
fn payload(u: &Usm, pdu: &[u8], encrypted: bool, boots: u32, time: u32) -> (Vec<u8>, Vec<u8>) {
    let mut sp = scoped(&u.engine, pdu);
    if !encrypted {
        return (sp, Vec::new());
    }
    let salt = SALT.to_vec();
    let d = if u.privacy == 1 {
        while sp.len() % 8 != 0 {
            sp.push(0);
        }
        des_cbc(&u.priv_key, &salt, &sp, false)
    } else {
        aes_cfb(&u.priv_key, boots, time, &salt, &sp, false)
    };
    (octets(&d), salt)
}
/// What the datagram at `off` (authentication parameters) must carry to be authentic
fn mac_of(u: &Usm, d: &[u8], off: usize, n: usize) -> [u8; 12] {
    let mut z = d.to_vec();
    for i in 0..n {
        z[off + i] = 0;
    }
    hmac96(u.auth, &u.auth_key, &z)
}
/// A history before the request under test
fn history(c: &mut Ctx, h: u64) {
    match h {
        1 => {
            // key change
            let u = Usm::any(c.u.auth, c.u.privacy);
            let r = match &mut c.sock {
                Sock::V3(s) => s.set_keys("other".to_string(), u.auth | 0x80, &u.auth_key, if u.privacy == 0 { 0 } else { u.privacy | 0x80 }, &u.priv_key),
                _ => Ok(()),
            };
            check(r.is_ok(), "set_keys");
            c.u.user = b"other".to_vec();
            c.u.auth_key = u.auth_key;
            c.u.priv_key = u.priv_key;
        }
        2 => {
            // authentic Report
            let op = c.op;
            c.op = OP_REFRESH;
            c.request();
            let m = c.wrap(&pdu_raw(REPORT, &c.reqid_tlv(), 0, 0, &[]));
            arrive(&m, 0);
            check(c.recv().is_ok(), "Report is accepted");
            c.op = op;
        }
        3 => {
            // Report without authentication
            let op = c.op;
            c.op = OP_REFRESH;
            c.request();
            let mut u = c.u.clone();
            u.auth = 0;
            u.privacy = 0;
            let m = wrap(3, &u, c.msg_id, &pdu_raw(REPORT, &c.reqid_tlv(), 0, 0, &[]));
            arrive(&m, 0);
            check(c.recv().is_ok(), "Report is accepted");
            c.op = op;
        }
        4 => {
            // answered request
            let op = c.op;
            c.op = OP_GET;
            c.request();
            let m = c.response(&[vb(7)]);
            arrive(&m, 0);
            check(c.recv().is_ok(), "reply is accepted");
            c.op = op;
        }
        _ => {}
    }
}
/// The next request goes on from the reply that counts: the iterator and the agent's clock are those
/// of the authentic message
fn after(c: &mut Ctx, second: bool, boots: u8) {
    let it = c.op == OP_NEXT || c.op == OP_BULK;
    let r = c.send();
    check(r.is_ok(), "next request");
    let q = read_v3(last_sent());
    check(q.ok, "next request is well-formed");
    check(second == ((q.boots == 7) & (q.time == 700)), "boots and time come from the accepted message");
    if !second {
        check((q.boots == boots as i64) & (q.time == 9), "boots and time come from the accepted message");
    }
    if it {
        let sp = open_scoped(&c.u, &q);
        let (ok, _, _, p, _) = read_scoped(&sp);
        check(ok, "next request is well-formed");
        if ok && p.oids.len() == 1 {
            let want = cat(&[&BASE_BER, &[if second { 3 } else { 2 }]]);
            check(sxrt::eq(p.oids[0], &want), "walk goes on from the accepted reply");
        } else {
            fail("walk goes on from the accepted reply");
        }
    }
}
/// args: auth, privacy, operation, PDU (0 Response, 1 Report, 2 Response with an error), encrypted,
/// size of authentication parameters, history
#[unsafe(no_mangle)]
pub extern "C" fn h_c10_forged() {
    let (auth, privacy, op) = (sxrt::arg(0), sxrt::arg(1), sxrt::arg(2));
    let kind = sxrt::arg(3);
    let encrypted = sxrt::arg(4) == 1;
    let n = sxrt::arg(5) as usize;
    uf::laws_on_demand();
    let mut c = Ctx::open(3, auth * 10 + privacy, op, 0);
    history(&mut c, sxrt::arg(6));
    c.request();
    // the forged one
    let pdu = match kind {
        0 => pdu_raw(RESPONSE, &c.reqid_tlv(), 0, 0, &[vb(1)]),
        1 => pdu_raw(REPORT, &c.reqid_tlv(), 0, 0, &[vb(1)]),
        _ => pdu_raw(RESPONSE, &c.reqid_tlv(), 1 + choose(5) as i64, 1, &[vb(1)]),
    };
    let (data, salt) = payload(&c.u, &pdu, encrypted, 99, 9);
    let flags = sxrt::u8("flags");
    let m = V3 { msg_id: int_n(c.msg_id, 4), max_size: 65507, flags, engine: c.u.engine.clone(), boots: int(99), time: int(9), user: c.u.user.clone(), salt, data };
    let params = sym(n, "authentication parameters");
    let (d1, off) = v3_msg(&m, &params);
    arrive(&d1, 0);
    // the authentic one
    let good = if op == OP_REFRESH { REPORT } else { RESPONSE };
    let d2 = c.wrap(&pdu_raw(good, &c.reqid_tlv(), 0, 0, &[vb(2)]));
    arrive(&d2, 0);
    let n0 = world().next;
    let r = c.recv();
    // which one ended the call
    let first = world().next == n0 + 1;
    if !first {
        match &r {
            Ok(r) => check(op == OP_REFRESH || number(op, r) == Some(102), "the authentic reply is delivered"),
            Err(_) => fail("the authentic reply is refused"),
        }
    }
    let authentic = if n == 12 {
        let mac = mac_of(&c.u, &d1, off, 12);
        ((flags & 1) == 1) & sxrt::eq(&mac, &params)
    } else {
        false
    };
    let proper = authentic && (privacy == 0 || encrypted);
    let consistent = (flags & 3) == 1 | (encrypted as u8) << 1;
    if first {
        if kind != 1 {
            check(proper, "forged response is delivered");
            reach(1);
        } else {
            if let Ok(r) = &r {
                check(number(op, r) != Some(101), "Report is delivered as a response");
            }
            reach(2);
        }
    } else {
        check(!(proper & consistent), "authentic response is skipped");
        reach(3);
    }
    if r.is_ok() && kind != 2 {
        after(&mut c, !first, 99);
    }
}
/// Octets of headers
fn headers(d: &[u8], base: usize, inside: bool, out: &mut Vec<bool>) {
    let mut r = Rd::at(d, base);
    let mut k = 0;
    while r.ok && !r.b.is_empty() {
        let at = r.base;
        let (tag, c, o) = r.any();
        for i in at..o {
            out[i] = true;
        }
        if tag & 0x20 != 0 || inside && k == 2 {
            headers(c, o, tag & 0x20 != 0 && base == 0, out);
        }
        k += 1;
    }
}
/// args: auth, privacy, operation, part, parts: an authentic response with one octet changed
#[unsafe(no_mangle)]
pub extern "C" fn h_c10_tampered() {
    let (auth, privacy, op) = (sxrt::arg(0), sxrt::arg(1), sxrt::arg(2));
    uf::laws_on_demand();
    let mut c = Ctx::open(3, auth * 10 + privacy, op, 0);
    c.request();
    // which numbers these are does not matter here
    assume((c.reqid == 0x1234_5678) & (c.msg_id == 0x7abc_def0));
    let mut d1 = c.response(&[vb(1)]);
    let per = (d1.len() as u64 + sxrt::arg(4) - 1) / sxrt::arg(4);
    let at = (sxrt::arg(3) * per + choose(per)) as usize;
    if at >= d1.len() {
        return;
    }
    // an arbitrary change of content, any one bit of a header
    let mut h = vec![false; d1.len()];
    headers(&d1, 0, false, &mut h);
    let mask = if h[at] { 1 << choose(8) } else { sxrt::u8("mask") };
    assume(mask != 0);
    let q = read_v3(&d1);
    if h[at] {
        // what this MAC reads like as anything else does not matter
        assume(sxrt::eq(q.auth, &[2, 1, 5, 0xb1, 7, 0x44, 4, 0, 0x30, 0x82, 1, 0xff]));
        if privacy != 0 {
            let x: Vec<u8> = (0..q.data.len()).map(|i| (i * 29 + 4) as u8).collect();
            assume(sxrt::eq(q.data, &x));
        }
    }
    // nobody finds another message with this MAC, wherever it is then read from
    uf::no_collision(q.auth, true);
    d1[at] ^= mask;
    for o in 0..d1.len() - 12 {
        if h[at] || o + 12 > at && at + 12 > o {
            uf::no_collision(&d1[o..o + 12], false);
        }
    }
    arrive(&d1, 0);
    let d2 = c.response(&[vb(2)]);
    arrive(&d2, 0);
    let r = c.recv();
    if world().next == 2 {
        match &r {
            Ok(r) => check(number(op, r) == Some(102), "the authentic reply is delivered"),
            Err(_) => fail("the authentic reply is refused"),
        }
        reach(1);
        return;
    }
    if let Err(e) = &r {
        if is::<PySnmpDecodeError>(e) {
            // not well-formed any more
            reach(2);
            return;
        }
    }
    fail("changed response is delivered");
}
/// args: auth, privacy, operation, k: forged ones without end (k here), then the authentic one
#[unsafe(no_mangle)]
pub extern "C" fn h_c10_flood() {
    let (auth, privacy, op) = (sxrt::arg(0), sxrt::arg(1), sxrt::arg(2));
    uf::laws_on_demand();
    let mut c = Ctx::open(3, auth * 10 + privacy, op, 1_000_000_000);
    c.request();
    for i in 0..sxrt::arg(3) {
        let pdu = pdu_raw(RESPONSE, &c.reqid_tlv(), 0, 0, &[vb(1)]);
        let form = i % 4;
        let (data, salt) = payload(&c.u, &pdu, privacy != 0 && form != 3, 99, 9);
        let flags = if form == 0 { 0 } else { 1 } | (privacy != 0) as u8 * 2;
        let m = V3 { msg_id: int_n(c.msg_id, 4), max_size: 65507, flags, engine: c.u.engine.clone(), boots: int(99), time: int(9), user: c.u.user.clone(), salt, data };
        let mut params = if form == 1 { vec![0u8; 12] } else { sym(if form == 2 { 0 } else { 12 }, "authentication parameters") };
        let (d, off) = v3_msg(&m, &params);
        if params.len() == 12 {
            let mac = mac_of(&c.u, &d, off, 12);
            assume(!sxrt::eq(&mac, &params));
        }
        arrive(&d, i);
    }
    let d2 = c.response(&[vb(2)]);
    arrive(&d2, 1000);
    match c.recv() {
        Ok(r) => {
            check(number(op, &r) == Some(102), "forged response is delivered");
            reach(1)
        }
        Err(_) => fail("the authentic reply is not delivered"),
    }
}
