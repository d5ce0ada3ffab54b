//! C03: requests on the wire are exactly what the caller asked for.
use super::common::*;

/// Text and octets of an OID: prefix 1.3.6.1, then the arcs
fn oid(arcs: &[u64], last: Option<(Vec<u8>, u64)>) -> (Vec<u8>, Vec<u8>) {
    let mut t = b"1.3.6.1".to_vec();
    let mut o = vec![43, 6, 1];
    for a in arcs {
        t.push(b'.');
        t.extend_from_slice(a.to_string().as_bytes());
        o.extend_from_slice(&arc(*a));
    }
    if let Some((d, v)) = last {
        t.push(b'.');
        t.extend_from_slice(&d);
        o.extend_from_slice(&arc(v));
    }
    (t, o)
}
fn text(t: &[u8]) -> &'static str {
    unsafe { std::str::from_utf8_unchecked(leak(t)) }
}
/// Arcs of the i-th OID of a list; shape: how long they are
fn arcs_of(shape: u64, i: u64) -> Vec<u64> {
    match shape {
        0 => vec![2, 1, 1, 1 + i % 9, 0],
        1 => vec![4, 1, 4294967295 - i, 65535 + i, 127 + i, 16384],
        // long OIDs: long-form lengths
        2 => (0..130).map(|k| (k * 7 + i) % 128).collect(),
        3 => (0..60).map(|k| 4294967295 - k * i).collect(),
        // of different lengths
        _ => (0..(i * 5) % 23 + 1).map(|k| if k % 3 == 0 { 300 + k + i } else { k }).collect(),
    }
}
fn ascii(n: usize, name: &str) -> Vec<u8> {
    let mut v = sym(n, name);
    for x in v.iter_mut() {
        *x &= 0x7f;
    }
    v
}
fn long_request(c: &mut Ctx, n: u64) {
    let t: Vec<&str> = (0..n).map(|i| text(&oid(&arcs_of(4, i), None).0)).collect();
    check(c.sock.send_get_many(&t).is_ok(), "earlier request is sent");
    c.learn();
}
/// What happened before in this process
fn before(c: &mut Ctx, h: u64) {
    let op = c.op;
    match h {
        1 => {
            // a longer request, answered
            long_request(c, 20);
            let x = sym(40, "earlier value");
            let m = c.response(&[varbind(&BASE_BER, &octets(&x)), varbind(&cat(&[&BASE_BER, &[1]]), &octets(&[0x55; 90]))]);
            arrive(&m, 0);
            check(c.sock.recv_get_many().is_ok(), "earlier reply is delivered");
        }
        2 => {
            // a malformed reply
            c.op = OP_GET;
            c.request();
            arrive(&tlv(0x30, &[0xaa; 100]), 0);
            check(c.recv().is_err(), "malformed reply");
        }
        3 => {
            // no reply
            c.op = OP_GET;
            c.request();
            check(c.recv().is_err(), "no reply");
        }
        4 => {
            // does not fit
            let t = text(&oid(&arcs_of(2, 3), None).0);
            let n = world().sent.len();
            check(c.sock.send_get_many(&[t; 40]).is_err(), "does not fit");
            check(world().sent.len() == n, "nothing is sent");
        }
        5 => {
            // another session, another version
            let mut o = if c.ver == 3 { Ctx::open(1, 0, OP_GET, 0) } else { Ctx::open(3, 12, OP_GET, 0) };
            long_request(&mut o, 20);
            let m = o.response(&[varbind(&BASE_BER, &octets(&[0x33; 140]))]);
            arrive(&m, 0);
            check(o.sock.recv_get_many().is_ok(), "earlier reply is delivered");
        }
        6 => {
            // refused by the parser
            let n = world().sent.len();
            check(c.sock.send_get_many(&["1.3.6.1.2.1.1.1.1.1.1.1.1.1", "1.3.x"]).is_err(), "refused");
            check(world().sent.len() == n, "nothing is sent");
        }
        7 => {
            // a late reply to the request before
            c.op = OP_GET;
            c.request();
            let m = c.response(&[varbind(&BASE_BER, &octets(&[0x44; 60]))]);
            let id = c.reqid;
            c.request();
            // ids are drawn at random
            assume(id != c.reqid);
            arrive(&m, 0);
            check(c.recv().is_err(), "late reply is skipped");
        }
        8 => {
            // the socket refuses to send
            world().send_fails = true;
            let r = c.sock.send_get_many(&["1.3.6.1.2.1.1.1.1.1.1.1.1.1"; 9]);
            check(r.is_err(), "send fails");
            world().send_fails = false;
        }
        9 => {
            // several requests, never answered
            for i in 0..4 {
                c.op = OP_GET;
                if i % 2 == 0 {
                    c.request();
                } else {
                    long_request(c, 3 + i);
                }
            }
        }
        _ => {}
    }
    c.op = op;
}
/// args: version, security, operation, community / user size, engine id size, history, OIDs, shape, symbolic one, its digits (3), max_repetitions in octets, bootstrap
#[unsafe(no_mangle)]
pub extern "C" fn h_c03() {
    let (ver, sec, op) = (sxrt::arg(0), sxrt::arg(1), sxrt::arg(2));
    let (h, k, shape, at) = (sxrt::arg(5), sxrt::arg(6), sxrt::arg(7), sxrt::arg(8));
    uf::laws_on_demand();
    let name = ascii(sxrt::arg(3) as usize, "community / user");
    let mut u = no_usm();
    let sock = match ver {
        0 => open_v1(text(&name), 0),
        1 => open_v2(text(&name), 0),
        _ => {
            u = Usm::any((sec / 10) as u8, (sec % 10) as u8);
            u.user = name.clone();
            u.engine = sym(sxrt::arg(4) as usize, "engine");
            u.open(0)
        }
    };
    let mut c = Ctx { sock, ver, u, op, it: None, reqid: 0, msg_id: 0 };
    let mut clock = (0, 0);
    if h == 1 && ver != 3 {
        // the reply carries the session's community
        long_request(&mut c, 20);
        let m = community_msg(ver as i64, &name, &pdu_raw(RESPONSE, &c.reqid_tlv(), 0, 0, &[varbind(&BASE_BER, &octets(&sym(140, "earlier value")))]));
        arrive(&m, 0);
        check(c.sock.recv_get_many().is_ok(), "earlier reply is delivered");
    } else {
        before(&mut c, h);
        if h == 1 {
            clock = (7, 700);
        }
    }
    let oids: Vec<(Vec<u8>, Vec<u8>)> = (0..k).map(|i| oid(&arcs_of(shape, i), if i == at { Some(digits_arg(9)) } else { None })).collect();
    let mut rep = 0i64;
    if op == OP_BULK {
        let n = sxrt::arg(12) as usize;
        let b = sym(n, "max_repetitions");
        assume((b[0] < 128) & (be_int(&b) >= 1));
        if n > 1 {
            assume((b[0] != 0) | (b[1] >= 128));
        }
        rep = be_int(&b);
    }
    let n = world().sent.len();
    let r = match op {
        OP_GET => c.sock.send_get(text(&oids[0].0)),
        OP_MANY => c.sock.send_get_many(&oids.iter().map(|x| text(&x.0)).collect::<Vec<_>>()),
        OP_NEXT => c.sock.send_get_next(&get_iter(text(&oids[0].0), None)),
        OP_BULK => c.sock.send_get_bulk(&get_iter(text(&oids[0].0), Some(rep))),
        _ => c.sock.send_refresh(),
    };
    check(r.is_ok(), "request is sent");
    check(world().sent.len() == n + 1, "one datagram");
    let d = last_sent();
    let sp;
    let p = if ver == 3 {
        let q = read_v3(d);
        check(q.ok, "well-formed message");
        if !q.ok {
            return;
        }
        check((q.msg_id >= 0) & (q.msg_id <= 0x7fff_ffff), "msgID");
        check((q.max_size >= 484) & (q.max_size <= 0x7fff_ffff), "msgMaxSize");
        check(q.flags & 0xf8 == 0 && q.flags & 3 == (c.u.auth != 0) as u8 | ((c.u.privacy != 0) as u8) << 1, "security flags");
        check(q.engine.len() == c.u.engine.len() && sxrt::eq(q.engine, &c.u.engine), "engine id");
        check((q.boots == clock.0) & (q.time == clock.1), "boots and time");
        check(q.user.len() == name.len() && sxrt::eq(q.user, &name), "user name");
        check(q.auth.len() == if c.u.auth != 0 { 12 } else { 0 }, "authentication parameters");
        check(q.salt.len() == if c.u.privacy != 0 { 8 } else { 0 }, "privacy parameters");
        check(q.data_tag == if c.u.privacy != 0 { 4 } else { 0x30 }, "kind of msgData");
        if c.u.privacy != 0 && (q.salt.len() != 8 || c.u.privacy == 1 && q.data.len() % 8 != 0) {
            return;
        }
        sp = open_scoped(&c.u, &q);
        let (ok, eid, cname, p, rest) = read_scoped(&sp);
        check(ok, "well-formed scoped PDU");
        check(rest == 0 || c.u.privacy == 1 && rest < 8 || c.u.privacy == 2 && rest < 16, "nothing after the scoped PDU");
        if !ok {
            return;
        }
        check(eid.len() == c.u.engine.len() && sxrt::eq(eid, &c.u.engine), "context engine id");
        check(cname.is_empty(), "context name");
        p
    } else {
        let q = read_community(d);
        check(q.ok, "well-formed message");
        if !q.ok {
            return;
        }
        check(q.version == ver as i64, "version");
        check(q.community.len() == name.len() && sxrt::eq(q.community, &name), "community");
        q
    };
    check(p.tag == [GET, GET, GETNEXT, GETBULK, GET][op as usize], "PDU type");
    check((p.reqid >= 0) & (p.reqid <= 0x7fff_ffff), "request-id");
    check(p.f1 == 0, "error-status / non-repeaters");
    check(p.f2 == rep, "error-index / max-repetitions");
    let want = match op {
        OP_MANY => oids.len(),
        OP_REFRESH => 0,
        _ => 1,
    };
    check(p.oids.len() == want, "number of OIDs");
    for (o, w) in p.oids.iter().zip(oids.iter()) {
        check(o.len() == w.1.len() && sxrt::eq(o, &w.1), "OIDs in their order");
    }
    reach(1);
}
