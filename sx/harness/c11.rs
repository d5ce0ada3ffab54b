//! C11: msgData of requests and responses under privacy.
use super::c09::{code, localized, session};
use super::common::*;

const OIDS: [(&str, [u8; 11]); 2] = [("1.3.6.1.2.1.2.2.10.65535", [43, 6, 1, 2, 1, 2, 2, 10, 0x83, 0xff, 0x7f]), ("1.3.6.1.2.1.2.1.0", [43, 6, 1, 2, 1, 2, 1, 0, 0, 0, 0])];

pub struct Cfg {
    pub kind: u64,
    pub c: Ctx,
}
/// args 0..: auth, privacy, operation, key kind, engine id size
pub fn setup() -> Cfg {
    let (auth, privacy, op, kind) = (sxrt::arg(0) as u8, sxrt::arg(1) as u8, sxrt::arg(2), sxrt::arg(3));
    uf::laws_on_demand();
    let key = sym(key_len(auth), "key");
    let pkey = sym(key_len(auth), "privacy key");
    let engine = sym(sxrt::arg(4) as usize, "engine");
    let u = Usm { auth, privacy, auth_key: localized(auth, kind, &key, &engine), priv_key: localized(auth, kind, &pkey, &engine), user: b"user".to_vec(), engine };
    let sock = session(&u, kind, &key, &pkey, 0);
    Cfg { kind, c: Ctx { sock, ver: 3, u, op, it: None, reqid: 0, msg_id: 0 } }
}
fn bad_payload(c: &Ctx, data: &[u8], salt: &[u8]) -> Vec<u8> {
    let m = V3 { msg_id: int_n(c.msg_id, 4), max_size: 65507, flags: 3, engine: c.u.engine.clone(), boots: int(7), time: int_n(700, 2), user: c.u.user.clone(), salt: salt.to_vec(), data: octets(data) };
    sign(&c.u, &m)
}
/// What happened before. The session's clock afterwards: (boots, time), if it was set
pub fn history(g: &mut Cfg, h: u64) -> Option<(i64, i64)> {
    let op = g.c.op;
    let c = &mut g.c;
    let r = match h {
        1 => {
            c.op = OP_REFRESH;
            c.request();
            let (b, t) = (sym(4, "boots"), sym(4, "time"));
            assume((b[0] < 128) & (t[0] < 128) & ((b[0] != 0) | (b[1] >= 128)) & ((t[0] != 0) | (t[1] >= 128)));
            let (bv, tv) = (be_int(&b), be_int(&t));
            let pdu = pdu_raw(REPORT, &c.reqid_tlv(), 0, 0, &[]);
            let m = v3_reply(&c.u, &int_n(c.msg_id, 4), (bv, 4), (tv, 4), &pdu, &sym(8, "salt"));
            arrive(&m, 0);
            check(c.recv().is_ok(), "Report is accepted");
            Some((bv, tv))
        }
        2 => {
            // a longer request and a longer reply
            let r = c.sock.send_get_many(&["1.3.6.1.2.1.1.5.0"; 12]);
            check(r.is_ok(), "request is sent");
            c.learn();
            let x = sym(150, "earlier value");
            let m = c.response(&[varbind(&BASE_BER, &octets(&x))]);
            arrive(&m, 0);
            check(c.sock.recv_get_many().is_ok(), "reply is delivered");
            Some((7, 700))
        }
        3 => {
            // nothing usable comes back
            c.op = OP_GET;
            c.request();
            let m = bad_payload(c, &sym(21, "junk"), &[1, 2, 3, 4, 5, 6, 7, 8]);
            let n = bad_payload(c, &sym(24, "junk"), &[1, 2, 3, 4, 5, 6, 7]);
            if c.u.privacy == 1 {
                arrive(&m, 0);
            }
            arrive(&n, 0);
            match c.recv() {
                Ok(_) => fail("junk is delivered"),
                Err(e) => check(is::<exceptions::PyBlockingIOError>(&e), "junk is skipped"),
            }
            None
        }
        4 => {
            let big: Vec<&str> = vec!["1.3.6.1.4.1.2021.10.1.3.1.1.1.1.1.1.1.1.1.1.1.1"; 200];
            check(c.sock.send_get_many(&big).is_err(), "does not fit");
            None
        }
        5 => {
            c.op = OP_REFRESH;
            c.request();
            None
        }
        6 => {
            let (auth, privacy) = (c.u.auth, c.u.privacy);
            let key = sym(key_len(auth), "second key");
            let pkey = sym(key_len(auth), "second privacy key");
            let r = match &mut c.sock {
                Sock::V3(s) => s.set_keys("other".to_string(), code(auth, g.kind), &key, code(privacy, g.kind), &pkey),
                _ => Ok(()),
            };
            check(r.is_ok(), "set_keys");
            c.u.user = b"other".to_vec();
            c.u.auth_key = localized(auth, g.kind, &key, &c.u.engine);
            c.u.priv_key = localized(auth, g.kind, &pkey, &c.u.engine);
            None
        }
        7 => {
            // another session
            let mut o = Ctx::open(3, (c.u.auth * 10 + c.u.privacy) as u64, OP_GET, 0);
            o.request();
            let m = o.response(&[varbind(&BASE_BER, &octets(&[0x55; 40]))]);
            arrive(&m, 0);
            check(o.recv().is_ok(), "reply is delivered");
            None
        }
        _ => None,
    };
    g.c.op = op;
    r
}
/// args: auth, privacy, operation, key kind, engine id size, history, OIDs
#[unsafe(no_mangle)]
pub extern "C" fn h_c11_request() {
    let mut g = setup();
    let clock = history(&mut g, sxrt::arg(5));
    let c = &mut g.c;
    let k = sxrt::arg(6) as usize;
    if c.op == OP_NEXT || c.op == OP_BULK {
        c.it = Some(get_iter(OIDS[0].0, Some(10)));
    }
    let sent = world().sent.len();
    let r = match c.op {
        OP_GET => c.sock.send_get(OIDS[0].0),
        OP_MANY => c.sock.send_get_many(&(0..k).map(|i| OIDS[i % 2].0).collect::<Vec<_>>()),
        _ => c.send(),
    };
    check(r.is_ok() && world().sent.len() == sent + 1, "request is sent");
    let q = read_v3(last_sent());
    check(q.ok, "message is well-formed");
    check(q.flags & 2 == 2, "priv flag");
    check(q.data_tag == 4, "msgData is an OCTET STRING");
    check(q.salt.len() == 8, "8 octets of salt");
    let block = if c.u.privacy == 1 { 8 } else { 16 };
    if !q.ok || q.salt.len() != 8 {
        return;
    }
    if let Some((b, t)) = clock {
        check((q.boots == b) & (q.time == t), "boots and time");
    }
    if c.u.privacy == 1 {
        check(q.data.len() % 8 == 0, "whole blocks");
        if q.data.len() % 8 != 0 {
            return;
        }
    }
    let sp = open_scoped(&c.u, &q);
    let (ok, eid, name, p, rest) = read_scoped(&sp);
    check(ok, "msgData decrypts to a scoped PDU");
    check(rest < block, "less than a block of padding");
    if !ok {
        return;
    }
    check(eid.len() == c.u.engine.len() && sxrt::eq(eid, &c.u.engine), "context engine id");
    check(name.is_empty(), "context name");
    check(p.tag == [GET, GET, GETNEXT, GETBULK, GET][c.op as usize], "PDU type");
    check((p.reqid >= 0) & (p.reqid <= 0x7fff_ffff), "request-id");
    check((p.f1 == 0) & (p.f2 == if c.op == OP_BULK { 10 } else { 0 }), "numbers of the PDU");
    let want = match c.op {
        OP_MANY => k,
        OP_REFRESH => 0,
        _ => 1,
    };
    check(p.oids.len() == want, "number of OIDs");
    for (i, o) in p.oids.iter().enumerate() {
        let w = &OIDS[i % 2].1[..if i % 2 == 0 { 11 } else { 8 }];
        check(o.len() == w.len() && sxrt::eq(o, w), "OIDs");
    }
    reach(1);
}
/// args: auth, privacy, operation, key kind, engine id size, history, size of the value, padding
#[unsafe(no_mangle)]
pub extern "C" fn h_c11_reply() {
    let mut g = setup();
    history(&mut g, sxrt::arg(5));
    let c = &mut g.c;
    let n = sxrt::arg(6) as usize;
    if c.op == OP_NEXT || c.op == OP_BULK {
        c.it = Some(get_iter(BASE, Some(10)));
    }
    c.request();
    let x = sym(n, "value");
    let oid = cat(&[&BASE_BER, &[9, 0x83, 0x7f]]);
    let pdu = pdu_raw(RESPONSE, &c.reqid_tlv(), 0, 0, &[varbind(&oid, &octets(&x))]);
    let mut sp = scoped(&c.u.engine, &pdu);
    // padding is arbitrary
    let block = if c.u.privacy == 1 { 8 } else { 16 };
    let pad = if c.u.privacy == 1 { (8 - sp.len() % 8) % 8 } else { sxrt::arg(7) as usize % block };
    sp.extend_from_slice(&sym(pad, "padding"));
    let salt = sym(8, "salt");
    // each size of these is a form of its own; C13 is about that
    let (b, t) = (sym(4, "boots"), sym(4, "time"));
    assume((b[0] < 128) & (t[0] < 128) & ((b[0] != 0) | (b[1] >= 128)) & ((t[0] != 0) | (t[1] >= 128)));
    let m = v3_reply_scoped(&c.u, &int_n(c.msg_id, 4), (be_int(&b), 4), (be_int(&t), 4), &sp, &salt);
    arrive(&m, 0);
    match c.recv() {
        Ok(r) => {
            let v = val(&r);
            let (name, v) = match (c.op, v) {
                (OP_MANY, Val::Dict(d)) if d.borrow().len() == 1 => d.borrow()[0],
                (OP_NEXT, Val::Tuple(t)) if t.len() == 2 => (t[0], t[1]),
                (OP_BULK, Val::List(l)) if l.borrow().len() == 1 => match l.borrow()[0] {
                    Val::Tuple(t) if t.len() == 2 => (t[0], t[1]),
                    _ => (Val::None, Val::None),
                },
                (_, v) => (Val::Str("1.3.6.1.2.1.2.9.511"), v),
            };
            check(is_str(&name, b"1.3.6.1.2.1.2.9.511"), "name");
            check(is_bytes(&v, &x), "value is the one the agent encrypted");
            reach(1);
        }
        Err(_) => fail("reply is refused"),
    }
}
