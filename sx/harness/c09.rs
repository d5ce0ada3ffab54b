//! C09: HMAC-96 of every emitted message.
use super::common::*;

/// Localized key the session has to use, from the key it is given. kind: 2 localized, 1 master
pub fn localized(auth: u8, kind: u64, key: &[u8], engine: &[u8]) -> Vec<u8> {
    if auth == 0 {
        return Vec::new();
    }
    if kind == 2 {
        return key.to_vec();
    }
    digest(auth, cat(&[key, engine, key]))
}
pub fn code(alg: u8, kind: u64) -> u8 {
    if alg == 0 { 0 } else { alg | (kind as u8) << 6 }
}
pub fn session(u: &Usm, kind: u64, key: &[u8], pkey: &[u8], timeout: u64) -> Sock {
    match SnmpV3ClientSocket::new(
        ADDR.to_string(),
        u.engine.clone(),
        unsafe { String::from_utf8_unchecked(u.user.clone()) },
        code(u.auth, kind),
        key,
        code(u.privacy, kind),
        pkey,
        0,
        0,
        0,
        timeout,
    ) {
        Ok(s) => Sock::V3(s),
        Err(_) => {
            fail("session could not be created");
            loop {}
        }
    }
}
pub fn judge(u: &Usm, d: &'static [u8]) {
    let q = read_v3(d);
    check(q.ok, "message is well-formed");
    check(q.engine.len() == u.engine.len() && sxrt::eq(q.engine, &u.engine), "engine id in the message");
    if u.auth == 0 {
        check(q.flags & 1 == 0, "no key: auth flag is clear");
        check(q.auth.is_empty(), "no key: field is empty");
        reach(1);
        return;
    }
    check(q.flags & 1 == 1, "auth flag is set");
    check(q.auth.len() == 12, "12 octets of authentication parameters");
    if q.auth.len() == 12 {
        let mut z = d.to_vec();
        for i in 0..12 {
            z[q.auth_off + i] = 0;
        }
        let mac = hmac96(u.auth, &u.auth_key, &z);
        check(sxrt::eq(q.auth, &mac), "authentication parameters are HMAC-96 of the whole message with the field zeroed");
        reach(2);
    }
}
/// msgID of the latest message takes 4 octets
fn wide() {
    let q = read_v3(last_sent());
    assume(q.ok);
    wide_ids(q.msg_id);
}
/// args: auth, privacy, operation, user size, engine size, key kind, OIDs, history
#[unsafe(no_mangle)]
pub extern "C" fn h_c09() {
    let (auth, privacy, op) = (sxrt::arg(0) as u8, sxrt::arg(1) as u8, sxrt::arg(2));
    let kind = sxrt::arg(5);
    let key = sym(key_len(auth), "key");
    let pkey = sym(if privacy != 0 { key_len(auth) } else { 0 }, "privacy key");
    let engine = sym(sxrt::arg(4) as usize, "engine");
    let user = sym(sxrt::arg(3) as usize, "user");
    let mut u = Usm { auth, privacy, auth_key: localized(auth, kind, &key, &engine), priv_key: Vec::new(), user, engine };
    if privacy != 0 {
        u.priv_key = localized(auth, kind, &pkey, &u.engine);
    }
    let hist = sxrt::arg(7);
    uf::laws_on_demand();
    let mut c = Ctx { sock: session(&u, kind, &key, &pkey, 0), ver: 3, u, op, it: None, reqid: 0, msg_id: 0 };
    match hist {
        1 => {
            // boots and time of any size
            c.op = OP_REFRESH;
            c.request();
            let (b, t) = if privacy == 0 {
                (1 + choose(4) as usize, 1 + choose(4) as usize)
            } else {
                [(1, 4), (3, 2), (4, 4)][choose(3) as usize]
            };
            let (bv, tv) = (sym(b, "boots"), sym(t, "time"));
            assume((bv[0] < 128) & (tv[0] < 128));
            if b > 1 {
                assume((bv[0] != 0) | (bv[1] >= 128));
            }
            if t > 1 {
                assume((tv[0] != 0) | (tv[1] >= 128));
            }
            let pdu = pdu_raw(REPORT, &c.reqid_tlv(), 0, 0, &[]);
            let m = v3_reply(&c.u, &int_n(c.msg_id, 4), (be_int(&bv), b), (be_int(&tv), t), &pdu, &[1, 2, 3, 4, 5, 6, 7, 8]);
            arrive(&m, 0);
            match c.recv() {
                Ok(_) => {}
                Err(_) => fail("Report is refused"),
            }
        }
        2 => {
            // another session of the process, a reply, a request that does not fit
            let mut o = open_v2("private", 0);
            let _ = o.send_get("1.3.6.1.2.1.1.5.0");
            let _ = ids_of(1, &c.u, last_sent());
            arrive(&cat(&[&[0x30, 38, 2, 1, 2], &sym(35, "junk")]), 0);
            let _ = o.recv_get();
            let big: Vec<&str> = vec!["1.3.6.1.4.1.2021.10.1.3.1.1.1.1.1.1.1.1.1.1.1.1"; 200];
            let r = o.send_get_many(&big);
            check(r.is_err(), "does not fit");
            let r = c.sock.send_get_many(&big);
            check(r.is_err(), "does not fit");
        }
        3 => {
            // key change
            let key = sym(key_len(auth), "second key");
            let pkey = sym(if privacy != 0 { key_len(auth) } else { 0 }, "second privacy key");
            let _ = c.sock.send_get("1.3.6.1.2.1.1.5.0");
            wide();
            let r = match &mut c.sock {
                Sock::V3(s) => s.set_keys("other".to_string(), code(auth, kind), &key, code(privacy, kind), &pkey),
                _ => Ok(()),
            };
            check(r.is_ok(), "set_keys");
            c.u.user = b"other".to_vec();
            c.u.auth_key = localized(auth, kind, &key, &c.u.engine);
        }
        4 => {
            // earlier requests of this session
            let _ = c.sock.send_get_many(&["1.3.6.1.2.1.1.5.0"; 12]);
            wide();
            judge(&c.u, last_sent());
            let _ = c.sock.recv_get();
            let _ = c.sock.send_refresh();
            wide();
            judge(&c.u, last_sent());
        }
        _ => {}
    }
    c.op = op;
    if op == OP_NEXT || op == OP_BULK {
        c.it = Some(get_iter(BASE, Some(10)));
    }
    let n = world().sent.len();
    let r = if op == OP_MANY { c.sock.send_get_many(&vec!["1.3.6.1.2.1.2.2.1.10.65535"; sxrt::arg(6) as usize]) } else { c.send() };
    check(r.is_ok(), "request is sent");
    check(world().sent.len() == n + 1, "one datagram");
    judge(&c.u, last_sent());
}
