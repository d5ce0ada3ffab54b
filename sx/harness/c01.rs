//! C01: the receiving call is total: it returns, skips or raises a documented exception.
//! Panics, aborts, accesses outside of the datagram and endless loops are found by the executor.
use super::common::*;

fn total(c: &mut Ctx) {
    match c.recv() {
        Ok(v) => {
            let _ = val(&v);
            reach(1);
        }
        Err(e) => {
            check(documented(&e), "exception is not a documented one");
            if is::<exceptions::PyBlockingIOError>(&e) {
                reach(3);
            } else {
                reach(2);
            }
        }
    }
}

/// args: version, security, operation, n: a datagram of n arbitrary octets
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_raw() {
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), sxrt::arg(2), 0);
    c.request();
    arrive(&sym(sxrt::arg(3) as usize, "datagram"), 0);
    total(&mut c);
}

/// args: version, security, operation, place, n: a reply to the request, n arbitrary octets
/// instead of: 0 the whole PDU, 1 PDU content, 2 content after request-id, 3 varbind list
/// content, 4 varbind content, 5 value
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_pdu() {
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), sxrt::arg(2), 0);
    c.request();
    let x = sym(sxrt::arg(4) as usize, "octets");
    let id = c.reqid_tlv();
    let oid: [u8; 8] = [43, 6, 1, 2, 1, 2, 1, 5];
    let pdu = match sxrt::arg(3) {
        0 => x,
        1 => tlv(RESPONSE, &x),
        2 => tlv(RESPONSE, &cat(&[&id, &x])),
        3 => tlv(RESPONSE, &cat(&[&id, &int(0), &int(0), &tlv(0x30, &x)])),
        4 => pdu_raw(RESPONSE, &id, 0, 0, &[tlv(0x30, &x)]),
        5 => pdu_raw(RESPONSE, &id, 0, 0, &[varbind(&oid, &x)]),
        6 => pdu_raw(RESPONSE, &id, 0, 0, &[varbind(&oid, &int(7)), tlv(0x30, &x)]),
        7 => tlv(REPORT, &cat(&[&id, &x])),
        // OID of a varbind
        8 => pdu_raw(RESPONSE, &id, 0, 0, &[seq(&[&tlv(6, &x), &int(5)])]),
        // relative OID after an absolute one
        9 => pdu_raw(RESPONSE, &id, 0, 0, &[varbind(&oid, &int(7)), seq(&[&tlv(13, &x), &int(5)])]),
        // both arbitrary
        10 => pdu_raw(RESPONSE, &id, 0, 0, &[varbind(&x, &int(7)), seq(&[&tlv(13, &sym(sxrt::arg(5) as usize, "relative")), &int(5)])]),
        // value is an OID
        11 => pdu_raw(RESPONSE, &id, 0, 0, &[varbind(&oid, &tlv(6, &x))]),
        // REAL
        12 => {
            if sxrt::arg(5) == 1 {
                assume(x[0] & 0xc0 != 0);
            }
            pdu_raw(RESPONSE, &id, 0, 0, &[varbind(&oid, &tlv(9, &x))])
        }
        // value of any primitive tag with n octets of content
        _ => {
            let t = sxrt::u8("tag");
            if sxrt::arg(5) == 1 {
                // decimal REAL is for smaller sizes
                assume((t & 0x1f != 9) | (x[0] & 0xc0 != 0));
            }
            let mut v = tlv(0, &x);
            v[0] = t;
            pdu_raw(RESPONSE, &id, 0, 0, &[varbind(&oid, &v)])
        }
    };
    arrive(&c.wrap(&pdu), 0);
    total(&mut c);
}

/// args: security, operation, place, n: v3 message, n arbitrary octets instead of:
/// 0 all after the version, 1 global header content, 2 security parameters content, 3 USM sequence
/// content, 4 msgData, 5 scoped PDU content (in clear), 6 octets after the context engine id
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_v3() {
    let mut c = Ctx::open(3, sxrt::arg(0), sxrt::arg(1), 0);
    c.request();
    let x = sym(sxrt::arg(3) as usize, "octets");
    let id = int_n(c.msg_id, 4);
    let flags = (c.u.auth != 0) as u8 | ((c.u.privacy != 0) as u8) << 1;
    let global = seq(&[&id, &int(65507), &octets(&[flags]), &int(3)]);
    let auth = vec![0u8; if c.u.auth != 0 { 12 } else { 0 }];
    let salt = vec![0u8; if c.u.privacy != 0 { 8 } else { 0 }];
    let eng = octets(&c.u.engine);
    let usm = octets(&seq(&[&eng, &int(7), &int(700), &octets(&c.u.user), &octets(&auth), &octets(&salt)]));
    let pdu = pdu_raw(RESPONSE, &c.reqid_tlv(), 0, 0, &[]);
    let sp = scoped(&c.u.engine, &pdu);
    let m = match sxrt::arg(2) {
        0 => seq(&[&int(3), &x]),
        1 => seq(&[&int(3), &tlv(0x30, &x), &usm, &sp]),
        2 => seq(&[&int(3), &global, &octets(&x), &sp]),
        3 => seq(&[&int(3), &global, &octets(&seq(&[&x])), &sp]),
        4 => seq(&[&int(3), &global, &usm, &x]),
        5 => seq(&[&int(3), &global, &usm, &tlv(0x30, &x)]),
        6 => seq(&[&int(3), &global, &usm, &seq(&[&eng, &x])]),
        7 => seq(&[&int(3), &x, &usm, &sp]),
        // user name and the fields that follow it
        8 => seq(&[&int(3), &global, &octets(&seq(&[&eng, &int(7), &int(700), &x])), &sp]),
        9 => seq(&[&int(3), &global, &octets(&seq(&[&eng, &x, &octets(&c.u.user), &octets(&auth), &octets(&salt)])), &sp]),
        // clear scoped PDU, any flags
        _ => {
            let g = seq(&[&id, &int(65507), &octets(&[sxrt::u8("flags")]), &int(3)]);
            seq(&[&int(3), &g, &usm, &sp])
        }
    };
    arrive(&m, 0);
    total(&mut c);
}

/// args: security, operation, n, size of privacy parameters, size of authentication parameters, flags:
/// encrypted data and parameters are arbitrary
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_enc() {
    let mut c = Ctx::open(3, sxrt::arg(0), sxrt::arg(1), 0);
    c.request();
    let x = sym(sxrt::arg(2) as usize, "ciphertext");
    let salt = sym(sxrt::arg(3) as usize, "priv_params");
    let auth = sym(sxrt::arg(4) as usize, "auth_params");
    let m = V3 {
        msg_id: int_n(c.msg_id, 4),
        max_size: 65507,
        flags: sxrt::arg(5) as u8,
        engine: c.u.engine.clone(),
        boots: int_n(sxrt::i64("boots"), 8),
        time: int_n(sxrt::i64("time"), 8),
        user: c.u.user.clone(),
        salt,
        data: octets(&x),
    };
    let d = if sxrt::arg(4) == 12 && sxrt::arg(6) == 1 { sign(&c.u, &m) } else { v3_msg(&m, &auth).0 };
    arrive(&d, 0);
    total(&mut c);
}

/// Engine discovery: the session does not know the engine id yet.
/// args: size of the engine id in the report, n octets of its PDU, 1: report
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_discovery() {
    let u = Usm { engine: Vec::new(), user: Vec::new(), ..no_usm() };
    let sock = u.open(0);
    let mut c = Ctx { sock, ver: 3, u, op: OP_REFRESH, it: None, reqid: 0, msg_id: 0 };
    c.request();
    let eng = sym(sxrt::arg(0) as usize, "engine");
    let x = sym(sxrt::arg(1) as usize, "octets");
    let pdu = tlv(if sxrt::arg(2) == 1 { REPORT } else { RESPONSE }, &cat(&[&c.reqid_tlv(), &x]));
    let m = V3 {
        msg_id: int_n(c.msg_id, 4),
        max_size: 65507,
        flags: 0,
        engine: eng.clone(),
        boots: int_n(sxrt::i64("boots"), 8),
        time: int_n(sxrt::i64("time"), 8),
        user: Vec::new(),
        salt: Vec::new(),
        data: scoped(&eng, &pdu),
    };
    arrive(&v3_msg(&m, &[]).0, 0);
    total(&mut c);
    // whatever was learned, the next step of the client is total, too
    let keys = sym(16, "key");
    let r = match &mut c.sock {
        Sock::V3(s) => s.set_keys("user".to_string(), 0x81, &keys, 0x82, &keys),
        _ => Ok(()),
    };
    match r {
        Ok(_) => {}
        Err(e) => check(documented(&e), "set_keys: exception is not a documented one"),
    }
    match c.sock.send_get("1.3.6.1") {
        Ok(_) => reach(9),
        Err(e) => check(documented(&e), "send: exception is not a documented one"),
    }
}

/// args: version, operation, size: a datagram larger than the buffer, well-formed up to its end
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_big() {
    let mut c = Ctx::open(sxrt::arg(0), 0, sxrt::arg(1), 0);
    c.request();
    let v = vec![0x41u8; sxrt::arg(2) as usize];
    let oid: [u8; 8] = [43, 6, 1, 2, 1, 2, 1, 5];
    let m = c.response(&[varbind(&oid, &octets(&v))]);
    arrive(&m, 0);
    total(&mut c);
}

/// args: version, security, operation, n, m: datagrams one after another in one call,
/// then the operation is repeated: state left behind by skipped and refused ones
#[unsafe(no_mangle)]
pub extern "C" fn h_c01_seq() {
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), sxrt::arg(2), 0);
    c.request();
    let pdu = |c: &Ctx, id: Vec<u8>, n: usize| {
        let x = sym(n, "octets");
        c.wrap(&tlv(RESPONSE, &cat(&[&id, &int(0), &int(0), &tlv(0x30, &x)])))
    };
    let wrong = int_n(sxrt::u32("other id") as i64 | 0x800000 & 0x7fffffff, 4);
    let m1 = pdu(&c, wrong, sxrt::arg(3) as usize);
    arrive(&m1, 0);
    let id = c.reqid_tlv();
    let m2 = pdu(&c, id, sxrt::arg(4) as usize);
    arrive(&m2, 0);
    total(&mut c);
    total(&mut c);
    total(&mut c);
}
