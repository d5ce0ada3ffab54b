//! C15: what the library encodes is minimal and decodes back to the same value
use super::common::*;
use crate::ber::*;
use crate::buf::Buffer;
use crate::snmp::get::SnmpGet;
use crate::snmp::getbulk::SnmpGetBulk;
use crate::snmp::msg::v3::{MsgData, ScopedPdu, SnmpV3Message, UsmParameters};
use crate::snmp::msg::{SnmpV1Message, SnmpV2cMessage};
use crate::snmp::pdu::SnmpPdu;

fn encode<T: BerEncoder>(x: &T) -> Vec<u8> {
    let mut b = Buffer::default();
    check(x.push_ber(&mut b).is_ok(), "encodes");
    check(sxrt::is_init(b.data()), "encoding exposes octets that were never written");
    b.data().to_vec()
}

/// Every 64-bit INTEGER
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_int() {
    let v = sxrt::i64("v");
    let e = encode(&SnmpInt::from(v));
    check(sxrt::eq(&e, &int(v)), "INTEGER: minimal two's complement form");
    match SnmpInt::from_ber(&e) {
        Ok((tail, d)) => {
            check(tail.is_empty(), "INTEGER: octets left over");
            check(i64::from(d) == v, "INTEGER: decoded value differs");
            reach(1);
        }
        Err(_) => fail("INTEGER: own encoding is refused"),
    }
}

#[unsafe(no_mangle)]
pub extern "C" fn h_c15_null() {
    let e = encode(&SnmpNull {});
    check(sxrt::eq(&e, &null()), "NULL: 05 00");
    match SnmpNull::from_ber(&e) {
        Ok((tail, _)) => {
            check(tail.is_empty(), "NULL: octets left over");
            reach(1)
        }
        Err(_) => fail("NULL: own encoding is refused"),
    }
}

/// OBJECT IDENTIFIER with `n` content octets, octets arbitrary
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_oid() {
    let n = sxrt::arg(0) as usize;
    let c = sym(n, "oid");
    let e = encode(&SnmpOid::from(c.clone()));
    check(sxrt::eq(&e, &tlv(6, &c)), "OID: tag, minimal length, content");
    match SnmpOid::from_ber(&e) {
        Ok((tail, d)) => {
            check(tail.is_empty(), "OID: octets left over");
            check(sxrt::eq(&d.0, &c), "OID: decoded value differs");
            reach(1);
        }
        Err(_) => fail("OID: own encoding is refused"),
    }
}

/// OBJECT IDENTIFIER from text: an arc of the given class of numbers below 2^32
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_oid_text() {
    let mut s: Vec<u8> = b"1.3.".to_vec();
    let (d, v) = digits_arg(0);
    let v = v as u32;
    s.extend_from_slice(&d);
    let txt = unsafe { std::str::from_utf8_unchecked(&s) };
    let o = match SnmpOid::try_from(txt) {
        Ok(o) => o,
        Err(_) => return fail("OID text: refused"),
    };
    let e = encode(&o);
    let mut c = vec![43u8];
    c.extend_from_slice(&arc32(v));
    check(sxrt::eq(&e, &tlv(6, &c)), "OID: minimal base-128 arcs");
    match SnmpOid::from_ber(&e) {
        Ok((tail, d)) => {
            check(tail.is_empty(), "OID: octets left over");
            check(sxrt::eq(&d.0, &o.0), "OID: decoded value differs");
            reach(1);
        }
        Err(_) => fail("OID: own encoding is refused"),
    }
}

/// OCTET STRING field of `n` octets
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_octets() {
    let n = sxrt::arg(0) as usize;
    let c = sym(n, "octets");
    let mut b = Buffer::default();
    check(b.push_tagged(TAG_OCTET_STRING, &c).is_ok(), "encodes");
    check(sxrt::eq(b.data(), &tlv(4, &c)), "OCTET STRING: tag, minimal length, content");
    match SnmpOctetString::from_ber(b.data()) {
        Ok((tail, d)) => {
            check(tail.is_empty(), "OCTET STRING: octets left over");
            check(sxrt::eq(d.0, &c), "OCTET STRING: decoded value differs");
            reach(1);
        }
        Err(_) => fail("OCTET STRING: own encoding is refused"),
    }
}
/// Tag and length of every size that fits
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_len() {
    let n = sxrt::u16("length") as usize;
    assume(n <= 4080);
    let mut b = Buffer::default();
    check(b.push_tag_len(0x30, n).is_ok(), "encodes");
    let w: Vec<u8> = if n < 128 {
        vec![0x30, n as u8]
    } else if n < 256 {
        vec![0x30, 0x81, n as u8]
    } else {
        vec![0x30, 0x82, (n >> 8) as u8, n as u8]
    };
    check(sxrt::eq(b.data(), &w), "length: minimal definite form");
    let hl = w.len();
    // decoded back, in front of that many octets
    let all = vec![0u8; 4080 + 4];
    let mut all = all;
    all[..hl].copy_from_slice(&w);
    match BerHeader::from_ber(&all) {
        Ok((tail, h)) => {
            check(h.length == n, "length: decoded value differs");
            check(tail.len() == all.len() - hl, "length: header extent differs");
            reach(hl as u64);
        }
        Err(_) => fail("length: own encoding is refused"),
    }
}

fn oids(n: usize, len: usize) -> Vec<Vec<u8>> {
    let mut v = Vec::new();
    for _ in 0..n {
        v.push(sym(len, "oid"));
    }
    v
}
/// kind: 0 GetRequest, 1 GetNextRequest, 2 GetBulkRequest
fn pdu<'a>(kind: u64, reqid: i64, f: (i64, i64), o: &[Vec<u8>]) -> SnmpPdu<'a> {
    let vars: Vec<SnmpOid> = o.iter().map(|x| SnmpOid::from(x.clone())).collect();
    match kind {
        0 => SnmpPdu::GetRequest(SnmpGet { request_id: reqid, vars }),
        1 => SnmpPdu::GetNextRequest(SnmpGet { request_id: reqid, vars }),
        _ => SnmpPdu::GetBulkRequest(SnmpGetBulk { request_id: reqid, non_repeaters: f.0, max_repetitions: f.1, vars }),
    }
}
fn same_vars(vars: &[SnmpOid], o: &[Vec<u8>]) {
    check(vars.len() == o.len(), "message: number of variables");
    for i in 0..o.len() {
        check(sxrt::eq(&vars[i].0, &o[i]), "message: variable differs");
    }
}
fn same_pdu(p: &SnmpPdu, kind: u64, reqid: i64, f: (i64, i64), o: &[Vec<u8>]) {
    match (kind, p) {
        (0, SnmpPdu::GetRequest(x)) | (1, SnmpPdu::GetNextRequest(x)) => {
            check(x.request_id == reqid, "message: request-id differs");
            same_vars(&x.vars, o);
            reach(1 + kind);
        }
        (2, SnmpPdu::GetBulkRequest(x)) => {
            check(x.request_id == reqid, "message: request-id differs");
            check(x.non_repeaters == f.0, "message: non-repeaters differ");
            check(x.max_repetitions == f.1, "message: max-repetitions differ");
            same_vars(&x.vars, o);
            reach(1 + kind);
        }
        _ => fail("message: PDU type differs"),
    }
}
fn small(v: i64) -> i64 {
    assume((v >= 0) & (v < 128));
    v
}
/// expected encoding of the PDU, written independently
fn pdu_ref(kind: u64, reqid: i64, f: (i64, i64), o: &[Vec<u8>]) -> Vec<u8> {
    let vars: Vec<Vec<u8>> = o.iter().map(|x| varbind(x, &null())).collect();
    let tag = [GET, GETNEXT, GETBULK][kind as usize];
    let (a, b) = if kind == 2 { f } else { (0, 0) };
    pdu_raw(tag, &int(reqid), a, b, &vars)
}

/// v1 / v2c message: arg 0 version, 1 PDU kind, 2 community length, 3 number of OIDs,
/// 4 OID length, 5 which integer ranges over all 64-bit values
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_msg() {
    let (ver, kind) = (sxrt::arg(0), sxrt::arg(1));
    let comm = sym(sxrt::arg(2) as usize, "community");
    let o = oids(sxrt::arg(3) as usize, sxrt::arg(4) as usize);
    let wide = sxrt::arg(5);
    let mut x = [sxrt::i64("reqid"), sxrt::i64("f1"), sxrt::i64("f2")];
    for i in 0..3 {
        if i as u64 != wide {
            x[i] = small(x[i]);
        }
    }
    let (reqid, f) = (x[0], (x[1], x[2]));
    let p = pdu(kind, reqid, f, &o);
    let want = community_msg(ver as i64, &comm, &pdu_ref(kind, reqid, f, &o));
    if ver == 0 {
        let e = encode(&SnmpV1Message { community: &comm, pdu: p });
        check(sxrt::eq(&e, &want), "message: minimal definite-length form");
        match SnmpV1Message::try_from(&e[..]) {
            Ok(m) => {
                check(sxrt::eq(m.community, &comm), "message: community differs");
                same_pdu(&m.pdu, kind, reqid, f, &o)
            }
            Err(_) => fail("message: own encoding is refused"),
        }
    } else {
        let e = encode(&SnmpV2cMessage { community: &comm, pdu: p });
        check(sxrt::eq(&e, &want), "message: minimal definite-length form");
        match SnmpV2cMessage::try_from(&e[..]) {
            Ok(m) => {
                check(sxrt::eq(m.community, &comm), "message: community differs");
                same_pdu(&m.pdu, kind, reqid, f, &o)
            }
            Err(_) => fail("message: own encoding is refused"),
        }
    }
}

/// v3 message: arg 0 PDU kind, 1 user length, 2 engine id length, 3 number of OIDs,
/// 4 OID length, 5 which integer is wide, 6 auth params length, 7 priv params length,
/// 8 encrypted data length (0: plaintext)
#[unsafe(no_mangle)]
pub extern "C" fn h_c15_v3() {
    let kind = sxrt::arg(0);
    let user = sym(sxrt::arg(1) as usize, "user");
    let engine = sym(sxrt::arg(2) as usize, "engine");
    let o = oids(sxrt::arg(3) as usize, sxrt::arg(4) as usize);
    let wide = sxrt::arg(5);
    let auth = sym(sxrt::arg(6) as usize, "auth");
    let salt = sym(sxrt::arg(7) as usize, "priv");
    let enc = sym(sxrt::arg(8) as usize, "data");
    let flags = sxrt::u8("flags");
    assume(flags < 8);
    let mut x = [sxrt::i64("reqid"), sxrt::i64("f1"), sxrt::i64("f2"), sxrt::i64("msgid"), sxrt::i64("boots"), sxrt::i64("time")];
    for i in 0..6 {
        if i as u64 != wide {
            x[i] = small(x[i]);
        }
    }
    let f = (x[1], x[2]);
    let data = if enc.is_empty() {
        MsgData::Plaintext(ScopedPdu { engine_id: &engine, pdu: pdu(kind, x[0], f, &o) })
    } else {
        MsgData::Encrypted(&enc)
    };
    let m = SnmpV3Message {
        msg_id: x[3],
        flag_auth: flags & 1 != 0,
        flag_priv: flags & 2 != 0,
        flag_report: flags & 4 != 0,
        usm: UsmParameters { engine_id: &engine, engine_boots: x[4], engine_time: x[5], user_name: &user, auth_params: &auth, privacy_params: &salt },
        data,
    };
    let e = encode(&m);
    // the maximum message size is the library's to choose
    let q = read_v3(&e);
    check(q.ok, "message: minimal definite-length form");
    let want = V3 {
        msg_id: int(x[3]),
        max_size: q.max_size,
        flags,
        engine: engine.clone(),
        boots: int(x[4]),
        time: int(x[5]),
        user: user.clone(),
        salt: salt.clone(),
        data: if enc.is_empty() { scoped(&engine, &pdu_ref(kind, x[0], f, &o)) } else { octets(&enc) },
    };
    check(sxrt::eq(&e, &v3_msg(&want, &auth).0), "message: minimal definite-length form");
    let d = match SnmpV3Message::try_from(&e[..]) {
        Ok(d) => d,
        Err(_) => return fail("message: own encoding is refused"),
    };
    check(d.msg_id == x[3], "message: msgID differs");
    check((d.flag_auth as u8 | (d.flag_priv as u8) << 1 | (d.flag_report as u8) << 2) == flags, "message: flags differ");
    check(sxrt::eq(d.usm.engine_id, &engine), "message: engine id differs");
    check(d.usm.engine_boots == x[4], "message: boots differ");
    check(d.usm.engine_time == x[5], "message: time differs");
    check(sxrt::eq(d.usm.user_name, &user), "message: user differs");
    check(sxrt::eq(d.usm.auth_params, &auth), "message: auth parameters differ");
    check(sxrt::eq(d.usm.privacy_params, &salt), "message: privacy parameters differ");
    match d.data {
        MsgData::Plaintext(s) => {
            check(enc.is_empty(), "message: data kind differs");
            check(sxrt::eq(s.engine_id, &engine), "message: context engine id differs");
            same_pdu(&s.pdu, kind, x[0], f, &o);
        }
        MsgData::Encrypted(b) => {
            check(!enc.is_empty(), "message: data kind differs");
            check(sxrt::eq(b, &enc), "message: data differs");
            reach(9);
        }
    }
}
