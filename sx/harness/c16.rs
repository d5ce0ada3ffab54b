//! C16: decoding an element reads exactly the octets its header declares
use super::common::*;
use crate::ber::*;
use crate::snmp::msg::{SnmpV1Message, SnmpV2cMessage};
use crate::snmp::msg::v3::SnmpV3Message;
use crate::snmp::value::SnmpValue;

const O1: [u8; 8] = [43, 6, 1, 2, 1, 2, 1, 0];
const O2: [u8; 8] = [43, 6, 1, 2, 1, 2, 2, 0];

fn same_opt(a: Option<Val>, b: Option<Val>) -> bool {
    match (a, b) {
        (None, None) => true,
        (Some(x), Some(y)) => same(&x, &y),
        _ => false,
    }
}

/// Size of the element at the head of `b`: definite form, any number of length octets.
/// None: runs past the end, or is not an element at all.
fn extent(b: &[u8]) -> Option<usize> {
    if b.is_empty() {
        return None;
    }
    let mut p = 1;
    if b[0] & 0x1f == 0x1f {
        while p < b.len() && b[p] & 0x80 != 0 {
            p += 1;
        }
        p += 1;
    }
    if p >= b.len() {
        return None;
    }
    let l0 = b[p];
    p += 1;
    let n = if l0 < 0x80 {
        l0 as usize
    } else {
        let k = (l0 & 0x7f) as usize;
        if k > b.len() - p {
            return None;
        }
        let mut v: usize = 0;
        for i in 0..k {
            if v > 0xff_ffff {
                return None;
            }
            v = (v << 8) | b[p + i] as usize;
        }
        p += k;
        v
    };
    if n > b.len() - p {
        return None;
    }
    Some(p + n)
}

/// A varbind's value does not depend on what follows the varbind.
/// args: version, security, n: value of n arbitrary octets (any header), m: octets that follow,
/// kind: 0 a well-formed varbind with an INTEGER of m octets, 1 m arbitrary octets
/// 2 as 0 but the value is a decimal REAL, 3 binary REAL
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_follow() {
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), OP_MANY, 0);
    c.request();
    let n = sxrt::arg(2) as usize;
    let kind = sxrt::arg(4);
    let x = match kind {
        2 | 3 => {
            let x = sym(n - 2, "real");
            if n > 2 {
                assume((x[0] & 0x80 != 0) == (kind == 3));
            }
            tlv(9, &x)
        }
        4 => {
            // one of the string types, with a long-form length of any size
            let x = sym(n, "octets");
            let mut v = tlv_long(4, &x, 1 + choose(9) as usize);
            v[0] = [4u8, 7, 0x44][choose(3) as usize];
            v
        }
        _ => sym(n, "value"),
    };
    let m = c.response(&[varbind(&O1, &x)]);
    arrive(&m, 0);
    let r1 = c.recv();
    c.request();
    let s = if kind != 1 { varbind(&O2, &tlv(2, &sym(sxrt::arg(3) as usize, "next"))) } else { sym(sxrt::arg(3) as usize, "next") };
    let m = c.response(&[varbind(&O1, &x), s.clone()]);
    arrive(&m, 0);
    let r2 = c.recv();
    let fits = extent(&x).is_some();
    match (r1, r2) {
        (Ok(a), Ok(b)) => {
            check(fits, "value runs past its varbind and is accepted");
            let (a, b) = (val(&a), val(&b));
            let k1 = get(&a, "1.3.6.1.2.1.2.1.0");
            check(same_opt(k1, get(&b, "1.3.6.1.2.1.2.1.0")), "value depends on the octets that follow");
            if k1.is_some() {
                reach(1);
            }
            if kind != 1 {
                check(matches!(get(&b, "1.3.6.1.2.1.2.2.0"), Some(v) if is_int(&v, be_int(&s[s.len() - sxrt::arg(3) as usize..]))), "octets after an element are not read as the next one");
            }
        }
        (Ok(_), Err(_)) => {
            check(fits, "value runs past its varbind and is accepted");
            check(kind == 1, "value is refused when a varbind follows");
        }
        (Err(_), Ok(_)) => {
            fail("value is accepted only when octets follow");
        }
        (Err(_), Err(_)) => {
            reach(2);
        }
    }
}

/// args: operation, n, m: the same for the value of get, getnext, getbulk (single reply)
/// Any value type in the typed decoders: from_ber(x || s) == (s, from_ber(x))
/// args: decoder, n, m
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_element() {
    let n = sxrt::arg(1) as usize;
    let x = sym(n, "element");
    if sxrt::arg(3) == 1 {
        // decimal REAL is for smaller sizes
        assume((x[0] & 0x1f != 9) | (x[2] & 0xc0 != 0));
    }
    let s = sym(sxrt::arg(2) as usize, "following");
    let y = cat(&[&x, &s]);
    let e = extent(&x);
    macro_rules! run {
        ($t:ty, $a:ident, $b:ident => $same:expr) => {{
            let a = <$t>::from_ber(&x);
            let b = <$t>::from_ber(&y);
            match (&a, &b) {
                (Ok((ta, $a)), Ok((tb, $b))) => {
                    let used = n - ta.len();
                    match e {
                        Some(k) => check(used == k, "extent is not the declared one"),
                        None => fail("element runs past the input and is accepted"),
                    }
                    check(tb.len() == y.len() - used, "rest depends on the octets that follow");
                    check(tb.as_ptr() as usize == y.as_ptr() as usize + used, "rest is not what follows the element");
                    check($same, "value depends on the octets that follow");
                    reach(1);
                }
                (Ok(_), Err(_)) => fail("element is refused when octets follow"),
                (Err(_), Ok((tb, _))) => {
                    // completed by the following octets: must be longer than x alone
                    check(y.len() - tb.len() > n, "element is accepted only when octets follow");
                    reach(2);
                }
                _ => reach(3),
            }
            std::mem::forget(a);
            std::mem::forget(b);
        }};
    }
    match sxrt::arg(0) {
        0 => {
            // the header alone: rest starts with the content
            let (a, b) = (BerHeader::from_ber(&x), BerHeader::from_ber(&y));
            match (&a, &b) {
                (Ok((ta, ha)), Ok((tb, hb))) => {
                    check((ha.tag == hb.tag) & (ha.length == hb.length) & (ha.constructed == hb.constructed), "header depends on the octets that follow");
                    check(ta.len() + (y.len() - n) == tb.len(), "rest depends on the octets that follow");
                    match e {
                        Some(k) => check(k + ta.len() == n + ha.length, "extent is not the declared one"),
                        None => fail("element runs past the input and is accepted"),
                    }
                    reach(1);
                }
                (Ok(_), Err(_)) => fail("element is refused when octets follow"),
                (Err(_), Ok((tb, hb))) => check(y.len() - tb.len() + hb.length > n, "element is accepted only when octets follow"),
                _ => reach(3),
            }
            std::mem::forget(a);
            std::mem::forget(b);
        }
        1 => run!(SnmpValue, a, b => same_value(a, b)),
        2 => run!(SnmpInt, a, b => i64::from(SnmpInt::from(i64::from(clone_int(a)))) == i64::from(clone_int(b))),
        3 => run!(SnmpOid, a, b => sxrt::eq(&a.0, &b.0)),
        4 => run!(SnmpOctetString, a, b => sxrt::eq(a.0, b.0)),
        5 => run!(SnmpNull, _a, _b => true),
        6 => run!(SnmpSequence, a, b => sxrt::eq(a.0, b.0)),
        _ => run!(SnmpRelativeOid, _a, _b => true),
    }
}
fn clone_int(x: &SnmpInt) -> SnmpInt {
    // bitwise copy of a plain number
    unsafe { std::ptr::read(x) }
}
fn same_value(a: &SnmpValue, b: &SnmpValue) -> bool {
    let conv = |x: &SnmpValue| -> Option<Val> {
        let v: SnmpValue = unsafe { std::ptr::read(x) };
        match v {
            // no Python value
            SnmpValue::NoSuchObject | SnmpValue::NoSuchInstance | SnmpValue::EndOfMibView => None,
            v => v.into_pyobject(py()).ok().map(|o| o.val()),
        }
    };
    std::mem::discriminant(a) == std::mem::discriminant(b) && same_opt(conv(a), conv(b))
}

/// Octets after the top-level message.
/// args: version, security, op, m, n: what the message carries: n arbitrary octets as a value
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_trailing() {
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), sxrt::arg(2), 0);
    c.request();
    let x = sym(sxrt::arg(4) as usize, "value");
    let mut m = if c.op == OP_REFRESH { c.wrap(&pdu_raw(REPORT, &c.reqid_tlv(), 0, 0, &[])) } else { c.response(&[varbind(&O1, &tlv(4, &x))]) };
    m.extend_from_slice(&sym(sxrt::arg(3) as usize, "trailing"));
    arrive(&m, 0);
    refused(&mut c);
}
/// The datagram must not be delivered in any way
fn refused(c: &mut Ctx) {
    match c.recv() {
        Ok(_) => fail("delivered"),
        Err(e) => {
            check(!(is::<exceptions::PyStopIteration>(&e) | is::<exceptions::PyStopAsyncIteration>(&e)), "taken for the end of the walk");
            check(!is::<crate::error::PyNoSuchInstance>(&e), "taken for an answer");
            reach(2);
        }
    }
}
/// Decoders of whole messages: args: version, message: 0 get reply, 1 request, m
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_message() {
    let ver = sxrt::arg(0);
    let id = int_n(sxrt::u32("id") as i64 & 0x7fffffff | 0x800000, 4);
    let val = sym(3, "value");
    let pdu = match sxrt::arg(1) {
        0 => pdu_raw(RESPONSE, &id, 0, 0, &[varbind(&O1, &tlv(2, &val))]),
        1 => pdu_raw(GET, &id, 0, 0, &[varbind(&O1, &null()), varbind(&O2, &null())]),
        2 => pdu_raw(GETNEXT, &id, 0, 0, &[varbind(&O1, &null())]),
        3 => pdu_raw(GETBULK, &id, 0, 10, &[varbind(&O1, &null())]),
        _ => pdu_raw(REPORT, &id, 0, 0, &[varbind(&O1, &tlv(0x41, &val))]),
    };
    let mut m = if ver == 3 {
        let mut u = no_usm();
        u.engine = ENGINE.to_vec();
        v3_reply(&u, &id, (7, 1), (700, 2), &pdu, &[])
    } else {
        community_msg(ver as i64, COMMUNITY.as_bytes(), &pdu)
    };
    let n = m.len();
    m.extend_from_slice(&sym(sxrt::arg(2) as usize, "trailing"));
    let d = leak(&m);
    let (alone, more) = match ver {
        0 => (SnmpV1Message::try_from(&d[..n]).is_ok(), SnmpV1Message::try_from(d).is_ok()),
        1 => (SnmpV2cMessage::try_from(&d[..n]).is_ok(), SnmpV2cMessage::try_from(d).is_ok()),
        _ => (SnmpV3Message::try_from(&d[..n]).is_ok(), SnmpV3Message::try_from(d).is_ok()),
    };
    check(alone, "message is refused");
    check(!more, "octets after the message are ignored");
    reach(1);
}

// ---- inner lengths ---------------------------------------------------------------------

/// Declared length: anything beyond the enclosing element
fn tamper(d: &mut [u8], form: usize, len: usize, content: usize, end: usize) {
    let room = (end - content) as u64;
    if form == 0 {
        let l = sxrt::u8("length");
        assume((l as u64 > room) & (l < 0x80));
        d[len] = l;
    } else {
        // one more octet has been written by tlv_long: initial octet, then `form` octets
        let l = sym(form, "length");
        let mut v: u64 = 0;
        let mut big = false;
        for i in 0..form {
            big |= v > 0xff_ffff_ffff;
            v = (v << 8) | l[i] as u64;
            d[len + 1 + i] = l[i];
        }
        assume((v > room) | big);
    }
}
fn pdu_node(c: &Ctx, tag: u8, val: &[u8], kind: usize) -> Node {
    let id = &c.reqid_tlv()[2..];
    let t: u8 = [4u8, 2, 6, 9, 0x40, 0x41, 0x42, 0x43, 0x44, 0x46, 0x47, 7, 1, 5][kind];
    let body: &[u8] = match t {
        4 | 0x44 | 7 => val,
        9 => &[0x80, 1, 5],
        6 => &[43, 6, 1],
        0x40 => &[10, 0, 0, 1],
        1 => &[1],
        5 => &[],
        _ => &val[..1],
    };
    node(tag, vec![leaf(2, id), leaf(2, &[0]), leaf(2, &[0]), node(0x30, vec![vb_node(&O1, leaf(t, body)), vb_node(&O2, leaf(t, body))])])
}

/// args: version, security, op, element, form (length octets after the initial one), type of the values
#[unsafe(no_mangle)]
pub extern "C" fn h_c16_length() {
    let ver = sxrt::arg(0);
    let mut c = Ctx::open(ver, sxrt::arg(1), sxrt::arg(2), 0);
    c.request();
    let (at, form, kind) = (sxrt::arg(3) as usize, sxrt::arg(4) as usize, sxrt::arg(5) as usize);
    let v = sym(4, "value");
    let tag = if c.op == OP_REFRESH { REPORT } else { RESPONSE };
    let p = pdu_node(&c, tag, &v, kind);
    if ver != 3 {
        let t = node(0x30, vec![leaf(2, &[ver as u8]), leaf(4, COMMUNITY.as_bytes()), p]);
        let (mut d, l, cont, end) = build(&t, at, form);
        assume(l != usize::MAX);
        tamper(&mut d, form, l, cont, end);
        arrive(&d, 0);
    } else {
        let scoped = node(0x30, vec![leaf(4, &c.u.engine), leaf(4, &[]), p]);
        let salt = [1u8, 2, 3, 4, 5, 6, 7, 8];
        if c.u.privacy != 0 {
            // inside the encrypted part
            let (mut d, l, cont, end) = build(&scoped, at, form);
            assume(l != usize::MAX);
            tamper(&mut d, form, l, cont, end);
            arrive(&v3_reply_scoped(&c.u, &int_n(c.msg_id, 4), (7, 1), (700, 2), &d, &salt), 0);
        } else {
            let flags = (c.u.auth != 0) as u8;
            let global = node(0x30, vec![leaf(2, &int_n(c.msg_id, 4)[2..]), leaf(2, &[0, 255, 227]), leaf(4, &[flags]), leaf(2, &[3])]);
            let usm = node(4, vec![node(0x30, vec![leaf(4, &c.u.engine), leaf(2, &[7]), leaf(2, &[2, 188]), leaf(4, &c.u.user), leaf(4, &vec![0u8; if c.u.auth != 0 { 12 } else { 0 }]), leaf(4, &[])])]);
            let t = node(0x30, vec![leaf(2, &[3]), global, usm, scoped]);
            let (mut d, l, cont, end) = build(&t, at, form);
            assume(l != usize::MAX);
            tamper(&mut d, form, l, cont, end);
            if c.u.auth != 0 {
                // sign what is sent: position of the parameters in the untampered encoding
                let (d0, _, off, _) = build(&t, 13, 0);
                let off = d.len() - (d0.len() - off) - if at > 13 { form } else { 0 };
                let mac = hmac96(c.u.auth, &c.u.auth_key, &d);
                d[off..off + 12].copy_from_slice(&mac);
            }
            arrive(&d, 0);
        }
    }
    refused(&mut c);
}
