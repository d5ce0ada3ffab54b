//! C02: values and names reach the caller as the agent encoded them
use super::common::*;

pub const INTEGER: u64 = 0;
pub const COUNTER32: u64 = 1;
pub const GAUGE32: u64 = 2;
pub const TIMETICKS: u64 = 3;
pub const UINTEGER32: u64 = 4;
pub const COUNTER64: u64 = 5;
pub const OCTETS: u64 = 6;
pub const OPAQUE: u64 = 7;
pub const DESCRIPTOR: u64 = 8;
pub const IPADDRESS: u64 = 9;
pub const OID: u64 = 10;
pub const BOOLEAN: u64 = 11;
pub const NULL: u64 = 12;
pub const SPECIAL: u64 = 13;
pub const BINARY: u64 = 14;
pub const DECIMAL: u64 = 15;

enum Want {
    Int(i64),
    Uint(u64),
    /// unsigned reading, or a refusal: not the canonical encoding
    UintOrRefused(u64),
    Bytes(Vec<u8>),
    Text(Vec<u8>),
    Bool(bool),
    None,
    Bits(u64),
    Nan,
}
fn unsigned(c: &[u8]) -> u64 {
    let mut v = 0u64;
    for x in c {
        v = (v << 8) | *x as u64;
    }
    v
}
/// Decimal digits of an octet and what they denote
fn octet_text(out: &mut Vec<u8>) -> u8 {
    let (d, v) = match choose(5) {
        0 => digits_class(0, 0, 9, 0),
        1 => digits_class(0, 1, 9, 1),
        2 => digits_class(0, 1, 1, 2),
        3 => digits_class(2, 0, 4, 1),
        _ => digits_class(25, 0, 5, 0),
    };
    out.extend_from_slice(&d);
    v as u8
}

/// The value as it is sent, and what the caller must get
fn value(kind: u64, n: usize) -> (u8, Vec<u8>, Want) {
    match kind {
        INTEGER => {
            let c = sym(n, "INTEGER");
            if n > 1 {
                assume(!((c[0] == 0) & (c[1] < 128)) & !((c[0] == 255) & (c[1] >= 128)));
            }
            let v = be_int(&c);
            (2, c, Want::Int(v))
        }
        COUNTER32 | GAUGE32 | TIMETICKS | UINTEGER32 | COUNTER64 => {
            let size = if kind == COUNTER64 { 8 } else { 4 };
            let c = sym(n, "unsigned");
            if n > size {
                assume(c[0] == 0);
            }
            let v = unsigned(&c);
            let tag = [0x41u8, 0x42, 0x43, 0x47, 0x46][kind as usize - 1];
            let canonical = (c[0] < 0x80) & (n == 1 || !((c[0] == 0) & (c[1] < 128)));
            if choose(2) == 0 {
                assume(canonical);
                (tag, c, Want::Uint(v))
            } else {
                assume(!canonical);
                (tag, c, Want::UintOrRefused(v))
            }
        }
        OCTETS | OPAQUE | DESCRIPTOR => {
            let c = sym(n, "octets");
            ([4u8, 0x44, 7][kind as usize - 6], c.clone(), Want::Bytes(c))
        }
        IPADDRESS => {
            let mut t = Vec::new();
            let mut c = Vec::new();
            for i in 0..4 {
                if i > 0 {
                    t.push(b'.');
                }
                // all the combinations of sizes do not matter
                if i == n || i == 3 - n {
                    c.push(octet_text(&mut t));
                } else {
                    t.extend_from_slice(b"12");
                    c.push(12);
                }
            }
            (0x40, c, Want::Text(t))
        }
        OID => {
            let (t, c) = any_oid(if n > 0 { Some(digits(n, 0)) } else { None }, 1);
            (6, c, Want::Text(t))
        }
        BOOLEAN => {
            let b = sxrt::u8("bool");
            (1, vec![b], Want::Bool(b != 0))
        }
        NULL => (5, Vec::new(), Want::None),
        SPECIAL => match n {
            0 => (9, Vec::new(), Want::Bits(0)),
            1 => (9, vec![0x40], Want::Bits(0x7ff0 << 48)),
            2 => (9, vec![0x41], Want::Bits(0xfff0 << 48)),
            3 => (9, vec![0x42], Want::Nan),
            _ => (9, vec![0x43], Want::Bits(1 << 63)),
        },
        BINARY => binary(n),
        _ => decimal(n),
    }
}
/// Text and content of an OBJECT IDENTIFIER: n arcs after the second one
pub fn any_oid(arc: Option<(Vec<u8>, u32)>, root: u64) -> (Vec<u8>, Vec<u8>) {
    // second arc
    let wide = choose(2) == 1;
    let (d2, v2) = if wide { digits_class(0, 1, 3, 1) } else { digits_class(0, 0, 9, 0) };
    let mut t = vec![b'0' + root as u8, b'.'];
    t.extend_from_slice(&d2);
    let mut c = vec![root as u8 * 40 + v2 as u8];
    if let Some((d, v)) = arc {
        t.push(b'.');
        t.extend_from_slice(&d);
        c.extend_from_slice(&arc32(v));
    }
    (t, c)
}
/// Binary REAL: parameters come from the job
fn binary(m: usize) -> (u8, Vec<u8>, Want) {
    // args 8..: base code, scale, exponent size, exponent (or 1000000: one arbitrary octet)
    let (base, scale, es) = (sxrt::arg(8), sxrt::arg(9), sxrt::arg(10) as usize);
    let fixed = sxrt::arg(11) as i64;
    let neg = choose(2);
    let mut c = vec![0x80 | (neg as u8) << 6 | (base as u8) << 4 | (scale as u8) << 2 | (if es > 3 { 3 } else { es - 1 }) as u8];
    let e: i64 = if fixed == 1_000_000 {
        let x = sxrt::u8("exponent");
        sxrt::concretize(x as i8 as i64 as u64) as i64
    } else {
        fixed
    };
    if es > 3 {
        c.push(es as u8);
    }
    for i in (0..es).rev() {
        c.push((e >> (8 * i).min(63)) as u8);
    }
    let n = sym(m, "mantissa");
    c.extend_from_slice(&n);
    let mut v = unsigned(&n);
    assume(v < 1 << 53);
    let k = e * [1, 3, 4][base as usize] + scale as i64;
    let sign = neg << 63;
    // integer arithmetic on the representation
    let want = if sxrt::arg(12) == 0 {
        assume(v != 0);
        (((v as f64).to_bits() as i64) + (k << 52)) as u64
    } else if sxrt::arg(12) == 1 {
        // below the range of normalized numbers, exact
        v <<= k + 1074;
        assume(v < 1 << 52);
        v
    } else if sxrt::arg(12) == 2 {
        assume(v != 0);
        0x7ff0 << 48
    } else {
        // too small
        0
    };
    (9, c, Want::Bits(want | sign))
}
/// Decimal REAL of form `f`
fn decimal(f: usize) -> (u8, Vec<u8>, Want) {
    let nd = sxrt::arg(8) as usize;
    let (d, v) = digits_class(0, if nd > 1 { 1 } else { 0 }, 9, nd - 1);
    let mut c = Vec::new();
    let sign = choose(3);
    let text = |c: &mut Vec<u8>| {
        match sign {
            1 => c.push(b'-'),
            2 => c.push(b'+'),
            _ => {}
        }
    };
    let x = v as f64;
    let x = match f {
        0 => {
            c.push(1);
            text(&mut c);
            c.extend_from_slice(&d);
            x
        }
        1 => {
            // leading spaces
            c.extend_from_slice(&[1, b' ', b' ']);
            text(&mut c);
            c.extend_from_slice(&d);
            x
        }
        2 | 3 => {
            // the last digit is after the mark
            c.push(2);
            text(&mut c);
            c.extend_from_slice(&d[..nd - 1]);
            c.push(if f == 2 { b'.' } else { b',' });
            c.push(d[nd - 1]);
            x / 10.0
        }
        _ => {
            c.push(3);
            text(&mut c);
            c.extend_from_slice(&d);
            c.extend_from_slice(if f == 4 { b".E+2" } else if f == 5 { b".E-1" } else { b"E0" });
            if f == 4 {
                x * 100.0
            } else if f == 5 {
                x / 10.0
            } else {
                x
            }
        }
    };
    (9, c, Want::Bits(x.to_bits() | if sign == 1 { 1 << 63 } else { 0 }))
}
fn verify(v: &Val, w: &Want) {
    let ok = match w {
        Want::Int(x) => is_int(v, *x),
        Want::Uint(x) | Want::UintOrRefused(x) => is_uint(v, *x),
        Want::Bytes(x) => matches!(v, Val::Bytes(_)) && is_bytes(v, x),
        Want::Text(x) => matches!(v, Val::Str(_)) && is_str(v, x),
        Want::Bool(x) => matches!(v, Val::Bool(y) if y == x),
        Want::None => is_none(v),
        Want::Bits(x) => matches!(v, Val::Float(y) if y.to_bits() == *x),
        Want::Nan => matches!(v, Val::Float(y) if y.is_nan()),
    };
    check(ok, "value differs from the encoded one");
    reach(1);
}
/// Name and value out of what the operation returned. Entry `pos`
fn entry(c: &Ctx, r: &Val, pos: usize, count: usize, key: &str) -> Option<Val> {
    let pair = |v: &Val| -> Option<Val> {
        match v {
            Val::Tuple(t) if t.len() == 2 => {
                check(is_str(&t[0], key.as_bytes()), "name differs from the encoded one");
                Some(t[1])
            }
            _ => None,
        }
    };
    match c.op {
        OP_GET => Some(*r),
        OP_MANY => {
            check(dict_len(r) == Some(count), "number of entries");
            get(r, key)
        }
        OP_NEXT => pair(r),
        _ => match r {
            Val::List(l) => {
                let l = l.borrow();
                check(l.len() == count, "number of entries");
                if pos < l.len() { pair(&l[pos]) } else { None }
            }
            _ => None,
        },
    }
}
fn name(i: usize) -> (Vec<u8>, String) {
    let mut o = BASE_BER.to_vec();
    o.push(1);
    o.push(i as u8);
    (o, format!("{}.1.{}", BASE, i))
}

/// args: version, security, op, type, n, position, number of varbinds, length octets after the
/// initial one in the value, then REAL
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_value() {
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), sxrt::arg(2), 0);
    c.request();
    let (pos, count, form) = (sxrt::arg(5) as usize, sxrt::arg(6) as usize, sxrt::arg(7) as usize);
    let (tag, content, want) = value(sxrt::arg(3), sxrt::arg(4) as usize);
    let mut vars = Vec::new();
    for i in 0..count {
        let v = if i == pos {
            if form == 0 { tlv(tag, &content) } else { tlv_long(tag, &content, form) }
        } else {
            int(i as i64 * 1000 - 5)
        };
        vars.push(varbind(&name(i).0, &v));
    }
    arrive(&c.response(&vars), 0);
    match c.recv() {
        Ok(r) => {
            let r = val(&r);
            for i in 0..count {
                let e = entry(&c, &r, i, count - matches!(want, Want::None) as usize, &name(i).1);
                match e {
                    Some(v) => {
                        if i == pos {
                            verify(&v, &want)
                        } else {
                            check(is_int(&v, i as i64 * 1000 - 5), "another value differs from the encoded one")
                        }
                    }
                    None => {
                        check(i == pos && matches!(want, Want::None), "value is missing");
                        reach(1);
                    }
                }
            }
        }
        Err(_) => check(matches!(want, Want::UintOrRefused(_)), "reply is refused"),
    }
}

/// Names. args: version, op, root, place of the arc: 0 last, 1 in the middle, the class of the arc
/// (walks: below the base)
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_name() {
    let mut c = Ctx::open(sxrt::arg(0), 0, sxrt::arg(1), 0);
    c.request();
    let (d, v) = digits_arg(4);
    let v = v as u32;
    let (t, o) = if c.op == OP_MANY {
        let (mut t, mut o) = any_oid(Some((d, v)), sxrt::arg(2));
        if sxrt::arg(3) == 1 {
            t.extend_from_slice(b".4294967295.0.128");
            o.extend_from_slice(&[0x8f, 0xff, 0xff, 0xff, 0x7f, 0, 0x81, 0]);
        }
        (t, o)
    } else {
        let mut t = BASE.as_bytes().to_vec();
        let mut o = BASE_BER.to_vec();
        t.push(b'.');
        t.extend_from_slice(&d);
        o.extend_from_slice(&arc32(v));
        if sxrt::arg(3) == 1 {
            t.extend_from_slice(b".0.16384.65535");
            o.extend_from_slice(&[0, 0x81, 0x80, 0, 0x83, 0xff, 0x7f]);
        }
        (t, o)
    };
    arrive(&c.response(&[varbind(&o, &int(77))]), 0);
    match c.recv() {
        Ok(r) => {
            let key = unsafe { std::str::from_utf8_unchecked(&t) };
            match entry(&c, &val(&r), 0, 1, key) {
                Some(v) => {
                    check(is_int(&v, 77), "value differs");
                    reach(1);
                }
                None => fail("name differs from the encoded one"),
            }
        }
        Err(_) => fail("reply is refused"),
    }
}

/// Long forms of the lengths. args: version, security, op, header, length octets, n: octets of the value
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_form() {
    let ver = sxrt::arg(0);
    let mut c = Ctx::open(ver, sxrt::arg(1), sxrt::arg(2), 0);
    c.request();
    let (at, form, n) = (sxrt::arg(3) as usize, sxrt::arg(4) as usize, sxrt::arg(5) as usize);
    let x = sym(n, "octets");
    let mut kids = vec![vb_node(&name(0).0, leaf(4, &x))];
    let count = if c.op == OP_MANY || c.op == OP_BULK { 2 } else { 1 };
    if count == 2 {
        kids.push(vb_node(&name(1).0, leaf(2, &[5])));
    }
    let p = node(RESPONSE, vec![leaf(2, &c.reqid_tlv()[2..]), leaf(2, &[0]), leaf(2, &[0]), node(0x30, kids)]);
    if ver != 3 {
        let t = node(0x30, vec![leaf(2, &[ver as u8]), leaf(4, COMMUNITY.as_bytes()), p]);
        arrive(&build(&t, at, form).0, 0);
    } else {
        let scoped = node(0x30, vec![leaf(4, &c.u.engine), leaf(4, &[]), p]);
        if c.u.privacy != 0 {
            let d = build(&scoped, at, form).0;
            arrive(&v3_reply_scoped(&c.u, &int_n(c.msg_id, 4), (7, 1), (700, 2), &d, &[1, 2, 3, 4, 5, 6, 7, 8]), 0);
        } else {
            let global = node(0x30, vec![leaf(2, &int_n(c.msg_id, 4)[2..]), leaf(2, &[0, 255, 227]), leaf(4, &[(c.u.auth != 0) as u8]), leaf(2, &[3])]);
            let usm = node(4, vec![node(0x30, vec![leaf(4, &c.u.engine), leaf(2, &[7]), leaf(2, &[2, 188]), leaf(4, &c.u.user), leaf(4, &vec![0u8; if c.u.auth != 0 { 12 } else { 0 }]), leaf(4, &[])])]);
            let t = node(0x30, vec![leaf(2, &[3]), global, usm, scoped]);
            let mut d = build(&t, at, form).0;
            if c.u.auth != 0 {
                let (d0, _, off, _) = build(&t, 13, 0);
                let off = d.len() - (d0.len() - off) - if at > 13 { form } else { 0 };
                let mac = hmac96(c.u.auth, &c.u.auth_key, &d);
                d[off..off + 12].copy_from_slice(&mac);
            }
            arrive(&d, 0);
        }
    }
    match c.recv() {
        Ok(r) => {
            let r = val(&r);
            match entry(&c, &r, 0, count, &name(0).1) {
                Some(v) => check(is_bytes(&v, &x), "value differs from the encoded one"),
                None => fail("value is missing"),
            }
            if count == 2 {
                check(matches!(entry(&c, &r, 1, count, &name(1).1), Some(v) if is_int(&v, 5)), "second value differs");
            }
            reach(1);
        }
        Err(_) => fail("reply is refused"),
    }
}

/// Sync calls: the same through get / get_many / get_next / get_bulk. args: version, security, op, n
#[unsafe(no_mangle)]
pub extern "C" fn h_c02_sync() {
    let ver = sxrt::arg(0);
    let mut c = Ctx::open(ver, sxrt::arg(1), sxrt::arg(2), 1_000_000_000);
    let x = sym(sxrt::arg(3) as usize, "octets");
    let count = if c.op == OP_MANY || c.op == OP_BULK { 3 } else { 1 };
    let vars = (0..count).map(|i| varbind(&name(i).0, &octets(&x))).collect();
    start_peer(Peer { ver, u: c.u.clone(), tag: RESPONSE, vars, at_ns: 0 });
    match c.call() {
        Ok(r) => {
            let r = val(&r);
            for i in 0..count {
                check(matches!(entry(&c, &r, i, count, &name(i).1), Some(v) if is_bytes(&v, &x)), "value differs from the encoded one");
            }
            reach(1);
        }
        Err(_) => fail("reply is refused"),
    }
}
