//! C08: an OID text is refused or sent as exactly the OID it denotes; rendering gives the text back.
use super::common::*;

/// What the text denotes: None - not an OID in dotted decimal form.
/// Some((must, octets)): `must` - acceptance is demanded
pub fn denotes(s: &[u8]) -> Option<(bool, Vec<u8>)> {
    let mut arcs: Vec<u64> = Vec::with_capacity(40);
    let mut cur: u64 = 0;
    let mut n = 0usize; // digits of the arc
    let mut must = true;
    let mut first = 0u8;
    for i in 0..s.len() + 1 {
        if i == s.len() || s[i] == b'.' {
            if n == 0 {
                return None;
            }
            if n > 1 && first == b'0' {
                must = false; // leading zero: may be refused
            }
            arcs.push(cur);
            cur = 0;
            n = 0;
            continue;
        }
        let c = s[i];
        if c < b'0' || c > b'9' {
            return None;
        }
        if n == 0 {
            first = c;
        }
        n += 1;
        cur = cur * 10 + (c - b'0') as u64;
        if cur > u32::MAX as u64 {
            return None;
        }
    }
    if arcs.len() < 2 || arcs[0] > 2 {
        return None;
    }
    if arcs[1] > 39 {
        if arcs[0] < 2 {
            return None;
        }
        must = false; // X.690 has a form for it, the property does not demand it
    }
    let mut o = arc(arcs[0] * 40 + arcs[1]);
    for &a in arcs.iter().skip(2) {
        o.extend_from_slice(&arc(a));
    }
    Some((must, o))
}

/// Hands the text to an entry point: 0 get, 1 get_many, 2 getnext, 3 getbulk, 4 get_many after a good one
fn ask(sock: &mut Sock, how: u64, s: &[u8]) -> PyResult<()> {
    let t = unsafe { std::str::from_utf8_unchecked(leak(s)) };
    match how {
        0 => sock.send_get(t),
        1 => sock.send_get_many(&[t]),
        4 => sock.send_get_many(&["1.3.6.1", t]),
        _ => {
            let it = GetIter::new(t, Some(7))?;
            if how == 2 { sock.send_get_next(&it) } else { sock.send_get_bulk(&it) }
        }
    }
}
fn judge(how: u64, s: &[u8]) {
    let mut sock = if sxrt::arg(9) == 1 { open_v1(COMMUNITY, 0) } else { open_v2(COMMUNITY, 0) };
    let r = ask(&mut sock, how, s);
    let w = world();
    let spec = denotes(s);
    match r {
        Ok(()) => {
            check(w.sent.len() == 1, "accepted: one datagram");
            let q = read_community(last_sent());
            check(q.ok, "accepted: well-formed request");
            let at = if how == 4 { 1 } else { 0 };
            check(q.oids.len() == at + 1, "accepted: number of OIDs");
            match spec {
                None => fail("text which is no OID is accepted"),
                Some((_, o)) => {
                    let got = q.oids[at];
                    check(got.len() == o.len(), "accepted: the OID sent is the OID asked for (size)");
                    check(sxrt::eq(got, &o), "accepted: the OID sent is the OID asked for");
                    reach(1);
                }
            }
        }
        Err(e) => {
            check(documented(&e), "refused: documented exception");
            check(w.sent.len() == 0, "refused: nothing is sent");
            if let Some((must, _)) = spec {
                check(!must, "valid OID text is refused");
            }
            reach(2);
        }
    }
}

/// args: entry point, prefix, n, suffix: prefix + n arbitrary ASCII characters + suffix
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_chars() {
    let pre: &[u8] = match sxrt::arg(1) {
        0 => b"",
        1 => b"1.3.",
        2 => b"2.",
        3 => b"1.3.6.1",
        4 => b"1.3.429496729",
        5 => b"1.3.42949672",
        6 => b"0.0.",
        7 => b"1.",
        _ => b"1.3.6.1.4.1.2021.10.1.3.1.1.1.1",
    };
    let suf: &[u8] = match sxrt::arg(3) {
        0 => b"",
        1 => b".1",
        2 => b".",
        _ => b"0.5.6",
    };
    let x = sym(sxrt::arg(2) as usize, "text");
    for &c in x.iter() {
        assume(c < 128);
    }
    judge(sxrt::arg(0), &cat(&[pre, &x, suf]));
}
/// A character beyond ASCII (2 octets of UTF-8) at some place
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_utf8() {
    let x = sym(2, "character");
    assume((x[0] >= 0xc2) & (x[0] <= 0xdf) & (x[1] & 0xc0 == 0x80));
    let t: Vec<u8> = b"1.3.6.10".to_vec();
    let p = sxrt::arg(1) as usize;
    judge(sxrt::arg(0), &cat(&[&t[..p], &x, &t[p..]]));
}
/// args: entry point, class of numbers (3), tail: 0 last arc, 1 followed by an arc, 2 second arc of root 2, 3 first
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_arc() {
    let (d, _) = digits_arg(1);
    let s = match sxrt::arg(4) {
        0 => cat(&[b"1.3.", &d]),
        1 => cat(&[b"1.3.", &d, b".7"]),
        2 => cat(&[b"2.", &d]),
        3 => cat(&[&d, b".1"]),
        4 => cat(&[b"0.", &d]),
        _ => cat(&[b"1.", &d, b".1"]),
    };
    judge(sxrt::arg(0), &s);
}
/// args: entry point, number of arcs: many arcs, one or two digits each
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_many() {
    let mut s: Vec<u8> = b"1.3".to_vec();
    for i in 2..sxrt::arg(1) {
        s.push(b'.');
        if i % 7 == 3 {
            s.push(b'0' + digit(2, 9));
            s.push(b'0' + digit(0, 9));
            s.push(b'0' + digit(0, 9));
        } else if i % 3 == 0 {
            s.push(b'0' + digit(1, 9));
            s.push(b'0' + digit(0, 9));
        } else {
            s.push(b'0' + digit(0, 9));
        }
    }
    judge(sxrt::arg(0), &s);
}
/// The OID the agent returns is rendered as the very text that was asked for.
/// args: version 0/1, class of numbers (3), root
#[unsafe(no_mangle)]
pub extern "C" fn h_c08_back() {
    let (d, _) = digits_arg(1);
    let (d2, _) = digits_class(0, 1, 3, 1);
    let root = [b'0' + sxrt::arg(4) as u8, b'.'];
    let s = match sxrt::arg(5) {
        0 => cat(&[&root, &d2, b".", &d]),
        1 => cat(&[&root, b"7.", &d, b".0"]),
        _ => cat(&[&root, b"0.", &d, b".", &[b'0' + digit(0, 9)]]),
    };
    let ver = sxrt::arg(0);
    let mut sock = if ver == 0 { open_v1(COMMUNITY, 0) } else { open_v2(COMMUNITY, 0) };
    let t = unsafe { std::str::from_utf8_unchecked(leak(&s)) };
    match sock.send_get_many(&[t]) {
        Ok(_) => {}
        Err(_) => return fail("valid OID text is refused"),
    }
    let q = read_community(last_sent());
    check(q.ok && q.oids.len() == 1, "request");
    wide_ids(q.reqid);
    // the value is the same OID, too
    let m = community_msg(ver as i64, COMMUNITY.as_bytes(), &pdu_raw(RESPONSE, &int_n(q.reqid, 4), 0, 0, &[varbind(q.oids[0], &tlv(6, q.oids[0]))]));
    arrive(&m, 0);
    match sock.recv_get_many() {
        Ok(v) => {
            let v = val(&v);
            check(dict_len(&v) == Some(1), "one entry");
            match get(&v, t) {
                Some(x) => {
                    check(is_str(&x, &s), "OID value: rendered as the same text");
                    reach(1);
                }
                None => fail("the OID received is rendered as another text"),
            }
        }
        Err(_) => fail("the reply is refused"),
    }
}
