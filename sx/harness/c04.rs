//! C04: only the reply to the outstanding request is delivered.
use super::common::*;
use crate::error::*;

struct Ids {
    version: Vec<u8>,
    community: Vec<u8>,
    reqid: Vec<u8>, // encoded
    msg_id: Vec<u8>, // encoded
    user: Vec<u8>,
    engine: Vec<u8>,
    tag: u8,
}
fn message(c: &Ctx, f: &Ids, vars: &[Vec<u8>]) -> Vec<u8> {
    let pdu = pdu_raw(f.tag, &f.reqid, 0, 0, vars);
    if c.ver < 3 {
        return seq(&[&f.version, &octets(&f.community), &pdu]);
    }
    let mut u = c.u.clone();
    u.user = f.user.clone();
    u.engine = f.engine.clone();
    let m = v3_reply(&u, &f.msg_id, (7, 1), (700, 2), &pdu, &[1, 2, 3, 4, 5, 6, 7, 8]);
    if f.version.len() != 3 || f.version[2] != 3 {
        // version is the first element
        let at = if m[1] < 128 { 2 } else if m[1] == 0x81 { 3 } else { 4 };
        let mut m = m;
        m[at + 2] = f.version[2];
        return m;
    }
    m
}
fn good(c: &Ctx) -> Ids {
    Ids {
        version: int(c.ver as i64),
        community: COMMUNITY.as_bytes().to_vec(),
        reqid: c.reqid_tlv(),
        msg_id: int_n(c.msg_id, 4),
        user: c.u.user.clone(),
        engine: c.u.engine.clone(),
        tag: RESPONSE,
    }
}
/// args: version, security, operation, field, size, report: a datagram with one or more fields
/// arbitrary, then the reply
#[unsafe(no_mangle)]
pub extern "C" fn h_c04_forged() {
    let op = sxrt::arg(2);
    let field = sxrt::arg(3);
    let n = sxrt::arg(4) as usize;
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), op, 0);
    c.request();
    let mut f = good(&c);
    let g = good(&c);
    if sxrt::arg(5) == 1 {
        f.tag = REPORT;
    }
    let mut same = true;
    let mut version = true;
    if field == 0 {
        let v = sxrt::u8("version");
        f.version = vec![2, 1, v];
        version = v == c.ver as u8;
    }
    if field == 1 || field == 7 {
        f.community = sym(n, "community");
        same &= f.community.len() == g.community.len() && sxrt::eq(&f.community, &g.community);
    }
    if field == 2 || field >= 7 {
        // any 4 octet form
        let k = if field == 2 { n } else { 4 };
        let x = sym(k, "request id");
        same &= be_int(&x) == c.reqid;
        f.reqid = tlv(2, &x);
    }
    if field == 3 || field >= 8 {
        let k = if field == 3 { n } else { 4 };
        let x = sym(k, "message id");
        same &= be_int(&x) == c.msg_id;
        f.msg_id = tlv(2, &x);
    }
    if field == 4 || field >= 8 {
        f.user = sym(if field == 4 { n } else { 4 }, "user");
        same &= f.user.len() == g.user.len() && sxrt::eq(&f.user, &g.user);
    }
    if field == 5 || field >= 8 {
        f.engine = sym(if field == 5 { n } else { 9 }, "engine");
        same &= f.engine.len() == g.engine.len() && sxrt::eq(&f.engine, &g.engine);
    }
    let m1 = message(&c, &f, &[vb(1)]);
    arrive(&m1, 0);
    let m2 = message(&c, &g, &[vb(2)]);
    arrive(&m2, 0);
    match c.recv() {
        Ok(r) => {
            check(version, "message of another version is not a decode error");
            match number(op, &r) {
                Some(101) => {
                    check(f.tag == RESPONSE, "Report is delivered as a response");
                    check(same, "foreign datagram is delivered");
                    reach(1)
                }
                Some(102) => {
                    check(!same, "the reply is skipped");
                    check(world().next == 2, "both datagrams are consumed");
                    reach(2)
                }
                _ => fail("value nobody sent"),
            }
        }
        Err(e) => {
            if !version {
                check(is::<PySnmpDecodeError>(&e), "message of another version: SnmpDecodeError");
                reach(3)
            } else {
                check(f.tag == REPORT, "call is ended by a well-formed message");
                check(same, "call is ended by a foreign Report");
                reach(4)
            }
        }
    }
}
/// args: version, security, operation, k requests, m datagrams, answered: k requests in a row (the earlier ones
/// answered or not), then m datagrams, each of which answers an arbitrary one of the requests
#[unsafe(no_mangle)]
pub extern "C" fn h_c04_history() {
    let op = sxrt::arg(2);
    let (k, m) = (sxrt::arg(3) as usize, sxrt::arg(4) as usize);
    let mode = sxrt::arg(5);
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), op, 0);
    let mut ids: Vec<(i64, i64)> = Vec::new();
    let mut replies: Vec<Vec<u8>> = Vec::new();
    for i in 0..k {
        c.request();
        ids.push((c.reqid, c.msg_id));
        let g = good(&c);
        replies.push(message(&c, &g, &[vb(i as u64)]));
        if op == OP_NEXT || op == OP_BULK {
            for j in 0..i {
                assume((ids[j].0 != c.reqid) | (ids[j].1 != c.msg_id));
            }
        }
        if i + 1 < k {
            if mode == 1 {
                // answered
                arrive(&replies[i], 0);
                match c.recv() {
                    Ok(r) => check(number(op, &r) == Some(100 + i as i64), "the answer to this request"),
                    Err(_) => fail("the reply is not delivered"),
                }
            } else if mode == 2 {
                match c.recv() {
                    Ok(_) => fail("silence is an answer"),
                    Err(e) => check(is::<exceptions::PyBlockingIOError>(&e), "silence"),
                }
            }
        }
    }
    let last = ids[k - 1];
    let mut order = Vec::new();
    for _ in 0..m {
        let i = choose(k as u64) as usize;
        order.push(i);
        arrive(&replies[i], 0);
    }
    let matches = |i: usize| (ids[i].0 == last.0) & (ids[i].1 == last.1);
    match c.recv() {
        Ok(r) => {
            let v = match number(op, &r) {
                Some(v) => v,
                None => return fail("value nobody sent"),
            };
            // the first one that matches
            let mut before = false;
            let mut found = false;
            for &i in order.iter() {
                let is = matches(i);
                if !found && v == 100 + i as i64 {
                    check(is & !before, "value that answered another request");
                    found = true;
                } else if !found {
                    before |= is;
                }
            }
            check(found, "value nobody sent");
            reach(1);
        }
        Err(e) => {
            check(is::<exceptions::PyBlockingIOError>(&e), "only silence remains");
            let mut any = false;
            for &i in order.iter() {
                any |= matches(i);
            }
            check(!any, "the reply is skipped");
            reach(2);
        }
    }
}
/// args: version, security, operation: the reply, cut anywhere
#[unsafe(no_mangle)]
pub extern "C" fn h_c04_cut() {
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), sxrt::arg(2), 0);
    c.request();
    let g = good(&c);
    let m = message(&c, &g, &[vb(1)]);
    let n = choose(m.len() as u64) as usize;
    arrive(&m[..n], 0);
    arrive(&m, 0);
    match c.recv() {
        Ok(_) => fail("cut message is skipped or delivered"),
        Err(e) => {
            check(is::<PySnmpDecodeError>(&e), "cut message: SnmpDecodeError");
            reach(1)
        }
    }
}
/// args: version of the session, security, operation, version of the message: a well-formed message of another version
#[unsafe(no_mangle)]
pub extern "C" fn h_c04_other() {
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), sxrt::arg(2), 0);
    c.request();
    let pdu = pdu_raw(RESPONSE, &c.reqid_tlv(), 0, 0, &[vb(1)]);
    let m = if sxrt::arg(3) != 3 {
        community_msg(sxrt::arg(3) as i64, COMMUNITY.as_bytes(), &pdu)
    } else {
        v3_reply(&no_usm(), &int_n(c.reqid, 4), (7, 1), (700, 2), &pdu, &[])
    };
    arrive(&m, 0);
    let g = good(&c);
    let m = message(&c, &g, &[vb(1)]);
    arrive(&m, 0);
    match c.recv() {
        Ok(_) => fail("message of another version is skipped or delivered"),
        Err(e) => {
            check(is::<PySnmpDecodeError>(&e), "message of another version: SnmpDecodeError");
            reach(1)
        }
    }
}
/// args: version, security, k foreign datagrams, sync: any number of datagrams before the reply
#[unsafe(no_mangle)]
pub extern "C" fn h_c04_flood() {
    let op = sxrt::arg(3);
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), op, 1_000_000_000);
    c.request();
    for i in 0..sxrt::arg(2) {
        let mut f = good(&c);
        let x = sym(4, "request id");
        assume(be_int(&x) != c.reqid);
        f.reqid = tlv(2, &x);
        let m = message(&c, &f, &[vb(1)]);
        arrive(&m, i);
    }
    let g = good(&c);
    let m = message(&c, &g, &[vb(2)]);
    arrive(&m, 1000);
    match c.recv() {
        Ok(r) => {
            check(number(op, &r) == Some(102), "foreign datagram is delivered");
            reach(1)
        }
        Err(_) => fail("the reply is not delivered"),
    }
}
