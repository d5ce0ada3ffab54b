//! C13: engine discovery, localization and the clock of the agent.
use super::c09::{code, localized};
use super::c12::master;
use super::common::*;

/// A number of the USM header: n octets, minimal, not negative
fn clock_field(n: usize, name: &str) -> i64 {
    let b = sym(n, name);
    assume(b[0] < 128);
    if n > 1 {
        assume((b[0] != 0) | (b[1] >= 128));
    }
    be_int(&b)
}
struct Agent {
    u: Usm,
    /// what the agent's latest accepted message said
    clock: (i64, i64),
}
const FORGED: u64 = 7;
/// A message which must not be accepted, with another engine id, boots and time. false: does not exist here
fn forged(c: &Ctx, kind: u64) -> bool {
    let mut u = c.u.clone();
    let mut msg_id = int_n(c.msg_id, 4);
    let mut req = c.reqid_tlv();
    match kind {
        // another msgID
        1 => {
            let x = sym(4, "other msgID");
            assume((x[0] < 128) & (be_int(&x) >= 0x800000) & (be_int(&x) != c.msg_id));
            msg_id = tlv(2, &x);
        }
        // another request-id
        2 => {
            let x = sym(4, "other request-id");
            assume((x[0] < 128) & (be_int(&x) >= 0x800000) & (be_int(&x) != c.reqid));
            req = tlv(2, &x);
        }
        // another user
        3 => u.user = b"intruder".to_vec(),
        // another engine
        4 if !u.engine.is_empty() => {
            let n = u.engine.len();
            u.engine = sym(n, "other engine");
            assume(!sxrt::eq(&u.engine, &c.u.engine));
        }
        // wrong authentication
        5 if u.auth != 0 => {}
        // not authenticated
        6 if u.auth != 0 => {
            u.auth = 0;
            u.privacy = 0;
        }
        _ => return false,
    }
    let (b, t) = (clock_field(4, "forged boots"), clock_field(4, "forged time"));
    let pdu = pdu_raw(RESPONSE, &req, 0, 0, &[varbind(&BASE_BER, &null())]);
    if u.engine.is_empty() {
        u.engine = b"\x80\0\0\0\x01intruder".to_vec();
    }
    let mut m = v3_reply(&u, &msg_id, (b, 4), (t, 4), &pdu, &[7, 7, 7, 7, 7, 7, 7, 7]);
    if kind == 5 {
        let q = read_v3(&m);
        let off = q.auth_off;
        let wrong = sym(12, "forged mac");
        assume(q.auth.len() == 12 && !sxrt::eq(&wrong, q.auth));
        m[off..off + 12].copy_from_slice(&wrong);
    }
    arrive(&m, 0);
    true
}
/// The latest message says what the agent said last
fn judge(c: &Ctx, a: &Agent) {
    let u = &c.u;
    let d = last_sent();
    let q = read_v3(d);
    check(q.ok, "message is well-formed");
    check(q.engine.len() == u.engine.len() && sxrt::eq(q.engine, &u.engine), "engine id");
    check((q.boots == a.clock.0) & (q.time == a.clock.1), "boots and time are those of the latest accepted message");
    check(q.user.len() == u.user.len() && sxrt::eq(q.user, &u.user), "user name");
    let flags = (u.auth != 0) as u8 | ((u.privacy != 0) as u8) << 1 | if c.op == OP_REFRESH { 4 } else { 0 };
    check(q.flags & 3 == flags & 3 && (c.op != OP_REFRESH || q.flags & 4 == 4), "flags");
    if !q.ok {
        return;
    }
    if u.auth != 0 {
        check(q.auth.len() == 12, "authentication parameters");
        if q.auth.len() != 12 {
            return;
        }
        let mut z = d.to_vec();
        for i in 0..12 {
            z[q.auth_off + i] = 0;
        }
        let mac = hmac96(u.auth, &u.auth_key, &z);
        check(sxrt::eq(q.auth, &mac), "key is localized to the engine id");
    }
    if u.privacy != 0 && (q.salt.len() != 8 || q.data_tag != 4 || u.privacy == 1 && q.data.len() % 8 != 0) {
        fail("privacy parameters");
        return;
    }
    let sp = open_scoped(u, &q);
    let (ok, eid, _, p, _) = read_scoped(&sp);
    check(ok, "scoped PDU");
    if !ok {
        return;
    }
    check(eid.len() == u.engine.len() && sxrt::eq(eid, &u.engine), "context engine id");
    check(p.tag == [GET, GET, GETNEXT, GETBULK, GET][c.op as usize], "PDU type");
    check(p.oids.len() == [1, 2, 1, 1, 0][c.op as usize], "number of OIDs");
}
/// One exchange; `mess`: 0, a message to be skipped before the answer, or + 10: no answer at all, + 20: in place of an answer
fn exchange(c: &mut Ctx, a: &mut Agent, op: u64, mess: u64, nb: usize, nt: usize) {
    c.op = op;
    if op == OP_NEXT || op == OP_BULK {
        c.it = Some(get_iter(BASE, Some(10)));
    }
    check(c.send().is_ok(), "request is sent");
    c.learn();
    judge(c, a);
    if mess % 10 != 0 {
        if !forged(c, mess % 10) {
            return;
        }
    }
    if mess / 10 != 0 {
        match c.recv() {
            Ok(_) => fail("nothing is to be delivered"),
            Err(e) => check(documented(&e), "documented exception"),
        }
        return;
    }
    let clock = (clock_field(nb, "boots"), clock_field(nt, "time"));
    let m = if op == OP_REFRESH {
        v3_reply(&a.u, &int_n(c.msg_id, 4), (clock.0, nb), (clock.1, nt), &pdu_raw(REPORT, &c.reqid_tlv(), 0, 0, &[varbind(&[43, 6, 1, 6, 3, 15, 1, 1, 4, 0], &tlv(0x41, &[1]))]), &[9, 8, 7, 6, 5, 4, 3, 2])
    } else {
        v3_reply(&a.u, &int_n(c.msg_id, 4), (clock.0, nb), (clock.1, nt), &pdu_raw(RESPONSE, &c.reqid_tlv(), 0, 0, &[varbind(&cat(&[&BASE_BER, &[1]]), &tlv(2, &[5]))]), &[9, 8, 7, 6, 5, 4, 3, 2])
    };
    arrive(&m, 0);
    check(c.recv().is_ok(), "message of the agent is accepted");
    a.clock = clock;
}
fn material(auth: u8, kind: u64, name: &str) -> Vec<u8> {
    sym(if kind == 0 { 9 } else { key_len(auth) }, name)
}
fn comes_to(auth: u8, kind: u64, k: &[u8], engine: &[u8]) -> Vec<u8> {
    match kind {
        0 => localized(auth, 1, &master(auth, k), engine),
        x => localized(auth, x, k, engine),
    }
}
fn engine_known(c: &Ctx, engine: &[u8]) -> bool {
    match &c.sock {
        Sock::V3(s) => match s.get_engine_id(py()) {
            Ok(x) => match val(&x) {
                Val::Bytes(b) => b.len() == engine.len() && sxrt::eq(b, engine),
                _ => false,
            },
            Err(_) => false,
        },
        _ => false,
    }
}
/// args: auth, privacy, auth key kind, privacy key kind, engine id size, given, operation, mess (in each exchange, base 100), sizes of boots and time, user size
#[unsafe(no_mangle)]
pub extern "C" fn h_c13() {
    let (auth, privacy) = (sxrt::arg(0) as u8, sxrt::arg(1) as u8);
    let (ka, kp) = (sxrt::arg(2), sxrt::arg(3));
    let n = sxrt::arg(4) as usize;
    let given = sxrt::arg(5) != 0;
    let op = sxrt::arg(6);
    let mess = sxrt::arg(7);
    let (nb, nt) = (sxrt::arg(8) as usize, sxrt::arg(9) as usize);
    uf::laws_on_demand();
    let engine = sym(n, "engine");
    let mut name = sym(sxrt::arg(10) as usize, "user");
    for x in name.iter_mut() {
        *x &= 0x7f;
    }
    let k = if auth != 0 { material(auth, ka, "key") } else { Vec::new() };
    let pk = if privacy != 0 { material(auth, kp, "privacy key") } else { Vec::new() };
    let u = Usm { auth, privacy, auth_key: if auth != 0 { comes_to(auth, ka, &k, &engine) } else { Vec::new() }, priv_key: if privacy != 0 { comes_to(auth, kp, &pk, &engine) } else { Vec::new() }, user: name.clone(), engine: engine.clone() };
    let none = Usm { auth: 0, privacy: 0, auth_key: Vec::new(), priv_key: Vec::new(), user: Vec::new(), engine: Vec::new() };
    let text = || unsafe { String::from_utf8_unchecked(name.clone()) };
    let (ac, pc) = (code(auth, ka), code(privacy, kp));
    let s = if given {
        SnmpV3ClientSocket::new(ADDR.to_string(), engine.clone(), text(), ac, &k, pc, &pk, 0, 0, 0, 0)
    } else {
        SnmpV3ClientSocket::new(ADDR.to_string(), Vec::new(), String::new(), 0, &[], 0, &[], 0, 0, 0, 0)
    };
    let s = match s {
        Ok(s) => s,
        Err(_) => return fail("session could not be created"),
    };
    let mut a = Agent { u: u.clone(), clock: (0, 0) };
    let mut c = Ctx { sock: Sock::V3(s), ver: 3, u: if given { u.clone() } else { none.clone() }, op, it: None, reqid: 0, msg_id: 0 };
    if given {
        check(engine_known(&c, &engine), "engine id of the session");
    } else {
        // the agent answers nobody in particular
        a.u = none;
        a.u.engine = engine.clone();
        exchange(&mut c, &mut a, OP_REFRESH, mess % 100, nb, nt);
        if (mess % 100) / 10 != 0 {
            // nothing was learned: try again
            exchange(&mut c, &mut a, OP_REFRESH, 0, nb, nt);
        }
        c.u.engine = engine.clone();
        check(engine_known(&c, &engine), "engine id is learned");
        let r = match &mut c.sock {
            Sock::V3(s) => s.set_keys(text(), ac, &k, pc, &pk),
            _ => Ok(()),
        };
        check(r.is_ok(), "set_keys");
        c.u = u.clone();
        a.u = u;
        reach(2);
    }
    exchange(&mut c, &mut a, OP_REFRESH, mess / 100 % 100, nb, nt);
    exchange(&mut c, &mut a, op, mess / 10000 % 100, nb, nt);
    // one more, to see what was learned
    c.op = (op + 1) % 4;
    if c.op == OP_NEXT || c.op == OP_BULK {
        c.it = Some(get_iter(BASE, Some(10)));
    }
    check(c.send().is_ok(), "request is sent");
    c.learn();
    judge(&c, &a);
    check(engine_known(&c, &engine), "engine id of the session");
    reach(1);
}
