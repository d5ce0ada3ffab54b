//! C07: what get and get_many make of a reply.
use super::common::*;
use crate::error::*;

const KINDS: u64 = 9;
/// A value of the given kind -> encoding, what the caller gets (None: no real value)
fn value(kind: u64) -> (Vec<u8>, Option<Val>) {
    match kind {
        0 => {
            let v = sxrt::u8("int");
            (tlv(2, &[v]), Some(Val::Int(v as i8 as i64)))
        }
        1 => (null(), None),
        2 => (tlv(0x80, &[]), None),
        3 => (tlv(0x81, &[]), None),
        4 => (tlv(0x82, &[]), None),
        5 => {
            let v = sym(3, "octets");
            (octets(&v), Some(Val::Bytes(leak(&v))))
        }
        6 => {
            let v = sym(2, "counter");
            assume(v[0] < 128);
            (tlv(0x41, &v), Some(Val::UInt(((v[0] as u64) << 8) | v[1] as u64)))
        }
        7 => (octets(&[]), Some(Val::Bytes(&[]))),
        _ => (tlv(2, &[0]), Some(Val::Int(0))),
    }
}
/// args: version, security, operation (0 get, 1 get_many), n varbinds, sync, kinds (0: any, else 1 + base-9 digits)
#[unsafe(no_mangle)]
pub extern "C" fn h_c07_reply() {
    let (op, n) = (sxrt::arg(2), sxrt::arg(3) as usize);
    let sync = sxrt::arg(4) == 1;
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), op, if sync { 1_000_000 } else { 0 });
    let mut vars = Vec::new();
    let mut want: Vec<(Vec<u8>, Option<Val>, u64)> = Vec::new(); // text of the name, value
    let mut k = sxrt::arg(5);
    for _ in 0..n {
        let kind = if sxrt::arg(5) == 0 { choose(KINDS) } else { (k - 1) % KINDS };
        k = (k - 1) / KINDS + 1;
        let (e, v) = value(kind);
        let d = digit(0, 9);
        vars.push(varbind(&[43, 6, 1, d], &e));
        want.push((cat(&[b"1.3.6.1.", &[b'0' + d]]), v, kind));
    }
    let r = if sync {
        start_peer(Peer { ver: c.ver, u: c.u.clone(), tag: RESPONSE, vars, at_ns: 0 });
        c.call()
    } else {
        c.request();
        let m = c.response(&vars);
        arrive(&m, 0);
        c.recv()
    };
    if op == OP_GET {
        match (r, n) {
            (Ok(v), 0) => {
                check(is_none(&val(&v)), "get: no varbinds: None");
                reach(1)
            }
            (Ok(v), 1) => {
                let v = val(&v);
                match (&want[0].1, want[0].2) {
                    (Some(x), _) => {
                        check(same(&v, x), "get: value of the single varbind");
                        reach(2)
                    }
                    (None, 1) => {
                        check(is_none(&v), "get: NULL: None");
                        reach(3)
                    }
                    _ => fail("get: exception value is returned"),
                }
            }
            (Ok(_), _) => fail("get: several varbinds are accepted"),
            (Err(e), 1) => {
                check(want[0].2 >= 2 && want[0].2 <= 4, "get: good reply is refused");
                check(is::<PyNoSuchInstance>(&e), "get: exception value: NoSuchInstance");
                reach(4)
            }
            (Err(_), 0) => fail("get: empty reply is refused"),
            (Err(e), _) => {
                check(is::<PySnmpError>(&e), "get: several varbinds: SnmpError");
                reach(5)
            }
        }
    } else {
        let v = match r {
            Ok(v) => val(&v),
            Err(_) => return fail("get_many: good reply is refused"),
        };
        // exactly the varbinds with real values; of several for one name any may be kept
        let mut names = 0;
        for i in 0..n {
            let mut first = true;
            let mut real = false;
            let mut ok = false;
            let key = unsafe { std::str::from_utf8_unchecked(&want[i].0) };
            let got = get(&v, key);
            for j in 0..n {
                if want[j].0[8] == want[i].0[8] {
                    if j < i {
                        first = false;
                    }
                    if let Some(x) = &want[j].1 {
                        real = true;
                        if let Some(g) = &got {
                            ok = ok | same(g, x);
                        }
                    }
                }
            }
            check(got.is_some() == real, "get_many: exactly the varbinds which carry values");
            check(!real || ok, "get_many: value of the varbind");
            if first && real {
                names += 1;
            }
        }
        check(dict_len(&v) == Some(names), "get_many: nothing else");
        reach(6)
    }
}
/// args: security, operation, n varbinds, sync: a v3 Report instead of a response
#[unsafe(no_mangle)]
pub extern "C" fn h_c07_report() {
    let sync = sxrt::arg(3) == 1;
    let mut c = Ctx::open(3, sxrt::arg(0), sxrt::arg(1), if sync { 1_000_000 } else { 0 });
    let mut vars = Vec::new();
    for _ in 0..sxrt::arg(2) {
        let v = sym(2, "counter");
        vars.push(varbind(&[43, 6, 1, 6, 3, 15, 1, 1, digit(1, 6), 0], &tlv(0x41, &v)));
    }
    let r = if sync {
        start_peer(Peer { ver: 3, u: c.u.clone(), tag: REPORT, vars, at_ns: 0 });
        c.call()
    } else {
        c.request();
        let m = c.wrap(&pdu_raw(REPORT, &c.reqid_tlv(), 0, 0, &vars));
        arrive(&m, 0);
        c.recv()
    };
    match r {
        Ok(_) => fail("Report is taken for a response"),
        Err(e) => {
            check(is::<PySnmpAuthError>(&e), "Report: SnmpAuthError");
            reach(1)
        }
    }
}
/// Exceptions: classes are what the documentation says
#[unsafe(no_mangle)]
pub extern "C" fn h_c07_silence() {
    let sync = sxrt::arg(3) == 1;
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), sxrt::arg(2), if sync { 1_000_000 } else { 0 });
    let r = if sync {
        c.call()
    } else {
        c.request();
        c.recv()
    };
    match r {
        Ok(_) => fail("silence is an answer"),
        Err(e) => {
            check(is::<exceptions::PyBlockingIOError>(&e), "silence: BlockingIOError, which the client turns into TimeoutError");
            reach(1)
        }
    }
}
