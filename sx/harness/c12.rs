//! C12: password -> master key -> localized key.
use super::c09::localized;
use super::common::*;
use crate::util::{get_localized_key, get_master_key};

/// RFC 3414 A.2.1 / A.2.2: the first 2^20 octets of the password repeated, hashed
pub fn stretched(pw: &[u8]) -> Vec<u8> {
    let mut v = Vec::with_capacity(1 << 21);
    v.extend_from_slice(pw);
    while v.len() < 1 << 20 {
        // a whole number of passwords
        let n = v.len();
        v.extend_from_within(0..n);
    }
    v.truncate(1 << 20);
    v
}
pub fn master(auth: u8, pw: &[u8]) -> Vec<u8> {
    digest(auth, stretched(pw))
}
/// Key of a kind (0 password, 1 master, 2 localized) and what it comes down to
pub fn key(auth: u8, kind: u64, n: usize, engine: &[u8], name: &str) -> (Vec<u8>, Vec<u8>) {
    let k = sym(if kind == 0 { n } else { key_len(auth) }, name);
    let l = match kind {
        0 => localized(auth, 1, &master(auth, &k), engine),
        x => localized(auth, x, &k, engine),
    };
    (k, l)
}
fn bytes_of(r: &R) -> Option<&'static [u8]> {
    match r {
        Ok(x) => match val(x) {
            Val::Bytes(b) => Some(b),
            _ => None,
        },
        Err(_) => None,
    }
}
/// args: algorithm, size of the password
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_master() {
    let alg = sxrt::arg(0) as u8;
    let pw = sym(sxrt::arg(1) as usize, "password");
    let r = get_master_key(py(), alg, &pw);
    let want = master(alg, &pw);
    match bytes_of(&r) {
        Some(b) => {
            check(b.len() == want.len() && sxrt::eq(b, &want), "master key");
            reach(1)
        }
        None => fail("no master key"),
    }
}
/// args: algorithm, size of the engine id
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_localized() {
    let alg = sxrt::arg(0) as u8;
    let m = sym(key_len(alg), "master key");
    let e = sym(sxrt::arg(1) as usize, "engine id");
    let r = get_localized_key(py(), alg, &m, &e);
    let want = digest(alg, cat(&[&m, &e, &m]));
    match bytes_of(&r) {
        Some(b) => {
            check(b.len() == want.len() && sxrt::eq(b, &want), "localized key");
            reach(1)
        }
        None => fail("no localized key"),
    }
}
fn create(u: &Usm, a: u8, ak: &[u8], p: u8, pk: &[u8]) -> PyResult<SnmpV3ClientSocket> {
    SnmpV3ClientSocket::new(ADDR.to_string(), u.engine.clone(), unsafe { String::from_utf8_unchecked(u.user.clone()) }, a, ak, p, pk, 0, 0, 0, 0)
}
/// args: auth, privacy, kind of auth key, kind of privacy key, password size, engine id size, by set_keys
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_session() {
    let (auth, privacy) = (sxrt::arg(0) as u8, sxrt::arg(1) as u8);
    let (ka, kp) = (sxrt::arg(2), sxrt::arg(3));
    let n = sxrt::arg(4) as usize;
    uf::laws_on_demand();
    let engine = sym(sxrt::arg(5) as usize, "engine");
    let (k, l) = key(auth, ka, n, &engine, "key");
    let (pk, pl) = if privacy != 0 { key(auth, kp, if kp == 0 && ka == 0 { n + 3 } else { n }, &engine, "privacy key") } else { (Vec::new(), Vec::new()) };
    let u = Usm { auth, privacy, auth_key: l, priv_key: pl, user: b"user".to_vec(), engine };
    let (a, p) = (auth | (ka as u8) << 6, if privacy == 0 { 0 } else { privacy | (kp as u8) << 6 });
    let s = if sxrt::arg(6) == 0 {
        create(&u, a, &k, p, &pk)
    } else {
        // the keys come later
        create(&u, 0, &[], 0, &[]).and_then(|mut s| s.set_keys("user".to_string(), a, &k, p, &pk).map(|_| s))
    };
    let s = match s {
        Ok(s) => s,
        Err(_) => return fail("key is refused"),
    };
    let mut c = Ctx { sock: Sock::V3(s), ver: 3, u, op: OP_GET, it: None, reqid: 0, msg_id: 0 };
    check(c.send().is_ok(), "request is sent");
    let d = last_sent();
    let q = read_v3(d);
    check(q.ok && q.auth.len() == 12, "message is well-formed");
    if !q.ok || q.auth.len() != 12 {
        return;
    }
    let mut z = d.to_vec();
    for i in 0..12 {
        z[q.auth_off + i] = 0;
    }
    let mac = hmac96(auth, &c.u.auth_key, &z);
    check(sxrt::eq(&mac, q.auth), "authentication key");
    if privacy != 0 {
        check(q.salt.len() == 8 && (privacy == 2 || q.data.len() % 8 == 0), "message is well-formed");
        let sp = open_scoped(&c.u, &q);
        let (ok, eid, _, _, _) = read_scoped(&sp);
        check(ok, "privacy key");
        check(eid.len() == c.u.engine.len() && sxrt::eq(eid, &c.u.engine), "privacy key");
    }
    reach(1);
}
/// args: auth, privacy, kind, size, which (0 auth key, 1 privacy key), by set_keys: must be refused
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_size() {
    let (auth, privacy, kind) = (sxrt::arg(0) as u8, sxrt::arg(1) as u8, sxrt::arg(2) as u8);
    let bad = sym(sxrt::arg(3) as usize, "key");
    let mut u = no_usm();
    u.engine = sym(9, "engine");
    let good = sym(key_len(auth), "other key");
    let code = |alg: u8, k: u8| if alg == 0 { 0 } else { alg | k << 6 };
    let (a, ak, p, pk): (u8, &[u8], u8, &[u8]) = if sxrt::arg(4) == 0 { (code(auth, kind), &bad, code(privacy, 2), if privacy != 0 { &good } else { &[] }) } else { (code(auth, 2), &good, code(privacy, kind), &bad) };
    let refused = if sxrt::arg(5) == 0 {
        create(&u, a, ak, p, pk).is_err()
    } else {
        match create(&u, 0, &[], 0, &[]) {
            Ok(mut s) => s.set_keys("user".to_string(), a, ak, p, pk).is_err(),
            Err(_) => return fail("session could not be created"),
        }
    };
    check(refused, "key of the wrong size is refused");
    check(world().sent.is_empty(), "nothing is sent");
    reach(1);
}
/// args: place, size of key: any unknown algorithm
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_unknown() {
    let alg = sxrt::u8("algorithm");
    assume((alg & 0x3f) > 2);
    let k = sym(sxrt::arg(1) as usize, "key");
    let u = no_usm();
    let good = sym(16, "other key");
    let refused = match sxrt::arg(0) {
        0 => get_master_key(py(), alg, &k).is_err(),
        1 => get_localized_key(py(), alg, &k, &u.engine).is_err(),
        2 => create(&u, alg, &k, 0, &[]).is_err(),
        3 => create(&u, 0x81, &good, alg, &k).is_err(),
        x => match create(&u, 0, &[], 0, &[]) {
            Ok(mut s) => {
                if x == 4 {
                    s.set_keys("user".to_string(), alg, &k, 0, &[]).is_err()
                } else {
                    s.set_keys("user".to_string(), 0x81, &good, alg, &k).is_err()
                }
            }
            Err(_) => return fail("session could not be created"),
        },
    };
    check(refused, "unknown algorithm is refused");
    reach(1);
}
/// args: algorithm, size: keys of the wrong size and empty passwords given to the functions
#[unsafe(no_mangle)]
pub extern "C" fn h_c12_function() {
    let alg = sxrt::arg(0) as u8;
    let n = sxrt::arg(1) as usize;
    let k = sym(n, "key");
    let e = sym(9, "engine id");
    if n == 0 {
        check(get_master_key(py(), alg, &k).is_err(), "empty password is refused");
    }
    if n != key_len(alg) {
        check(get_localized_key(py(), alg, &k, &e).is_err(), "master key of the wrong size is refused");
    }
    reach(1);
}
