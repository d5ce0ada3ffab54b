//! C18: a request does not outlive its timeout
use super::common::*;

/// Times are multiples of the unit
static mut UNIT: u64 = 0;
static mut LAGS: u64 = 0;
fn unit() -> u64 {
    unsafe { UNIT }
}
fn lag() -> u64 {
    let v = (sxrt::u8("lag") & 1) as u64 * unit();
    unsafe { LAGS += v };
    v
}
/// An interval
fn time(name: &str) -> u64 {
    (sxrt::u8(name) & 7) as u64 * unit()
}
/// What comes after a request: kind and time since the request
struct Plan {
    ver: u64,
    u: Usm,
    what: Vec<(u64, u64)>,
    /// ids of the latest request
    reqid: i64,
    msg_id: i64,
}
static mut PLAN: Option<Plan> = None;
#[allow(static_mut_refs)]
fn plan() -> &'static mut Plan {
    unsafe { PLAN.as_mut().unwrap() }
}
fn other(x: i64, name: &str) -> Vec<u8> {
    let b = sym(4, name);
    assume((b[0] < 128) & (be_int(&b) >= 0x800000) & (be_int(&b) != x));
    tlv(2, &b)
}
pub const MATCH: u64 = 0;
/// A datagram of the kind: 0 the reply, others are not for this request
fn datagram(p: &Plan, kind: u64) -> Vec<u8> {
    let mut u = p.u.clone();
    let mut msg_id = int_n(p.msg_id, 4);
    let mut req = int_n(p.reqid, 4);
    let mut tag = RESPONSE;
    let vars = [varbind(&cat(&[&BASE_BER, &[1]]), &tlv(2, &[42]))];
    match kind {
        0 => {}
        1 => req = other(p.reqid, "other request-id"),
        2 if p.ver == 3 => msg_id = other(p.msg_id, "other msgID"),
        3 if p.ver == 3 => u.user = b"other".to_vec(),
        4 if p.ver == 3 => u.engine[8] ^= 1,
        5 if p.ver == 3 && u.auth != 0 => {
            let mut m = v3_reply(&u, &msg_id, (7, 1), (700, 2), &pdu_raw(RESPONSE, &req, 0, 0, &vars), &[1; 8]);
            let off = read_v3(&m).auth_off;
            let mac = sym(12, "wrong MAC");
            assume(!sxrt::eq(&mac, &m[off..off + 12]));
            m[off..off + 12].copy_from_slice(&mac);
            return m;
        }
        _ => {
            // somebody's else Report, which v1 and v2c do not know
            if p.ver == 3 {
                msg_id = other(p.msg_id, "other msgID");
            }
            req = other(p.reqid, "other request-id");
            tag = REPORT
        }
    }
    let pdu = pdu_raw(tag, &req, 0, 0, &vars);
    if p.ver == 3 {
        v3_reply(&u, &msg_id, (7, 1), (700, 2), &pdu, &[1; 8])
    } else {
        community_msg(p.ver as i64, COMMUNITY.as_bytes(), &pdu)
    }
}
fn agent(d: &'static [u8]) {
    let p = plan();
    (p.reqid, p.msg_id) = ids_of(p.ver, &p.u, d);
    for (kind, at) in p.what.iter() {
        arrive(&datagram(p, *kind), *at);
    }
}
/// One call: k datagrams of somebody else, kinds in base 10, then the reply (if any)
fn exchange(c: &mut Ctx, t: u64, k: u64, mut kinds: u64, reply: bool) {
    let mut what = Vec::new();
    let start = sxrt::clock_get();
    let mut at = start;
    for _ in 0..k {
        let x = at + time("arrival");
        what.push((1 + kinds % 10, x));
        kinds /= 10;
        at = x;
    }
    if reply {
        let x = at + time("reply");
        what.push((MATCH, x));
        at = x;
    }
    plan().what = what;
    unsafe { LAGS = 0 };
    // whatever the resolution of timers
    let slack = if unit() < 1000 { 2000 } else { unit() / 2 };
    let r = c.call();
    let took = sxrt::clock_get() - start;
    let lags = unsafe { LAGS };
    check(!world().hung, "the call blocks without limit");
    check(took <= t + slack + lags, "the call outlives its timeout");
    match r {
        Ok(r) => {
            check(reply, "delivered without a reply");
            check((c.op == 4) | (number(c.op, &r) == Some(42)), "value of the reply");
            reach(1);
        }
        Err(e) => {
            check(is::<exceptions::PyBlockingIOError>(&e) || is::<exceptions::PyTimeoutError>(&e), "exception of the timeout");
            check(!reply | (at - start + lags + slack > t), "reply which arrives in time is delivered");
            // not before its time
            check(took + slack >= t, "the call gives up early");
            reach(2);
        }
    }
}
/// args: version, security, operation, timeout in ns (0: any), calls: (k + 10 * reply + 100 * kinds) of 3, unit of time in ns
#[unsafe(no_mangle)]
pub extern "C" fn h_c18() {
    uf::laws_on_demand();
    rand::wide();
    unsafe { UNIT = sxrt::arg(7) };
    let mut t = sxrt::arg(3);
    if t == 0 {
        t = time("timeout") + unit();
        assume(t > 0);
    }
    sxrt::clock_set(0);
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), sxrt::arg(2), t);
    unsafe { PLAN = Some(Plan { ver: c.ver, u: c.u.clone(), what: Vec::new(), reqid: 0, msg_id: 0 }) };
    world().agent = Some(agent);
    world().lag = Some(lag);
    for i in 0..3 {
        let x = sxrt::arg(4 + i);
        if x != 0 {
            let x = x - 1;
            // what is late for a call arrives before the next one
            sxrt::clock_set(i as u64 * 64 * unit());
            exchange(&mut c, t, x % 10, x / 100, x / 10 % 10 != 0);
        }
    }
}
/// Non-blocking, as the async client: never blocks, timeouts are the caller's
#[unsafe(no_mangle)]
pub extern "C" fn h_c18_async() {
    uf::laws_on_demand();
    rand::wide();
    sxrt::clock_set(1_000_000_000_000);
    let mut c = Ctx::open(sxrt::arg(0), sxrt::arg(1), sxrt::arg(2), 0);
    let k = sxrt::arg(3);
    c.request();
    unsafe { PLAN = Some(Plan { ver: c.ver, u: c.u.clone(), what: Vec::new(), reqid: c.reqid, msg_id: c.msg_id }) };
    let start = sxrt::clock_get();
    let mut kinds = sxrt::arg(4);
    let reply = choose(2) == 1;
    for _ in 0..k {
        arrive(&datagram(plan(), 1 + kinds % 10), start);
        kinds /= 10;
    }
    if reply {
        arrive(&datagram(plan(), MATCH), start);
    }
    let r = c.recv();
    check(!world().hung && sxrt::clock_get() == start, "non-blocking call blocks");
    match r {
        Ok(r) => {
            check(reply & ((c.op == 4) || number(c.op, &r) == Some(42)), "value of the reply");
            reach(1);
        }
        Err(e) => {
            check(!reply, "reply is delivered");
            check(is::<exceptions::PyBlockingIOError>(&e), "BlockingIOError, which the client waits on");
            reach(2);
        }
    }
    // once more: the reply comes later
    if !reply {
        arrive(&datagram(plan(), MATCH), start);
        match c.recv() {
            Ok(r) => check((c.op == 4) || number(c.op, &r) == Some(42), "value of the reply"),
            Err(_) => fail("reply is delivered"),
        }
    }
}
