//! C05: walks of the MIB of a conforming agent.
use super::c06::{HEAD, Oid, asked, is_stop, pair};
use super::common::*;

struct Entry {
    oid: Oid,
    text: Vec<u8>,
    val: [u8; 2],
}
struct Agent {
    mib: Vec<Entry>,
    base: Oid,
    cap: usize,
    ending: u64,
    ver: u64,
    u: Usm,
    bulk: bool,
    rep: i64,
    asked: usize,
}
static mut AGENT: Option<Agent> = None;
#[allow(static_mut_refs)]
fn agent() -> &'static mut Agent {
    unsafe { AGENT.as_mut().unwrap() }
}
/// An arc of a class: text, value, octets
fn arc_of(class: u64, i: u64) -> (Vec<u8>, u64, usize) {
    let ((t, v), n) = match class {
        0 => (digits_class(0, 0, 9, 0), 1),
        1 => (digits_class(0, 1, 9, 1), 1),
        2 => (digits_class(12, 0, 7, 0), 1),
        3 => (digits_class(0, 2, 9, 2), 2),
        4 => (digits_class(0, 1, 9, 3), 2),
        5 => (digits_class(16, 0, 2, 2), 2),
        6 => (digits_class(0, 2, 9, 4), 3),
        7 => (digits_class(42949672, 0, 8, 1), 5),
        _ => ((i.to_string().into_bytes(), i), arc(i).len()),
    };
    (t, v, n)
}
fn entry(mut classes: u64, i: u64) -> Entry {
    let mut oid = Oid { arcs: Vec::new(), sizes: Vec::new(), head: HEAD };
    let mut text = b"1.3.6.1".to_vec();
    while classes > 0 {
        let (t, v, n) = arc_of(classes % 10 - 1, i);
        classes /= 10;
        oid.arcs.push(v);
        oid.sizes.push(n);
        text.push(b'.');
        text.extend_from_slice(&t);
    }
    let v = sym(2, "value");
    assume((v[0] != 0) & (v[0] < 128));
    Entry { oid, text, val: [v[0], v[1]] }
}
/// The reply of a conforming agent
fn reply(d: &'static [u8]) -> Vec<u8> {
    let a = agent();
    a.asked += 1;
    let (reqid, msg_id) = ids_of(a.ver, &a.u, d);
    let sp;
    let p = if a.ver == 3 {
        let q = read_v3(d);
        sp = open_scoped(&a.u, &q);
        read_scoped(&sp).3
    } else {
        read_community(d)
    };
    check(p.ok && p.oids.len() == 1, "one OID is asked for");
    check(p.tag == if a.bulk { GETBULK } else { GETNEXT }, "PDU type");
    if p.oids.len() != 1 {
        return Vec::new();
    }
    let o = p.oids[0];
    // what is asked for: the base or an entry
    let mut cur: Option<&Oid> = None;
    let w = a.base.ber();
    if o.len() == w.len() && sxrt::eq(o, &w) {
        cur = Some(&a.base);
    } else {
        for e in &a.mib {
            let w = e.oid.ber();
            if o.len() == w.len() && sxrt::eq(o, &w) {
                cur = Some(&e.oid);
            }
        }
    }
    let cur = match cur {
        Some(x) => x,
        None => {
            fail("request for the base or an entry of the MIB");
            return Vec::new();
        }
    };
    let mut vars: Vec<Vec<u8>> = Vec::new();
    let mut at = 0;
    while at < a.mib.len() && !cur.less(&a.mib[at].oid) {
        at += 1;
    }
    let mut last = cur.ber();
    let rows = if a.bulk {
        check((p.f1 == 0) & (p.f2 == a.rep), "non-repeaters and max-repetitions");
        if (a.rep as usize) < a.cap { a.rep as usize } else { a.cap }
    } else {
        1
    };
    let mut status = 0;
    for _ in 0..rows {
        if at < a.mib.len() {
            let e = &a.mib[at];
            vars.push(varbind(&e.oid.ber(), &tlv(2, &e.val)));
            last = e.oid.ber();
            at += 1;
        } else if a.ver == 0 {
            // noSuchName
            status = 2;
            vars.push(varbind(&last, &null()));
        } else {
            vars.push(varbind(&last, &tlv(0x82, &[])));
            if a.ending == 0 {
                break;
            }
        }
    }
    let pdu = pdu_raw(RESPONSE, &int_n(reqid, 4), status, (status != 0) as i64, &vars);
    wrap(a.ver, &a.u, msg_id, &pdu)
}
fn answers(d: &'static [u8]) {
    let m = reply(d);
    arrive(&m, 0);
}
/// args: version, security, operation, sync, classes of the base's arcs, max-repetitions, cap, ending, entries, classes of each entry's arcs
#[unsafe(no_mangle)]
pub extern "C" fn h_c05() {
    let (ver, sec, op) = (sxrt::arg(0), sxrt::arg(1), sxrt::arg(2));
    let sync = sxrt::arg(3) == 1;
    uf::laws_on_demand();
    let base = entry(sxrt::arg(4), 17);
    let rep = sxrt::arg(5) as i64;
    let k = sxrt::arg(8);
    let mut c = Ctx::open(ver, sec, op, if sync { 1_000_000_000 } else { 0 });
    let mib: Vec<Entry> = (0..k).map(|i| entry(sxrt::arg(9 + i), 10 + i)).collect();
    for i in 1..mib.len() {
        assume(mib[i - 1].oid.less(&mib[i].oid));
    }
    let t = unsafe { std::str::from_utf8_unchecked(leak(&base.text)) };
    c.it = Some(get_iter(t, Some(rep)));
    unsafe { AGENT = Some(Agent { mib, base: base.oid.clone(), cap: sxrt::arg(6) as usize, ending: sxrt::arg(7), ver, u: c.u.clone(), bulk: op == OP_BULK, rep, asked: 0 }) };
    if sync {
        world().agent = Some(answers);
    }
    let mut got: Vec<(Val, Val)> = Vec::new();
    let mut ended = false;
    for _ in 0..k + 2 {
        let r = if sync {
            c.call()
        } else {
            check(c.send().is_ok(), "request is sent");
            answers(last_sent());
            c.recv()
        };
        match r {
            Ok(v) => match (op, val(&v)) {
                (OP_NEXT, v) => match pair(&v) {
                    Some(x) => got.push(x),
                    None => return fail("a pair is yielded"),
                },
                (_, Val::List(l)) => {
                    check(!l.borrow().is_empty(), "something is yielded");
                    for v in l.borrow().iter() {
                        if is_none(v) {
                            ended = true;
                            break;
                        }
                        match pair(v) {
                            Some(x) => got.push(x),
                            None => return fail("a pair is yielded"),
                        }
                    }
                }
                _ => return fail("a list is yielded"),
            },
            Err(e) => {
                check(is_stop(&e), "walk ends in order");
                ended = true;
            }
        }
        if ended {
            break;
        }
    }
    check(ended, "walk ends");
    let a = agent();
    let mut n = 0;
    for e in &a.mib {
        if e.oid.under(&a.base) {
            if n >= got.len() {
                return fail("every entry is yielded");
            }
            check(is_str(&got[n].0, &e.text), "names, in order");
            check(is_int(&got[n].1, be_int(&e.val)), "values");
            n += 1;
        }
    }
    check(got.len() == n, "nothing but the entries below the base is yielded");
    let _ = asked;
    reach(1);
    if n > 0 {
        reach(2);
    }
}
