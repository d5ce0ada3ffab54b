//! C14: salts of consecutive messages; nothing of the scoped PDU in clear.
use super::c11::{history, setup};
use super::common::*;

fn counter(privacy: u8, salt: &[u8]) -> u64 {
    let mut v = 0u64;
    for x in if privacy == 1 { &salt[4..] } else { salt } {
        v = (v << 8) | *x as u64;
    }
    v
}
/// Judge the latest message -> its counter
fn judge(c: &Ctx, d: &'static [u8]) -> u64 {
    let q = read_v3(d);
    check(q.ok, "message is well-formed");
    check(q.salt.len() == 8, "8 octets of privacy parameters");
    check(q.flags & 2 == 2, "priv flag is set");
    check(q.data_tag == 4, "msgData is an OCTET STRING");
    if !q.ok || q.salt.len() != 8 || q.data_tag != 4 {
        return 0;
    }
    if c.u.privacy == 1 {
        check(sxrt::eq(&q.salt[..4], &(q.boots as u32).to_be_bytes()), "salt begins with engine boots");
    }
    // every octet of the message but those of msgData is accounted for
    let params: Vec<u8> = q.auth.to_vec();
    let m = V3 {
        msg_id: int_n(q.msg_id, 4),
        max_size: q.max_size,
        flags: q.flags,
        engine: c.u.engine.clone(),
        boots: int_n(q.boots, int_size(q.boots)),
        time: int_n(q.time, int_size(q.time)),
        user: c.u.user.clone(),
        salt: q.salt.to_vec(),
        data: octets(q.data),
    };
    let (want, _) = v3_msg(&m, &params);
    check(want.len() == d.len() && sxrt::eq(&want, d), "nothing else in the message");
    if c.u.privacy == 1 && q.data.len() % 8 != 0 {
        fail("whole blocks");
        return 0;
    }
    // and all of msgData is the result of the cipher
    let sp = open_scoped(&c.u, &q);
    let (ok, _, _, _, rest) = read_scoped(&sp);
    check(ok, "msgData decrypts to the scoped PDU");
    check(rest < if c.u.privacy == 1 { 8 } else { 16 }, "less than a block of padding");
    counter(c.u.privacy, q.salt)
}
/// args: auth, privacy, first operation, key kind, engine id size, history, messages, stride, first interlude, later ones (6: any)
#[unsafe(no_mangle)]
pub extern "C" fn h_c14() {
    let mut g = setup();
    let clock = history(&mut g, sxrt::arg(5));
    let c = &mut g.c;
    let k = sxrt::arg(6);
    let first = c.op;
    let mut prev = 0;
    let mut skipped = 0u64;
    let mask = if c.u.privacy == 1 { 0xffff_ffff } else { u64::MAX };
    let mut clock = clock;
    for i in 0..k {
        c.op = (first + i * sxrt::arg(7)) % 5;
        if c.op == OP_NEXT || c.op == OP_BULK {
            c.it = Some(get_iter(BASE, Some(10)));
        }
        let n = world().sent.len();
        let r = c.send();
        check(r.is_ok() && world().sent.len() == n + 1, "request is sent");
        c.learn();
        let q = read_v3(last_sent());
        if let Some((b, t)) = clock {
            check((q.boots == b) & (q.time == t), "boots and time");
        }
        let x = judge(c, last_sent());
        if i > 0 {
            let d = x.wrapping_sub(prev) & mask;
            if skipped == 0 {
                check(d == 1, "counter advances by one");
            } else {
                check((d >= 1) & (d <= 1 + skipped), "counter advances");
            }
            reach(1);
        }
        prev = x;
        skipped = 0;
        let what = if i == 0 { sxrt::arg(8) } else if i + 1 < k { if sxrt::arg(9) == 6 { choose(6) } else { sxrt::arg(9) } } else { 0 };
        match what {
            1 => {
                let tag = if c.op == OP_REFRESH { REPORT } else { RESPONSE };
                let m = c.wrap(&pdu_raw(tag, &c.reqid_tlv(), 0, 0, &[vb(1)]));
                arrive(&m, 0);
                check(c.recv().is_ok(), "reply is delivered");
                clock = Some((7, 700));
            }
            2 => {
                check(c.recv().is_err(), "silence");
            }
            3 => {
                let (b, t) = (sym(4, "boots"), sym(4, "time"));
                assume((b[0] < 128) & (t[0] < 128) & ((b[0] != 0) | (b[1] >= 128)) & ((t[0] != 0) | (t[1] >= 128)));
                let (bv, tv) = (be_int(&b), be_int(&t));
                let m = v3_reply(&c.u, &int_n(c.msg_id, 4), (bv, 4), (tv, 4), &pdu_raw(REPORT, &c.reqid_tlv(), 0, 0, &[]), &sym(8, "salt"));
                arrive(&m, 0);
                let _ = c.recv();
                clock = Some((bv, tv));
            }
            4 => {
                let big: Vec<&str> = vec!["1.3.6.1.4.1.2021.10.1.3.1.1.1.1.1.1.1.1.1.1.1.1"; 200];
                let n = world().sent.len();
                check(c.sock.send_get_many(&big).is_err(), "does not fit");
                check(world().sent.len() == n, "nothing is sent");
                skipped = 1;
            }
            5 => {
                // an undecryptable reply
                let m = V3 { msg_id: c_msg_id(), max_size: 65507, flags: 3, engine: c.u.engine.clone(), boots: int(7), time: int_n(700, 2), user: c.u.user.clone(), salt: vec![1, 2, 3, 4, 5, 6, 7], data: octets(&[9; 24]) };
                let m = sign(&c.u, &m);
                arrive(&m, 0);
                check(c.recv().is_err(), "silence");
            }
            _ => {}
        }
    }
}
fn c_msg_id() -> Vec<u8> {
    int_n(read_v3(last_sent()).msg_id, 4)
}
