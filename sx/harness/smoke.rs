use super::common::*;
#[unsafe(no_mangle)]
pub extern "C" fn h_smoke_v3() {
    let u = Usm::any(sxrt::arg(0) as u8, sxrt::arg(1) as u8);
    let mut s = u.open(0);
    let r = s.send_get("1.3.6.1.2.1.1.5.0");
    check(r.is_ok(), "send");
    let q = read_v3(last_sent());
    check(q.ok, "well-formed");
    let sp = open_scoped(&u, &q);
    let (ok, eid, name, p, rest) = read_scoped(&sp);
    check(ok, "scoped");
    wide_ids(p.reqid);
    wide_ids(q.msg_id);
    let pdu = pdu_raw(RESPONSE, &int_n(p.reqid, 4), 0, 0, &[varbind(p.oids[0], &int_n(77, 1))]);
    arrive(&v3_reply(&u, &int_n(q.msg_id, 4), (5, 1), (700, 2), &pdu, &[1, 2, 3, 4, 5, 6, 7, 8]), 0);
    match s.recv_get() {
        Ok(v) => { check(is_int(&val(&v), 77), "value"); reach(1) }
        Err(_) => fail("not delivered"),
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn h_smoke_bad() {
    let x = sxrt::u32("x");
    check(x != 0x12345, "found");
}
