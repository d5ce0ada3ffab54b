//! C17: requests which do not fit are refused, those which do are sent complete; buffer operations stay in bounds
use super::common::*;
use crate::buf::Buffer;
use crate::buf::get_buffer_pool;
use std::mem::MaybeUninit;

pub const LIMIT: usize = 4080;

/// Size of a TLV with n octets of content
fn t(n: usize) -> usize {
    n + if n < 128 {
        2
    } else if n < 256 {
        3
    } else if n < 65536 {
        4
    } else {
        5
    }
}
pub const LONG_OID: u64 = 0; // one long OID
pub const MANY: u64 = 1; // many OIDs
pub const NAME: u64 = 2; // community or user
pub const ENGINE_ID: u64 = 3; // engine id of up to 64 octets, long OID
/// What is asked
struct Ask {
    ver: u64,
    u: Usm,
    community: Vec<u8>,
    op: u64,
    /// octets of each OID
    oids: Vec<usize>,
}
impl Ask {
    /// Size of the message with 4-octet ids, by X.690
    fn size(&self) -> usize {
        let vars: usize = self.oids.iter().map(|n| t(t(*n) + 2)).sum();
        let pdu = t(6 + 3 + if self.op == OP_BULK { 3 } else { 3 } + t(vars));
        if self.ver != 3 {
            return t(3 + t(self.community.len()) + pdu);
        }
        let eid = t(self.u.engine.len());
        let sp = t(eid + 2 + pdu);
        let (auth, salt) = (if self.u.auth != 0 { 14 } else { 2 }, if self.u.privacy != 0 { 10 } else { 2 });
        let data = match self.u.privacy {
            1 => t((sp + 7) / 8 * 8),
            // any number of octets will do, see `slack`
            2 => t(sp),
            _ => sp,
        };
        let usm = t(t(eid + 3 + 3 + t(self.u.user.len()) + auth + salt));
        t(3 + t(6 + 4 + 3 + 3) + usm + data)
    }
    /// The code may pad the data of AES to the block
    fn slack(&self) -> usize {
        if self.ver == 3 && self.u.privacy == 2 { 16 } else { 0 }
    }
    fn open(&self) -> Sock {
        let text = unsafe { String::from_utf8_unchecked(self.community.clone()) };
        match self.ver {
            0 => open_v1(&text, 0),
            1 => open_v2(&text, 0),
            _ => self.u.open(0),
        }
    }
    fn text(&self) -> Vec<String> {
        self.oids.iter().enumerate().map(|(i, n)| oid_text(*n, i)).collect()
    }
    fn send(&self, s: &mut Sock, whole: bool) -> PyResult<()> {
        let o = self.text();
        let v: Vec<&str> = o.iter().map(|x| x.as_str()).collect();
        if whole {
            // the call of the sync client, which finds nobody
            let r = match self.op {
                OP_GET => s.get(v[0]),
                OP_MANY => s.get_many(&v),
                OP_NEXT => s.get_next(&mut get_iter(v[0], None)),
                OP_BULK => s.get_bulk(&mut get_iter(v[0], Some(20))),
                _ => s.refresh(),
            };
            return match r {
                Ok(_) => {
                    fail("nobody answered");
                    Ok(())
                }
                Err(e) if is::<crate::error::PySnmpEncodeError>(&e) => Err(e),
                Err(e) => {
                    check(is::<exceptions::PyBlockingIOError>(&e) || is::<exceptions::PyTimeoutError>(&e), "exception of a call which is not answered");
                    Ok(())
                }
            };
        }
        match self.op {
            OP_GET => s.send_get(v[0]),
            OP_MANY => s.send_get_many(&v),
            OP_NEXT => s.send_get_next(&get_iter(v[0], None)),
            OP_BULK => s.send_get_bulk(&get_iter(v[0], Some(20))),
            _ => s.send_refresh(),
        }
    }
    /// The message is all there
    fn complete(&self, d: &[u8]) {
        check(d.len() <= LIMIT + 16, "size of the message");
        if !sxrt::is_init(d) {
            return fail("octets which were never written are sent");
        }
        let sp;
        let p = if self.ver != 3 {
            let q = read_community(d);
            check(q.ok, "message is well-formed");
            check(q.version == self.ver as i64, "version");
            check(q.community.len() == self.community.len() && sxrt::eq(q.community, &self.community), "community");
            q
        } else {
            let q = read_v3(d);
            check(q.ok, "message is well-formed");
            if !q.ok {
                return;
            }
            check(q.user.len() == self.u.user.len() && sxrt::eq(q.user, &self.u.user), "user");
            check(q.engine.len() == self.u.engine.len() && sxrt::eq(q.engine, &self.u.engine), "engine id");
            check((q.boots == 0) & (q.time == 0), "clock");
            if self.u.auth != 0 {
                check(q.auth.len() == 12, "authentication parameters");
                if q.auth.len() == 12 {
                    let mut z = d.to_vec();
                    for i in 0..12 {
                        z[q.auth_off + i] = 0;
                    }
                    check(sxrt::eq(q.auth, &hmac96(self.u.auth, &self.u.auth_key, &z)), "MAC");
                }
            }
            if self.u.privacy != 0 && (q.salt.len() != 8 || q.data_tag != 4 || self.u.privacy == 1 && q.data.len() % 8 != 0) {
                return fail("privacy parameters");
            }
            sp = open_scoped(&self.u, &q);
            let (ok, eid, name, p, rest) = read_scoped(&sp);
            check(ok && name.is_empty() && rest < 16, "scoped PDU is well-formed");
            check(eid.len() == self.u.engine.len() && sxrt::eq(eid, &self.u.engine), "context engine id");
            p
        };
        check(p.tag == [GET, GET, GETNEXT, GETBULK, GET][self.op as usize], "PDU type");
        check((p.f1 == 0) & (p.f2 == if self.op == OP_BULK { 20 } else { 0 }), "fields of the PDU");
        check(p.oids.len() == self.oids.len(), "number of OIDs");
        if p.oids.len() == self.oids.len() {
            for (i, o) in p.oids.iter().enumerate() {
                check(o.len() == self.oids[i] && sxrt::eq(o, &oid_octets(self.oids[i], i)), "OID");
            }
        }
    }
    /// Sent complete, or refused
    fn judge(&self, s: &mut Sock, whole: bool) -> bool {
        let size = self.size();
        let n = world().sent.len();
        let r = self.send(s, whole);
        match r {
            Ok(()) => {
                check(world().sent.len() == n + 1, "one datagram is sent");
                if world().sent.len() == n + 1 {
                    let d = last_sent();
                    // ids take no more than counted
                    check(d.len() <= size + self.slack(), "size of the message");
                    check(d.len() <= LIMIT, "what does not fit is refused");
                    self.complete(d);
                }
                true
            }
            Err(e) => {
                check(is::<crate::error::PySnmpEncodeError>(&e), "SnmpEncodeError");
                check(world().sent.len() == n, "nothing is sent");
                check(size + self.slack() > LIMIT, "what fits is sent");
                false
            }
        }
    }
}
fn oid_arc(i: usize, k: usize) -> u8 {
    ((i * 7 + k * 3) % 100) as u8
}
fn oid_text(n: usize, k: usize) -> String {
    let mut s = Vec::with_capacity(3 * n + 3);
    s.extend_from_slice(b"1.3");
    for i in 1..n {
        let v = oid_arc(i, k);
        s.push(b'.');
        if v >= 10 {
            s.push(b'0' + v / 10);
        }
        s.push(b'0' + v % 10);
    }
    unsafe { String::from_utf8_unchecked(s) }
}
fn oid_octets(n: usize, k: usize) -> Vec<u8> {
    let mut v = vec![43u8];
    for i in 1..n {
        v.push(oid_arc(i, k));
    }
    v
}
fn ascii(n: usize, name: &str) -> Vec<u8> {
    let mut v = sym(n, name);
    for x in v.iter_mut() {
        *x &= 0x7f;
    }
    v
}
/// Ask of the given kind with the largest size not above the target
fn ask(ver: u64, sec: u64, op: u64, kind: u64, target: usize, small: bool) -> Ask {
    let mut a = Ask { ver, u: no_usm(), community: COMMUNITY.as_bytes().to_vec(), op, oids: vec![9] };
    if ver == 3 {
        a.u = Usm::any((sec / 10) as u8, (sec % 10) as u8);
    }
    if op == OP_REFRESH {
        a.oids.clear();
    }
    if op == OP_MANY {
        a.oids.push(9);
    }
    if small {
        return a;
    }
    let mut n = 0;
    // most of it at once
    let room = target.saturating_sub(a.size() + 60);
    match kind {
        LONG_OID | ENGINE_ID => {
            n = a.oids.len() - 1;
            a.oids[n] += room / 2 * 2
        }
        MANY => {
            for _ in 0..room / 18 {
                a.oids.push(11);
            }
        }
        _ => {
            if ver == 3 {
                a.u.user.resize(4 + room, 0)
            } else {
                a.community.resize(6 + room, 0)
            }
        }
    }
    loop {
        // one more
        match kind {
            LONG_OID | ENGINE_ID => {
                n = a.oids.len() - 1;
                a.oids[n] += 1;
            }
            MANY => {
                n = a.oids.len() - 1;
                if a.oids[n] < 11 {
                    a.oids[n] += 1;
                } else {
                    a.oids.push(2);
                }
            }
            _ => {
                if ver == 3 {
                    a.u.user.push(0)
                } else {
                    a.community.push(0)
                }
            }
        }
        if a.size() > target {
            // one back
            match kind {
                LONG_OID | ENGINE_ID => a.oids[n] -= 1,
                MANY => {
                    if n + 1 < a.oids.len() {
                        a.oids.pop();
                    } else {
                        a.oids[n] -= 1
                    }
                }
                _ => {
                    if ver == 3 {
                        a.u.user.pop();
                    } else {
                        a.community.pop();
                    }
                }
            }
            break;
        }
    }
    let l = a.community.len();
    let m = a.u.user.len();
    if kind == NAME {
        if ver == 3 {
            a.u.user = ascii(m, "user");
        } else {
            a.community = ascii(l, "community");
        }
    }
    a
}
/// args: version, security, operation, kind, target size, number of sizes, step, engine id size (0: usual), sync call
#[unsafe(no_mangle)]
pub extern "C" fn h_c17_size() {
    let (ver, sec, op, kind) = (sxrt::arg(0), sxrt::arg(1), sxrt::arg(2), sxrt::arg(3));
    let target = (sxrt::arg(4) + choose(sxrt::arg(5)) * sxrt::arg(6)) as usize;
    let whole = sxrt::arg(8) != 0;
    uf::inverses_only();
    rand::wide();
    let mut a = ask(ver, sec, op, kind, target, false);
    if sxrt::arg(7) != 0 {
        a.u.engine = sym(sxrt::arg(7) as usize, "engine");
    }
    let mut s = a.open();
    // the session is used for others before and after
    let mut b = Ask { ver, u: a.u.clone(), community: a.community.clone(), op: OP_GET, oids: vec![5] };
    b.judge(&mut s, false);
    if a.judge(&mut s, whole) {
        reach(1);
    } else {
        reach(2);
    }
    b.op = OP_NEXT;
    b.judge(&mut s, whole);
    if target > LIMIT {
        // again, and again what fits
        a.judge(&mut s, false);
        b.op = OP_GET;
        b.judge(&mut s, false);
    }
}

/// Replies of many sizes: delivered or not, never with octets of another message
/// args: version, security, size of the value, number of sizes, step
#[unsafe(no_mangle)]
pub extern "C" fn h_c17_reply() {
    let (ver, sec) = (sxrt::arg(0), sxrt::arg(1));
    let n = (sxrt::arg(2) + choose(sxrt::arg(3)) * sxrt::arg(4)) as usize;
    uf::inverses_only();
    rand::wide();
    let mut c = Ctx::open(ver, sec, OP_GET, 0);
    for _ in 0..2 {
        c.request();
        let v = sym(n, "value");
        let m = c.response(&[varbind(&[43, 6, 1, 2, 1, 2, 1, 0], &octets(&v))]);
        let fits = m.len() <= LIMIT;
        arrive(&m, 0);
        match c.recv() {
            Ok(r) => {
                check(fits, "what is delivered was received in full");
                check(match val(&r) { Val::Bytes(x) => x.len() == n && sxrt::is_init(x) && sxrt::eq(x, &v), _ => false }, "value");
                reach(1);
            }
            Err(e) => {
                check(!fits, "reply which fits is delivered");
                check(documented(&e), "documented exception");
                reach(2);
            }
        }
    }
}

/// Shadow of the buffer: what was pushed, the latest one last; None: reserved by skip
struct Shadow {
    d: Vec<Option<u8>>,
    /// distance of the bookmark from the end
    mark: Option<usize>,
}
impl Shadow {
    fn same(&self, b: &Buffer) {
        let n = self.d.len();
        check(b.len() == n && b.free() == LIMIT - n && b.is_empty() == (n == 0) && b.is_full() == (n == LIMIT), "sizes");
        let x = b.data();
        check(x.len() == n, "size of data");
        if x.len() != n {
            return;
        }
        // the front and the back, where the operations work
        let k = n.min(300);
        for i in (0..k).chain(n - k.min(3)..n) {
            if let Some(v) = self.d[n - 1 - i] {
                check(sxrt::is_init(&x[i..i + 1]), "octet was written");
                check(x[i] == v, "octet of data");
            }
        }
        if let Some(m) = self.mark {
            if m <= n {
                check(b.get_bookmark() == n - m, "bookmark");
            }
        }
        let r = [0usize, 1, 5, 4079, 4080].map(|q| b.ensure_size(q).is_ok() == (q <= LIMIT - n));
        check(r.iter().all(|x| *x), "ensure_size");
    }
    fn put(&mut self, c: &[u8]) {
        for x in c.iter().rev() {
            self.d.push(Some(*x));
        }
    }
}
fn tag_len(tag: u8, v: usize) -> Vec<u8> {
    if v < 128 {
        vec![tag, v as u8]
    } else if v < 256 {
        vec![tag, 0x81, v as u8]
    } else {
        vec![tag, 0x82, (v >> 8) as u8, v as u8]
    }
}
/// a size around what is free
fn around(free: usize, i: u64) -> usize {
    match i {
        0 => 0,
        1 => 1,
        2 => free.saturating_sub(2),
        3 => free.saturating_sub(1),
        4 => free,
        5 => free + 1,
        6 => free.saturating_sub(3),
        7 => free.saturating_sub(4),
        8 => free.saturating_sub(5),
        9 => LIMIT,
        10 => LIMIT + 1,
        11 => 127,
        12 => 128,
        13 => 255,
        14 => 256,
        _ => 2,
    }
}
fn step(b: &mut Buffer, s: &mut Shadow, op: u64, size: u64) {
    let free = LIMIT - s.d.len();
    match op {
        0 => {
            let x = sxrt::u8("octet");
            let r = b.push_u8(x);
            check(r.is_ok() == (free > 0), "push_u8");
            if free > 0 {
                s.put(&[x]);
            }
        }
        1 => {
            let n = around(free, size);
            let c = sym(n, "chunk");
            let r = b.push(&c);
            check(r.is_ok() == (n <= free), "push");
            if n <= free {
                s.put(&c);
            }
        }
        2 => {
            let tag = sxrt::u8("tag");
            let v = sxrt::u64("length") as usize;
            // 0: short form, 1, 2: long form, 3: does not exist
            let k = match size % 4 {
                0 => {
                    assume(v < 128);
                    2
                }
                1 => {
                    assume((v >= 128) & (v < 256));
                    3
                }
                2 => {
                    assume((v >= 256) & (v < 65536));
                    4
                }
                _ => {
                    assume(v >= 65536);
                    // in bounds, whatever it comes to
                    let r = b.push_tag_len(tag, v);
                    if r.is_ok() {
                        let n = b.len();
                        check(n >= s.d.len() && n <= LIMIT, "push_tag_len");
                        while s.d.len() < n {
                            s.d.push(None);
                        }
                    }
                    return;
                }
            };
            let r = b.push_tag_len(tag, v);
            check(r.is_ok() == (k <= free), "push_tag_len");
            if k <= free {
                s.put(&tag_len(tag, v));
            }
        }
        3 => {
            let n = around(free, size);
            let c = sym(n, "chunk");
            let tag = sxrt::u8("tag");
            let h = tag_len(tag, n);
            let r = b.push_tagged(tag, &c);
            check(r.is_ok() == (n + h.len() <= free), "push_tagged");
            if r.is_ok() {
                s.put(&c);
                s.put(&h);
            } else {
                // the content may be left there
                check(b.len() == s.d.len() || n <= free && b.len() == s.d.len() + n, "push_tagged leaves");
                if b.len() > s.d.len() {
                    s.put(&c);
                }
            }
        }
        4 => {
            let n = if size == 16 { usize::MAX } else { around(free, size) };
            b.skip(n);
            for _ in 0..n.min(free) {
                s.d.push(None);
            }
        }
        5 => {
            b.reset();
            s.d.clear();
            s.mark = None;
        }
        6 => {
            let delta = if s.d.is_empty() { 0 } else { size as usize % s.d.len().min(20) };
            b.set_bookmark(delta);
            s.mark = Some(s.d.len() - delta);
        }
        7 => {
            // what data_mut gives is what data shows
            let n = s.d.len();
            let m = b.data_mut();
            check(m.len() == n, "data_mut");
            if n > 0 && m.len() == n {
                let v = sxrt::u8("written");
                let i = if size % 2 == 0 { 0 } else { n - 1 };
                m[i] = v;
                s.d[n - 1 - i] = Some(v);
            }
            let m: &mut [u8] = b.as_mut();
            check(m.len() == n, "as_mut");
        }
        8 => {
            // as it is used to receive
            let k = [0usize, 1, 300, LIMIT][size as usize % 4];
            let c = sym(k, "received");
            {
                let m: &mut [MaybeUninit<u8>] = b.as_mut();
                check(m.len() == LIMIT, "room to receive");
                for i in 0..k {
                    m[i] = MaybeUninit::new(c[i]);
                }
            }
            check(sxrt::eq(b.as_slice(k), &c), "what was received");
            // in place of what was there
            let n = s.d.len();
            for i in 0..k {
                let at = LIMIT - 1 - i;
                if at < n {
                    s.d[at] = Some(c[i]);
                }
            }
        }
        _ => {
            // through the pool: the next one is empty
            {
                let mut h = get_buffer_pool().acquire();
                let x = h.as_mut();
                check(x.is_empty() && x.len() == 0, "buffer of the pool");
                let _ = x.push(&[1, 2, 3]);
                x.set_bookmark(1);
                if size % 2 == 0 {
                    x.skip(LIMIT);
                }
            }
            let mut h = get_buffer_pool().acquire();
            let mut h2 = get_buffer_pool().acquire();
            let (x, y) = (h.as_mut(), h2.as_mut());
            check(x.is_empty() && y.is_empty() && x.free() == LIMIT && y.free() == LIMIT, "buffer of the pool");
            check(x.push(&[9, 9]).is_ok() && y.push(&[8]).is_ok() && x.data() == [9, 9] && y.data() == [8], "buffers of the pool");
        }
    }
}
fn variants(op: u64) -> u64 {
    match op {
        1 | 3 => 16,
        2 => 4,
        4 => 17,
        6 => 3,
        7 | 9 => 2,
        8 => 4,
        _ => 1,
    }
}
/// args: number of operations, first operations (op + 100 * size; -1: any) ...
#[unsafe(no_mangle)]
pub extern "C" fn h_c17_ops() {
    let n = sxrt::arg(0);
    let mut b = Buffer::default();
    let mut s = Shadow { d: Vec::with_capacity(2 * LIMIT), mark: None };
    s.same(&b);
    for i in 0..n {
        let x = sxrt::arg(1 + i);
        let (op, size) = if x < 100000 {
            (x % 100, x / 100)
        } else {
            let op = choose(10);
            (op, choose(variants(op)))
        };
        step(&mut b, &mut s, op, size);
        s.same(&b);
    }
    reach(1);
}
