//! Shared by all harnesses: sessions, an independent BER writer and strict reader
//! (X.690 definite minimal form, RFC 3416 / 3412 / 3414 layouts), the agent side of USM.
#![allow(dead_code)]
pub use crate::snmp::op::GetIter;
pub use crate::socket::{SnmpV1ClientSocket, SnmpV2cClientSocket, SnmpV3ClientSocket};
pub use pyo3::prelude::*;
pub use pyo3::pybacked::PyBackedStr;
pub use pyo3::{PyTypeInfo, Val, exceptions};
pub use socket2::{arrive, world};
pub use sxrt::{assume, check, choose, fail, reach, uf};

pub fn py() -> Python<'static> {
    Python::model()
}
pub fn leak(s: &[u8]) -> &'static [u8] {
    Vec::leak(s.to_vec())
}
pub fn pystr(s: &str) -> PyBackedStr {
    PyBackedStr(unsafe { std::str::from_utf8_unchecked(leak(s.as_bytes())) })
}

// ---- sessions ---------------------------------------------------------------

pub const ADDR: &str = "127.0.0.1:161";

pub enum Sock {
    V1(SnmpV1ClientSocket),
    V2(SnmpV2cClientSocket),
    V3(SnmpV3ClientSocket),
}
macro_rules! all {
    ($self:ident, $s:ident => $e:expr) => {
        match $self {
            Sock::V1($s) => $e,
            Sock::V2($s) => $e,
            Sock::V3($s) => $e,
        }
    };
}
pub type R = PyResult<PyObject>;
impl Sock {
    pub fn send_get(&mut self, oid: &str) -> PyResult<()> {
        let o = pystr(oid);
        all!(self, s => s.send_get(py(), o))
    }
    pub fn send_get_many(&mut self, oids: &[&str]) -> PyResult<()> {
        let o: Vec<PyBackedStr> = oids.iter().map(|x| pystr(x)).collect();
        all!(self, s => s.send_get_many(py(), o))
    }
    pub fn send_get_next(&mut self, it: &GetIter) -> PyResult<()> {
        all!(self, s => s.send_get_next(py(), it))
    }
    pub fn send_get_bulk(&mut self, it: &GetIter) -> PyResult<()> {
        all!(self, s => s.send_get_bulk(py(), it))
    }
    pub fn send_refresh(&mut self) -> PyResult<()> {
        match self {
            Sock::V3(s) => s.send_refresh(py()),
            _ => Ok(()),
        }
    }
    pub fn recv_get(&mut self) -> R {
        all!(self, s => s.recv_get(py()))
    }
    pub fn recv_get_many(&mut self) -> R {
        all!(self, s => s.recv_get_many(py()))
    }
    pub fn recv_get_next(&mut self, it: &mut GetIter) -> R {
        all!(self, s => s.recv_get_next(py(), it))
    }
    pub fn recv_get_bulk(&mut self, it: &mut GetIter) -> R {
        all!(self, s => s.recv_get_bulk(it, py()))
    }
    pub fn recv_refresh(&mut self) -> R {
        match self {
            Sock::V3(s) => s.recv_refresh(py()),
            _ => Ok(Py::from_val(Val::None)),
        }
    }
    pub fn get(&mut self, oid: &str) -> R {
        let o = pystr(oid);
        all!(self, s => s.get(py(), o))
    }
    pub fn get_many(&mut self, oids: &[&str]) -> R {
        let o: Vec<PyBackedStr> = oids.iter().map(|x| pystr(x)).collect();
        all!(self, s => s.get_many(py(), o))
    }
    pub fn get_next(&mut self, it: &mut GetIter) -> R {
        all!(self, s => s.get_next(py(), it))
    }
    pub fn get_bulk(&mut self, it: &mut GetIter) -> R {
        all!(self, s => s.get_bulk(py(), it))
    }
    pub fn refresh(&mut self) -> R {
        match self {
            Sock::V3(s) => s.refresh(py()),
            _ => Ok(Py::from_val(Val::None)),
        }
    }
}

/// Security configuration of a v3 session, as the agent knows it
#[derive(Clone)]
pub struct Usm {
    pub auth: u8,      // 0, 1 MD5, 2 SHA-1
    pub privacy: u8,   // 0, 1 DES, 2 AES
    pub auth_key: Vec<u8>, // localized
    pub priv_key: Vec<u8>, // localized with the auth digest
    pub user: Vec<u8>,
    pub engine: Vec<u8>,
}
pub const ENGINE: [u8; 9] = [0x80, 0, 0x1f, 0x88, 4, 0x61, 0x62, 0x63, 0x64];

pub fn key_len(auth: u8) -> usize {
    match auth {
        1 => 16,
        2 => 20,
        _ => 0,
    }
}
impl Usm {
    /// Localized keys of arbitrary content
    pub fn any(auth: u8, privacy: u8) -> Usm {
        let mut auth_key = vec![0u8; key_len(auth)];
        let mut priv_key = vec![0u8; if privacy != 0 { key_len(auth) } else { 0 }];
        sxrt::symbolic(&mut auth_key, "auth_key");
        sxrt::symbolic(&mut priv_key, "priv_key");
        Usm { auth, privacy, auth_key, priv_key, user: b"user".to_vec(), engine: ENGINE.to_vec() }
    }
    pub fn open(&self, timeout_ns: u64) -> Sock {
        let r = SnmpV3ClientSocket::new(
            ADDR.to_string(),
            self.engine.clone(),
            unsafe { String::from_utf8_unchecked(self.user.clone()) },
            if self.auth == 0 { 0 } else { self.auth | 0x80 },
            &self.auth_key,
            if self.privacy == 0 { 0 } else { self.privacy | 0x80 },
            &self.priv_key,
            0,
            0,
            0,
            timeout_ns,
        );
        match r {
            Ok(s) => Sock::V3(s),
            Err(_) => {
                fail("session could not be created");
                loop {}
            }
        }
    }
}
pub fn open_v1(community: &str, timeout_ns: u64) -> Sock {
    match SnmpV1ClientSocket::new(ADDR.to_string(), community.to_string(), 0, 0, 0, timeout_ns) {
        Ok(s) => Sock::V1(s),
        Err(_) => {
            fail("session could not be created");
            loop {}
        }
    }
}
pub fn open_v2(community: &str, timeout_ns: u64) -> Sock {
    match SnmpV2cClientSocket::new(ADDR.to_string(), community.to_string(), 0, 0, 0, timeout_ns) {
        Ok(s) => Sock::V2(s),
        Err(_) => {
            fail("session could not be created");
            loop {}
        }
    }
}

// ---- exceptions -------------------------------------------------------------

pub fn is<T: PyTypeInfo>(e: &PyErr) -> bool {
    e.is_instance_of::<T>(py())
}
/// One of the exceptions a receiving call may raise
pub fn documented(e: &PyErr) -> bool {
    use crate::error::*;
    is::<PySnmpError>(e)
        || is::<exceptions::PyOSError>(e) // TimeoutError, BlockingIOError
        || is::<exceptions::PyValueError>(e)
        || is::<exceptions::PyStopIteration>(e)
        || is::<exceptions::PyStopAsyncIteration>(e)
}

// ---- BER writer ---------------------------------------------------------------

pub fn cat(parts: &[&[u8]]) -> Vec<u8> {
    let mut v = Vec::with_capacity(parts.iter().map(|p| p.len()).sum::<usize>() + 8);
    for p in parts {
        v.extend_from_slice(p);
    }
    v
}
pub fn tlv(tag: u8, content: &[u8]) -> Vec<u8> {
    let n = content.len();
    let mut v = Vec::with_capacity(n + 4);
    v.push(tag);
    if n < 128 {
        v.push(n as u8);
    } else if n < 256 {
        v.push(0x81);
        v.push(n as u8);
    } else {
        v.push(0x82);
        v.push((n >> 8) as u8);
        v.push(n as u8);
    }
    v.extend_from_slice(content);
    v
}
/// Same, with `k` length octets after the initial one (0: short form)
pub fn tlv_long(tag: u8, content: &[u8], k: usize) -> Vec<u8> {
    let n = content.len();
    let mut v = vec![tag];
    if k == 0 {
        v.push(n as u8);
    } else {
        v.push(0x80 | k as u8);
        for i in (0..k).rev() {
            v.push(if i >= 8 { 0 } else { (n >> (8 * i)) as u8 });
        }
    }
    v.extend_from_slice(content);
    v
}
/// INTEGER of a value known to need exactly `n` octets
pub fn int_n(v: i64, n: usize) -> Vec<u8> {
    let mut c = Vec::with_capacity(n);
    for i in (0..n).rev() {
        c.push((v >> (8 * i)) as u8);
    }
    tlv(2, &c)
}
/// Number of octets of the minimal two's complement form
pub fn int_size(v: i64) -> usize {
    let mut n = 1;
    while n < 8 {
        let lo = -1i64 << (8 * n - 1);
        let hi = !lo;
        if v >= lo && v <= hi {
            return n;
        }
        n += 1;
    }
    8
}
/// INTEGER, minimal form (explores one path per size when the value is symbolic)
pub fn int(v: i64) -> Vec<u8> {
    int_n(v, int_size(v))
}
pub fn octets(b: &[u8]) -> Vec<u8> {
    tlv(4, b)
}
pub fn seq(parts: &[&[u8]]) -> Vec<u8> {
    tlv(0x30, &cat(parts))
}
pub fn null() -> Vec<u8> {
    vec![5, 0]
}
pub fn varbind(oid: &[u8], value: &[u8]) -> Vec<u8> {
    seq(&[&tlv(6, oid), value])
}
pub const GET: u8 = 0xa0;
pub const GETNEXT: u8 = 0xa1;
pub const RESPONSE: u8 = 0xa2;
pub const GETBULK: u8 = 0xa5;
pub const REPORT: u8 = 0xa8;
/// PDU with an already encoded request-id
pub fn pdu_raw(tag: u8, reqid: &[u8], f1: i64, f2: i64, vars: &[Vec<u8>]) -> Vec<u8> {
    let mut all = Vec::new();
    for v in vars {
        all.extend_from_slice(v);
    }
    tlv(tag, &cat(&[reqid, &int(f1), &int(f2), &tlv(0x30, &all)]))
}
pub fn community_msg(version: i64, community: &[u8], pdu: &[u8]) -> Vec<u8> {
    seq(&[&int(version), &octets(community), pdu])
}

// ---- USM ------------------------------------------------------------------------

pub fn digest(auth: u8, data: Vec<u8>) -> Vec<u8> {
    let n = key_len(auth);
    uf::hash(if auth == 1 { uf::MD5 } else { uf::SHA1 }, data, n)[..n].to_vec()
}
/// RFC 3414 sec. 6.3.1 / 7.3.1 (RFC 2104), truncated to 12 octets
pub fn hmac96(auth: u8, key: &[u8], msg: &[u8]) -> [u8; 12] {
    let mut k1 = Vec::with_capacity(64 + msg.len());
    let mut k2 = Vec::with_capacity(64 + 20);
    for i in 0..64 {
        let k = if i < key.len() { key[i] } else { 0 };
        k1.push(k ^ 0x36);
        k2.push(k ^ 0x5c);
    }
    k1.extend_from_slice(msg);
    k2.extend_from_slice(&digest(auth, k1));
    let d = digest(auth, k2);
    let mut out = [0u8; 12];
    out.copy_from_slice(&d[..12]);
    out
}
/// RFC 3414 sec. 8.1.1 (DES-CBC) encryption of a padded scoped PDU
pub fn des_cbc(key: &[u8], salt: &[u8], data: &[u8], decrypt: bool) -> Vec<u8> {
    let mut prev = [0u8; 8];
    for i in 0..8 {
        prev[i] = key[8 + i] ^ salt[i];
    }
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks(8) {
        if decrypt {
            let d = uf::decrypt(uf::DES, &key[..8], c);
            for i in 0..8 {
                out.push(d[i] ^ prev[i]);
            }
            prev.copy_from_slice(c);
        } else {
            let mut x = [0u8; 8];
            for i in 0..8 {
                x[i] = c[i] ^ prev[i];
            }
            let e = uf::encrypt(uf::DES, &key[..8], &x);
            out.extend_from_slice(&e[..8]);
            prev.copy_from_slice(&e[..8]);
        }
    }
    out
}
/// RFC 3826 sec. 3.1 (AES-128 CFB-128)
pub fn aes_cfb(key: &[u8], boots: u32, time: u32, salt: &[u8], data: &[u8], decrypt: bool) -> Vec<u8> {
    let mut prev = [0u8; 16];
    prev[..4].copy_from_slice(&boots.to_be_bytes());
    prev[4..8].copy_from_slice(&time.to_be_bytes());
    prev[8..].copy_from_slice(salt);
    let mut out = Vec::with_capacity(data.len());
    for c in data.chunks(16) {
        let k = uf::encrypt(uf::AES, &key[..16], &prev);
        for i in 0..c.len() {
            let o = c[i] ^ k[i];
            out.push(o);
            prev[i] = if decrypt { c[i] } else { o };
        }
    }
    out
}
pub struct V3 {
    /// encoded msgID
    pub msg_id: Vec<u8>,
    pub max_size: i64,
    pub flags: u8,
    pub engine: Vec<u8>,
    pub boots: Vec<u8>, // encoded
    pub time: Vec<u8>,  // encoded
    pub user: Vec<u8>,
    pub salt: Vec<u8>,
    /// msgData as it goes into the message (scoped PDU or OCTET STRING)
    pub data: Vec<u8>,
}
pub fn scoped(engine: &[u8], pdu: &[u8]) -> Vec<u8> {
    seq(&[&octets(engine), &octets(&[]), pdu])
}
/// The message with the given authentication parameters; returns the offset of their content
pub fn v3_msg(m: &V3, auth_params: &[u8]) -> (Vec<u8>, usize) {
    let global = seq(&[&m.msg_id, &int(m.max_size), &octets(&[m.flags]), &int(3)]);
    let usm = seq(&[&octets(&m.engine), &m.boots, &m.time, &octets(&m.user), &octets(auth_params), &octets(&m.salt)]);
    let params = octets(&usm);
    let msg = seq(&[&int(3), &global, &params, &m.data]);
    // the field is followed by the privacy parameters and msgData
    let off = msg.len() - m.data.len() - octets(&m.salt).len() - auth_params.len();
    (msg, off)
}
/// A reply an agent sharing the session's keys would send
pub fn v3_reply(u: &Usm, msg_id: &[u8], boots: (i64, usize), time: (i64, usize), pdu: &[u8], salt: &[u8]) -> Vec<u8> {
    v3_reply_scoped(u, msg_id, boots, time, &scoped(&u.engine, pdu), salt)
}
/// Same, for a given scoped PDU
pub fn v3_reply_scoped(u: &Usm, msg_id: &[u8], boots: (i64, usize), time: (i64, usize), sp: &[u8], salt: &[u8]) -> Vec<u8> {
    let flags = (u.auth != 0) as u8 | (((u.privacy != 0) as u8) << 1);
    let data = match u.privacy {
        1 => {
            let mut p = sp.to_vec();
            while p.len() % 8 != 0 {
                p.push(0);
            }
            octets(&des_cbc(&u.priv_key, salt, &p, false))
        }
        2 => octets(&aes_cfb(&u.priv_key, boots.0 as u32, time.0 as u32, salt, sp, false)),
        _ => sp.to_vec(),
    };
    let m = V3 {
        msg_id: msg_id.to_vec(),
        max_size: 65507,
        flags,
        engine: u.engine.clone(),
        boots: int_n(boots.0, boots.1),
        time: int_n(time.0, time.1),
        user: u.user.clone(),
        salt: if u.privacy != 0 { salt.to_vec() } else { Vec::new() },
        data,
    };
    sign(u, &m)
}
pub fn sign(u: &Usm, m: &V3) -> Vec<u8> {
    if u.auth == 0 {
        return v3_msg(m, &[]).0;
    }
    let (mut msg, off) = v3_msg(m, &[0u8; 12]);
    let mac = hmac96(u.auth, &u.auth_key, &msg);
    msg[off..off + 12].copy_from_slice(&mac);
    msg
}

// ---- strict reader ----------------------------------------------------------------

/// What is wrong with a datagram, if anything
pub struct Rd<'a> {
    pub b: &'a [u8],
    pub base: usize, // offset of b in the datagram
    pub ok: bool,
}
impl<'a> Rd<'a> {
    pub fn new(b: &'a [u8]) -> Rd<'a> {
        Rd { b, base: 0, ok: true }
    }
    pub fn at(b: &'a [u8], base: usize) -> Rd<'a> {
        Rd { b, base, ok: true }
    }
    fn bad(&mut self) -> (u8, &'a [u8], usize) {
        self.ok = false;
        self.b = &[];
        (0, &[], 0)
    }
    /// tag, content, offset of the content; length must be definite and minimal
    pub fn any(&mut self) -> (u8, &'a [u8], usize) {
        if self.b.len() < 2 {
            return self.bad();
        }
        let (tag, l0) = (self.b[0], self.b[1]);
        let (hl, n) = if l0 < 128 {
            (2, l0 as usize)
        } else if l0 == 0x81 {
            if self.b.len() < 3 || self.b[2] < 128 {
                return self.bad();
            }
            (3, self.b[2] as usize)
        } else if l0 == 0x82 {
            if self.b.len() < 4 || self.b[2] == 0 {
                return self.bad();
            }
            (4, ((self.b[2] as usize) << 8) | self.b[3] as usize)
        } else {
            return self.bad();
        };
        if self.b.len() - hl < n {
            return self.bad();
        }
        let c = &self.b[hl..hl + n];
        let off = self.base + hl;
        self.b = &self.b[hl + n..];
        self.base += hl + n;
        (tag, c, off)
    }
    pub fn expect(&mut self, tag: u8) -> (&'a [u8], usize) {
        let (t, c, o) = self.any();
        if t != tag {
            self.bad();
            return (&[], 0);
        }
        (c, o)
    }
    pub fn sub(&mut self, tag: u8) -> Rd<'a> {
        let (c, o) = self.expect(tag);
        Rd { b: c, base: o, ok: self.ok }
    }
    /// Minimal two's complement INTEGER
    pub fn int(&mut self) -> i64 {
        let (c, _) = self.expect(2);
        if c.is_empty() || c.len() > 8 {
            self.bad();
            return 0;
        }
        if c.len() > 1 && (((c[0] == 0) & (c[1] < 128)) | ((c[0] == 0xff) & (c[1] >= 128))) {
            self.bad();
            return 0;
        }
        be_int(c)
    }
    pub fn end(&mut self) -> bool {
        self.ok && self.b.is_empty()
    }
}
pub fn be_int(c: &[u8]) -> i64 {
    let mut v: i64 = if c.is_empty() { 0 } else { (c[0] as i8) as i64 };
    for &x in c.iter().skip(1) {
        v = (v << 8) | x as i64;
    }
    v
}
/// A decoded request
pub struct Req<'a> {
    pub ok: bool,
    pub version: i64,
    pub community: &'a [u8],
    pub tag: u8,
    pub reqid: i64,
    pub f1: i64,
    pub f2: i64,
    /// encoded request-id TLV, for replies
    pub oids: Vec<&'a [u8]>,
}
pub fn read_pdu<'a>(r: &mut Rd<'a>) -> Req<'a> {
    let mut q = Req { ok: false, version: 0, community: &[], tag: 0, reqid: 0, f1: 0, f2: 0, oids: Vec::new() };
    let (tag, c, o) = r.any();
    q.tag = tag;
    let mut p = Rd::at(c, o);
    q.reqid = p.int();
    q.f1 = p.int();
    q.f2 = p.int();
    let mut vb = p.sub(0x30);
    let mut ok = r.ok;
    while vb.ok && !vb.b.is_empty() {
        let mut e = vb.sub(0x30);
        let (oid, _) = e.expect(6);
        let (n, _) = e.expect(5);
        ok &= e.end() && n.is_empty();
        q.oids.push(oid);
    }
    q.ok = ok && vb.ok && p.end();
    q
}
pub fn read_community(d: &[u8]) -> Req<'_> {
    let mut top = Rd::new(d);
    let mut m = top.sub(0x30);
    let version = m.int();
    let (community, _) = m.expect(4);
    let mut q = read_pdu(&mut m);
    q.version = version;
    q.community = community;
    q.ok = q.ok && m.end() && top.end();
    q
}
pub struct V3Req<'a> {
    pub ok: bool,
    pub msg_id: i64,
    pub max_size: i64,
    pub flags: u8,
    pub engine: &'a [u8],
    pub boots: i64,
    pub time: i64,
    pub user: &'a [u8],
    pub auth: &'a [u8],
    pub auth_off: usize,
    pub salt: &'a [u8],
    /// tag and content of msgData
    pub data_tag: u8,
    pub data: &'a [u8],
    pub data_off: usize,
}
pub fn read_v3(d: &[u8]) -> V3Req<'_> {
    let mut top = Rd::new(d);
    let mut m = top.sub(0x30);
    let version = m.int();
    let mut g = m.sub(0x30);
    let msg_id = g.int();
    let max_size = g.int();
    let (flags, _) = g.expect(4);
    let model = g.int();
    let mut sp = m.sub(4);
    let mut u = sp.sub(0x30);
    let (engine, _) = u.expect(4);
    let boots = u.int();
    let time = u.int();
    let (user, _) = u.expect(4);
    let (auth, auth_off) = u.expect(4);
    let (salt, _) = u.expect(4);
    let (data_tag, data, data_off) = m.any();
    let ok = version == 3
        && g.end()
        && flags.len() == 1
        && model == 3
        && sp.end()
        && u.end()
        && (data_tag == 0x30 || data_tag == 4)
        && m.end()
        && top.end();
    V3Req {
        ok,
        msg_id,
        max_size,
        flags: if flags.len() == 1 { flags[0] } else { 0 },
        engine,
        boots,
        time,
        user,
        auth,
        auth_off,
        salt,
        data_tag,
        data,
        data_off,
    }
}
/// Scoped PDU octets of a request: in clear or decrypted as RFC 3414 / 3826 say
pub fn open_scoped(u: &Usm, q: &V3Req) -> Vec<u8> {
    if u.privacy == 0 {
        return tlv(0x30, q.data);
    }
    match u.privacy {
        1 => des_cbc(&u.priv_key, q.salt, q.data, true),
        _ => aes_cfb(&u.priv_key, q.boots as u32, q.time as u32, q.salt, q.data, true),
    }
}
/// context engine id, context name, PDU and the octets left over
pub fn read_scoped(sp: &[u8]) -> (bool, &[u8], &[u8], Req<'_>, usize) {
    let mut top = Rd::new(sp);
    let mut s = top.sub(0x30);
    let (eid, _) = s.expect(4);
    let (name, _) = s.expect(4);
    let q = read_pdu(&mut s);
    let ok = top.ok && s.end() && q.ok;
    (ok, eid, name, q, top.b.len())
}

// ---- the latest request -------------------------------------------------------------

pub fn last_sent() -> &'static [u8] {
    let w = world();
    match w.sent.last() {
        Some(s) => s.data,
        None => &[],
    }
}
/// Keep request-id and msgID in the range that takes 4 octets: one encoding length.
/// Other lengths are covered by the checks that are about them.
pub fn wide_ids(reqid: i64) {
    assume((reqid >= 0x800000) & (reqid <= 0x7fffffff));
}

// ---- Python values --------------------------------------------------------------------

pub fn val(r: &PyObject) -> Val {
    r.val()
}
pub fn dict_len(v: &Val) -> Option<usize> {
    match v {
        Val::Dict(d) => Some(d.borrow().len()),
        _ => None,
    }
}
pub fn is_int(v: &Val, x: i64) -> bool {
    match v {
        Val::Int(a) => *a == x,
        Val::UInt(a) => (x >= 0) & (*a == x as u64),
        _ => false,
    }
}
pub fn is_uint(v: &Val, x: u64) -> bool {
    match v {
        Val::Int(a) => (*a >= 0) & (*a as u64 == x),
        Val::UInt(a) => *a == x,
        _ => false,
    }
}
pub fn is_bytes(v: &Val, x: &[u8]) -> bool {
    match v {
        Val::Bytes(a) => sxrt::eq(a, x),
        _ => false,
    }
}
pub fn is_str(v: &Val, x: &[u8]) -> bool {
    match v {
        Val::Str(a) => sxrt::eq(a.as_bytes(), x),
        _ => false,
    }
}
/// The same Python value of the same type (floats: bit by bit)
pub fn same(a: &Val, b: &Val) -> bool {
    match (a, b) {
        (Val::None, Val::None) => true,
        (Val::Bool(x), Val::Bool(y)) => x == y,
        (Val::Int(x), Val::Int(y)) => x == y,
        (Val::UInt(x), Val::UInt(y)) => x == y,
        (Val::Int(x), Val::UInt(y)) | (Val::UInt(y), Val::Int(x)) => (*x >= 0) & (*x as u64 == *y),
        (Val::Float(x), Val::Float(y)) => (x.to_bits() == y.to_bits()) | (x.is_nan() & y.is_nan()),
        (Val::Bytes(x), Val::Bytes(y)) => x.len() == y.len() && sxrt::eq(x, y),
        (Val::Str(x), Val::Str(y)) => x.len() == y.len() && sxrt::eq(x.as_bytes(), y.as_bytes()),
        (Val::Tuple(x), Val::Tuple(y)) => x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q)),
        (Val::List(x), Val::List(y)) => {
            let (x, y) = (x.borrow(), y.borrow());
            x.len() == y.len() && x.iter().zip(y.iter()).all(|(p, q)| same(p, q))
        }
        _ => false,
    }
}
/// Entry of a dict
pub fn get(d: &Val, key: &str) -> Option<Val> {
    match d {
        Val::Dict(d) => {
            for (k, v) in d.borrow().iter() {
                if let Val::Str(s) = k {
                    if s.len() == key.len() && sxrt::eq(s.as_bytes(), key.as_bytes()) {
                        return Some(*v);
                    }
                }
            }
            None
        }
        _ => None,
    }
}
pub fn is_none(v: &Val) -> bool {
    matches!(v, Val::None)
}

// ---- object identifiers -----------------------------------------------------------------

/// Base-128 form of an arc below 2^35 (one path per size when the value is symbolic)
pub fn arc(v: u64) -> Vec<u8> {
    let n = if v < 1 << 7 {
        1
    } else if v < 1 << 14 {
        2
    } else if v < 1 << 21 {
        3
    } else if v < 1 << 28 {
        4
    } else {
        5
    };
    arc_n(v, n)
}
pub fn arc_n(v: u64, n: usize) -> Vec<u8> {
    let mut o = Vec::with_capacity(n);
    for i in (0..n).rev() {
        let x = ((v >> (7 * i)) & 0x7f) as u8;
        o.push(if i > 0 { x | 0x80 } else { x });
    }
    o
}

pub fn arc32(v: u32) -> Vec<u8> {
    let n = if v <= 0x7f {
        1
    } else if v <= 0x3fff {
        2
    } else if v <= 0x1f_ffff {
        3
    } else if v <= 0x0fff_ffff {
        4
    } else {
        5
    };
    arc_n(v as u64, n)
}
/// An arbitrary decimal digit from lo to hi
pub fn digit(lo: u8, hi: u8) -> u8 {
    lo + sxrt::u8("digit") % (hi - lo + 1)
}
/// Numbers in decimal: the digits of `prefix`, one digit lo..hi, then `free` arbitrary digits
pub fn digits_class(prefix: u64, lo: u8, hi: u8, free: usize) -> (Vec<u8>, u64) {
    let mut t = Vec::with_capacity(24);
    if prefix > 0 {
        let mut d = 1;
        while prefix / d >= 10 {
            d *= 10;
        }
        while d > 0 {
            t.push(b'0' + (prefix / d % 10) as u8);
            d /= 10;
        }
    }
    let mut v = prefix;
    for i in 0..free + 1 {
        let x = if i == 0 { digit(lo, hi) } else { digit(0, 9) };
        t.push(b'0' + x);
        v = v.wrapping_mul(10).wrapping_add(x as u64);
    }
    (t, v)
}
/// All numbers of nd digits below 2^32 without a leading zero. Those of 10 digits are split:
/// `pre` (0..9) digits are those of 2^32 - 1, the next one is smaller (9: or the last one)
pub fn digits(nd: usize, pre: usize) -> (Vec<u8>, u32) {
    let (t, v) = if nd < 10 {
        digits_class(0, if nd > 1 { 1 } else { 0 }, 9, nd - 1)
    } else {
        let max = u32::MAX as u64;
        let mut d = 1_000_000_000;
        for _ in 0..pre {
            d /= 10;
        }
        let next = (max / d % 10) as u8;
        digits_class(max / d / 10, if pre == 0 { 1 } else { 0 }, if pre == 9 { next } else { next - 1 }, 9 - pre)
    };
    (t, v as u32)
}
/// The class of numbers given by three arguments of the job: prefix, 10 * lo + hi, free digits
pub fn digits_arg(i: u64) -> (Vec<u8>, u64) {
    let r = sxrt::arg(i + 1) as u8;
    digits_class(sxrt::arg(i), r / 10, r % 10, sxrt::arg(i + 2) as usize)
}

// ---- a session with a pending request -----------------------------------------------------

pub const OP_GET: u64 = 0;
pub const OP_MANY: u64 = 1;
pub const OP_NEXT: u64 = 2;
pub const OP_BULK: u64 = 3;
pub const OP_REFRESH: u64 = 4;
pub const BASE: &str = "1.3.6.1.2.1.2";
pub const BASE_BER: [u8; 6] = [43, 6, 1, 2, 1, 2];
pub const COMMUNITY: &str = "public";

pub struct Ctx {
    pub sock: Sock,
    pub ver: u64, // 0, 1, 3 as on the wire
    pub u: Usm,
    pub op: u64,
    pub it: Option<GetIter>,
    pub reqid: i64,
    pub msg_id: i64,
}
pub fn no_usm() -> Usm {
    Usm { auth: 0, privacy: 0, auth_key: Vec::new(), priv_key: Vec::new(), user: b"user".to_vec(), engine: ENGINE.to_vec() }
}
pub fn get_iter(oid: &str, rep: Option<i64>) -> GetIter {
    match GetIter::new(oid, rep) {
        Ok(x) => x,
        Err(_) => {
            fail("GetIter is refused");
            loop {}
        }
    }
}
impl Ctx {
    /// `ver`: 0, 1, 3; `sec`: 10 * auth + priv
    pub fn open(ver: u64, sec: u64, op: u64, timeout_ns: u64) -> Ctx {
        let (sock, u) = match ver {
            0 => (open_v1(COMMUNITY, timeout_ns), no_usm()),
            1 => (open_v2(COMMUNITY, timeout_ns), no_usm()),
            _ => {
                let u = Usm::any((sec / 10) as u8, (sec % 10) as u8);
                (u.open(timeout_ns), u)
            }
        };
        let it = if op == OP_NEXT || op == OP_BULK { Some(get_iter(BASE, Some(10))) } else { None };
        Ctx { sock, ver, u, op, it, reqid: 0, msg_id: 0 }
    }
    pub fn send(&mut self) -> PyResult<()> {
        let r = match self.op {
            OP_GET => self.sock.send_get("1.3.6.1.2.1.2.1.0"),
            OP_MANY => self.sock.send_get_many(&["1.3.6.1.2.1.2.1.0", "1.3.6.1.2.1.2.2.0"]),
            OP_NEXT => self.sock.send_get_next(self.it.as_ref().unwrap()),
            OP_BULK => self.sock.send_get_bulk(self.it.as_ref().unwrap()),
            _ => self.sock.send_refresh(),
        };
        r
    }
    pub fn recv(&mut self) -> R {
        match self.op {
            OP_GET => self.sock.recv_get(),
            OP_MANY => self.sock.recv_get_many(),
            OP_NEXT => self.sock.recv_get_next(self.it.as_mut().unwrap()),
            OP_BULK => self.sock.recv_get_bulk(self.it.as_mut().unwrap()),
            _ => self.sock.recv_refresh(),
        }
    }
    /// Send and receive in one call, as the sync client does
    pub fn call(&mut self) -> R {
        match self.op {
            OP_GET => self.sock.get("1.3.6.1.2.1.2.1.0"),
            OP_MANY => self.sock.get_many(&["1.3.6.1.2.1.2.1.0", "1.3.6.1.2.1.2.2.0"]),
            OP_NEXT => self.sock.get_next(self.it.as_mut().unwrap()),
            OP_BULK => self.sock.get_bulk(self.it.as_mut().unwrap()),
            _ => self.sock.refresh(),
        }
    }
    /// Read request-id and msgID of the latest request; keep them in 4 octets
    pub fn learn(&mut self) {
        (self.reqid, self.msg_id) = ids_of(self.ver, &self.u, last_sent());
    }
    pub fn request(&mut self) {
        let r = self.send();
        assume(r.is_ok());
        self.learn();
    }
    pub fn reqid_tlv(&self) -> Vec<u8> {
        int_n(self.reqid, 4)
    }
    /// The reply which carries the PDU; USM time is 7 / 700
    pub fn wrap(&self, pdu: &[u8]) -> Vec<u8> {
        wrap(self.ver, &self.u, self.msg_id, pdu)
    }
    pub fn response(&self, vars: &[Vec<u8>]) -> Vec<u8> {
        self.wrap(&pdu_raw(RESPONSE, &self.reqid_tlv(), 0, 0, vars))
    }
}
/// request-id and msgID of a request, which take 4 octets
pub fn ids_of(ver: u64, u: &Usm, d: &[u8]) -> (i64, i64) {
    let (reqid, msg_id) = if ver == 3 {
        let q = read_v3(d);
        assume(q.ok);
        wide_ids(q.msg_id);
        let sp = open_scoped(u, &q);
        let (ok, _, _, p, _) = read_scoped(&sp);
        assume(ok);
        (p.reqid, q.msg_id)
    } else {
        let q = read_community(d);
        assume(q.ok);
        (q.reqid, 0)
    };
    wide_ids(reqid);
    (reqid, msg_id)
}
/// The reply which carries the PDU; USM time is 7 / 700
pub fn wrap(ver: u64, u: &Usm, msg_id: i64, pdu: &[u8]) -> Vec<u8> {
    if ver == 3 {
        v3_reply(u, &int_n(msg_id, 4), (7, 1), (700, 2), pdu, &[1, 2, 3, 4, 5, 6, 7, 8])
    } else {
        community_msg(ver as i64, COMMUNITY.as_bytes(), pdu)
    }
}
/// An agent which answers at once, whatever is asked, for the calls which send and receive
pub struct Peer {
    pub ver: u64,
    pub u: Usm,
    pub tag: u8,
    pub vars: Vec<Vec<u8>>,
    pub at_ns: u64,
}
pub static mut PEER: Option<Peer> = None;
fn peer_answers(d: &'static [u8]) {
    #[allow(static_mut_refs)]
    let p = unsafe { PEER.as_ref().unwrap() };
    let (reqid, msg_id) = ids_of(p.ver, &p.u, d);
    let m = wrap(p.ver, &p.u, msg_id, &pdu_raw(p.tag, &int_n(reqid, 4), 0, 0, &p.vars));
    arrive(&m, p.at_ns);
}
pub fn start_peer(p: Peer) {
    unsafe { PEER = Some(p) };
    world().agent = Some(peer_answers);
}
pub fn sym(n: usize, name: &str) -> Vec<u8> {
    let mut v = vec![0u8; n];
    sxrt::symbolic(&mut v, name);
    v
}

/// The integer a call returned for the single varbind of its reply
pub fn number(op: u64, r: &PyObject) -> Option<i64> {
    let v = val(r);
    let v = match op {
        OP_GET => v,
        OP_MANY => match v {
            Val::Dict(d) => match d.borrow().first() {
                Some((_, x)) => *x,
                None => return None,
            },
            _ => return None,
        },
        OP_NEXT => match v {
            Val::Tuple(t) if t.len() == 2 => t[1],
            _ => return None,
        },
        _ => match v {
            Val::List(l) => match l.borrow().first() {
                Some(Val::Tuple(t)) if t.len() == 2 => t[1],
                _ => return None,
            },
            _ => return None,
        },
    };
    match v {
        Val::Int(x) => Some(x),
        Val::UInt(x) => Some(x as i64),
        _ => None,
    }
}
/// Varbind number i of the answers, value 100 + i
pub fn vb(i: u64) -> Vec<u8> {
    varbind(&cat(&[&BASE_BER, &[i as u8 + 1]]), &tlv(2, &[100 + i as u8]))
}

// ---- replies with one header written differently -----------------------------------------

/// BER tree of a reply: one header can be replaced
pub struct Node {
    pub tag: u8,
    pub kids: Vec<Node>,
    pub body: Vec<u8>,
}
pub fn leaf(tag: u8, body: &[u8]) -> Node {
    Node { tag, kids: Vec::new(), body: body.to_vec() }
}
pub fn node(tag: u8, kids: Vec<Node>) -> Node {
    Node { tag, kids, body: Vec::new() }
}
/// Size of the element when header `at` is written with `form` additional octets
pub fn put(n: &Node, seq: &mut usize, at: usize, form: usize, out: &mut Vec<u8>, spot: &mut (usize, usize, usize), end_of: &mut Vec<(usize, usize)>) {
    let me = *seq;
    *seq += 1;
    let mut c = Vec::new();
    let mut inner: Vec<(usize, usize)> = Vec::new();
    let mut sp = (usize::MAX, 0, 0);
    if n.kids.is_empty() {
        c.extend_from_slice(&n.body);
    } else {
        for k in &n.kids {
            put(k, seq, at, form, &mut c, &mut sp, &mut inner);
        }
    }
    let base = out.len();
    let e = if me == at {
        let mut h = tlv_long(n.tag, &c, form);
        let hl = h.len() - c.len();
        sp = (1, hl, 0);
        let _ = &mut h;
        h
    } else {
        tlv(n.tag, &c)
    };
    let hl = e.len() - c.len();
    if me == at {
        // (offset of the length, offset of the content, end of the enclosing element: set by the parent)
        *spot = (base + 1, base + hl, 0);
    } else if sp.0 != usize::MAX {
        let end = if sp.2 == 0 { hl + c.len() } else { hl + sp.2 };
        *spot = (base + hl + sp.0, base + hl + sp.1, base + end);
    }
    end_of.extend_from_slice(&inner);
    out.extend_from_slice(&e);
}
/// The reply with the header of element `at` in the given form.
/// -> octets, offset of the length octet, offset of content, end of the enclosing element
pub fn build(t: &Node, at: usize, form: usize) -> (Vec<u8>, usize, usize, usize) {
    let mut out = Vec::new();
    let mut spot = (usize::MAX, 0, 0);
    let mut seq = 0;
    let mut inner = Vec::new();
    put(t, &mut seq, at, form, &mut out, &mut spot, &mut inner);
    let end = if spot.2 == 0 { out.len() } else { spot.2 };
    (out, spot.0, spot.1, end)
}
pub fn vb_node(oid: &[u8], v: Node) -> Node {
    node(0x30, vec![leaf(6, oid), v])
}
