//! C06: walks against an arbitrary agent.
use super::common::*;

/// 1.3.6.1 and further arcs, by value; `sizes` in octets
#[derive(Clone)]
pub struct Oid {
    pub arcs: Vec<u64>,
    pub sizes: Vec<usize>,
    /// octet in place of 43 6 1, if any
    pub head: [u8; 3],
}
pub const HEAD: [u8; 3] = [43, 6, 1];
impl Oid {
    pub fn concrete(arcs: &[u64]) -> Oid {
        Oid { arcs: arcs.to_vec(), sizes: arcs.iter().map(|a| arc(*a).len()).collect(), head: HEAD }
    }
    /// Arcs of these sizes, all values
    pub fn any(sizes: &[usize], name: &str) -> Oid {
        let arcs = sizes
            .iter()
            .map(|n| {
                let v = sxrt::u64(name);
                let top = if *n == 5 { u32::MAX as u64 } else { (1 << (7 * n)) - 1 };
                assume((v <= top) & (*n == 1 || v >= 1 << (7 * (n - 1))));
                v
            })
            .collect();
        Oid { arcs, sizes: sizes.to_vec(), head: HEAD }
    }
    pub fn ber(&self) -> Vec<u8> {
        let mut o = self.head.to_vec();
        for (a, n) in self.arcs.iter().zip(self.sizes.iter()) {
            o.extend_from_slice(&arc_n(*a, *n));
        }
        o
    }
    /// Concrete arcs, or symbolic ones of one digit
    pub fn text(&self) -> Vec<u8> {
        let mut t = b"1.3.6.1".to_vec();
        for a in &self.arcs {
            t.push(b'.');
            t.push(b'0' + *a as u8);
        }
        t
    }
    pub fn concrete_text(&self) -> &'static str {
        let mut t = b"1.3.6.1".to_vec();
        for a in &self.arcs {
            t.push(b'.');
            t.extend_from_slice(a.to_string().as_bytes());
        }
        unsafe { std::str::from_utf8_unchecked(leak(&t)) }
    }
    fn all(&self) -> Vec<u64> {
        let mut v: Vec<u64> = self.head.iter().map(|x| *x as u64).collect();
        v.extend_from_slice(&self.arcs);
        v
    }
    /// Lexicographically less, as one expression
    pub fn less(&self, o: &Oid) -> bool {
        let (a, b) = (self.all(), o.all());
        let n = if a.len() < b.len() { a.len() } else { b.len() };
        let mut r = a.len() < b.len();
        for i in (0..n).rev() {
            r = (a[i] < b[i]) | ((a[i] == b[i]) & r);
        }
        r
    }
    /// Strictly below
    pub fn under(&self, base: &Oid) -> bool {
        let (a, b) = (self.all(), base.all());
        if a.len() <= b.len() {
            return false;
        }
        let mut r = true;
        for i in 0..b.len() {
            r &= a[i] == b[i];
        }
        r
    }
}
const SHAPES: [&[usize]; 12] = [&[], &[1], &[1, 1], &[2], &[1, 2], &[2, 1], &[3], &[5], &[2, 2], &[1, 1, 1], &[4, 1], &[1, 5]];
const BASES: [&[u64]; 8] = [&[5], &[300], &[5, 7], &[127], &[16383], &[4294967295], &[5, 200], &[0]];

pub fn is_stop(e: &PyErr) -> bool {
    is::<exceptions::PyStopAsyncIteration>(e)
}
/// (name, value) of a yielded pair
pub fn pair(v: &Val) -> Option<(Val, Val)> {
    match v {
        Val::Tuple(t) if t.len() == 2 => Some((t[0], t[1])),
        _ => None,
    }
}
/// OID the latest request asks for
pub fn asked(c: &Ctx) -> Vec<u8> {
    let d = last_sent();
    if c.ver == 3 {
        let q = read_v3(d);
        let sp = open_scoped(&c.u, &q);
        let (ok, _, _, p, _) = read_scoped(&sp);
        check(ok && p.oids.len() == 1, "one OID is asked for");
        check(p.tag == if c.op == OP_BULK { GETBULK } else { GETNEXT }, "PDU type");
        if p.oids.is_empty() { Vec::new() } else { p.oids[0].to_vec() }
    } else {
        let p = read_community(d);
        check(p.ok && p.oids.len() == 1, "one OID is asked for");
        check(p.tag == if c.op == OP_BULK { GETBULK } else { GETNEXT }, "PDU type");
        if p.oids.is_empty() { Vec::new() } else { p.oids[0].to_vec() }
    }
}
/// args: version, security, operation, base, varbinds of each reply (decimal), shapes of the varbinds (2 decimals each),
/// kinds of values (decimal; 0 any, 1 INTEGER, 2.. NULL, noSuchObject, noSuchInstance, endOfMibView), one-digit arcs, arbitrary head
#[unsafe(no_mangle)]
pub extern "C" fn h_c06() {
    let (ver, sec, op) = (sxrt::arg(0), sxrt::arg(1), sxrt::arg(2));
    let base = Oid::concrete(BASES[sxrt::arg(3) as usize]);
    let (mut ns, mut shapes, mut kinds) = (sxrt::arg(4), sxrt::arg(5), sxrt::arg(6));
    let names = sxrt::arg(7) == 1;
    uf::laws_on_demand();
    let mut c = Ctx::open(ver, sec, op, 0);
    c.it = Some(get_iter(base.concrete_text(), Some(10)));
    let mut last = base.clone();
    let mut id = 0u8;
    let mut replies = 0;
    while ns > 0 {
        let n = ns % 10 - 1; // 1: no varbinds
        ns /= 10;
        check(c.send().is_ok(), "request is sent");
        c.learn();
        let o = asked(&c);
        let w = last.ber();
        check(o.len() == w.len() && sxrt::eq(&o, &w), "request is for the last OID accepted");
        let mut vars: Vec<(Oid, u64, u8)> = Vec::new();
        for i in 0..n {
            let sh = shapes % 100;
            shapes /= 100;
            // 99: any of them; 90 + k: one of a few
            let sh = match sh {
                99 => choose(12),
                98 => [2, 4, 5, 9][choose(4) as usize],
                97 => [1, 2, 3][choose(3) as usize],
                x => x,
            };
            let mut x = Oid::any(SHAPES[sh as usize], "arc");
            if names {
                for a in &x.arcs {
                    assume(*a <= 9);
                }
            }
            if sxrt::arg(8) == i + 1 {
                let h = sxrt::u8("head");
                assume(h < 120);
                x.head[0] = h;
            } else if sxrt::arg(8) == i + 11 {
                let h = sym(2, "head");
                assume((h[0] < 128) & (h[1] < 128));
                x.head[1] = h[0];
                x.head[2] = h[1];
            }
            let k = kinds % 10;
            kinds /= 10;
            let k = if k == 0 { choose(5) } else { k - 1 };
            vars.push((x, k, id));
            id += 1;
        }
        let enc: Vec<Vec<u8>> = vars
            .iter()
            .map(|(x, k, i)| varbind(&x.ber(), &if *k == 0 { tlv(2, &[*i]) } else if *k == 1 { null() } else { tlv(0x7e + *k as u8, &[]) }))
            .collect();
        let m = c.response(&enc);
        arrive(&m, 0);
        let r = c.recv();
        replies += 1;
        if op == OP_NEXT {
            if vars.len() > 1 {
                // not an answer to GetNext
                check(r.is_err(), "several varbinds are refused");
                reach(2);
                return;
            }
            if vars.is_empty() || vars[0].1 != 0 || !vars[0].0.under(&base) {
                match r {
                    Ok(_) => fail("walk goes on after its end"),
                    Err(e) => check(is_stop(&e), "walk ends"),
                }
                reach(3);
                return;
            }
            if !last.less(&vars[0].0) {
                match r {
                    Ok(_) => fail("walk goes backwards"),
                    Err(e) => check(documented(&e), "walk ends"),
                }
                reach(4);
                return;
            }
            match r {
                Ok(v) => {
                    match pair(&val(&v)) {
                        Some((name, x)) => {
                            check(is_int(&x, vars[0].2 as i64), "value");
                            if names {
                                check(is_str(&name, &vars[0].0.text()), "name");
                            }
                        }
                        None => fail("a pair is yielded"),
                    }
                    reach(1);
                }
                Err(_) => return fail("entry of the subtree is not yielded"),
            }
            last = vars[0].0.clone();
            continue;
        }
        // GetBulk
        let mut want: Vec<usize> = Vec::new();
        let mut end = false; // out of the subtree
        let mut back = false; // not increasing
        for (i, (x, k, _)) in vars.iter().enumerate() {
            if *k != 0 {
                continue;
            }
            if !x.under(&base) {
                end = true;
                break;
            }
            if !last.less(x) {
                back = true;
                break;
            }
            want.push(i);
            last = x.clone();
        }
        if want.is_empty() && !end && !back {
            match r {
                Ok(_) => fail("walk goes on after its end"),
                Err(e) => check(is_stop(&e), "walk ends"),
            }
            reach(3);
            return;
        }
        match r {
            Ok(v) => {
                let l = match val(&v) {
                    Val::List(l) => l.borrow().clone(),
                    _ => return fail("a list is expected"),
                };
                // data, then None if that is all
                let stops = l.last().map(|x| is_none(x)).unwrap_or(false);
                let data = if stops { l.len() - 1 } else { l.len() };
                check(data == want.len(), "entries of the subtree, in order, up to the first outside");
                check(stops == (end | back), "walk ends at the first OID outside");
                for (x, i) in l.iter().zip(want.iter()) {
                    match pair(x) {
                        Some((name, x)) => {
                            check(is_int(&x, vars[*i].2 as i64), "value");
                            if names {
                                check(is_str(&name, &vars[*i].0.text()), "name");
                            }
                        }
                        None => fail("a pair is yielded"),
                    }
                }
                if stops {
                    reach(3);
                    return;
                }
                reach(1);
            }
            Err(e) => {
                check((end && want.is_empty() && is_stop(&e)) || (back && documented(&e)), "entries of the subtree are yielded");
                reach(4);
                return;
            }
        }
    }
    check(replies > 0, "replies");
}
