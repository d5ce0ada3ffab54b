//! Interface between the harnesses / stand-ins and the symbolic executor.
//! Built for the executor the `sx_*` functions stay external; built for replay
//! (`--cfg sx_native`) they read the recorded assignment and report failures.
#![allow(static_mut_refs)]

#[cfg(not(sx_native))]
mod raw {
    extern "C" {
        pub fn sx_symbolic(p: *mut u8, n: usize, s: *const u8, l: usize);
        pub fn sx_assume(c: bool);
        pub fn sx_law(c: bool);
        pub fn sx_check(c: bool, s: *const u8, l: usize);
        pub fn sx_fail(s: *const u8, l: usize);
        pub fn sx_reach(i: u64);
        pub fn sx_choose(n: u64) -> u64;
        pub fn sx_concretize(v: u64) -> u64;
        pub fn sx_identical(a: *const u8, b: *const u8, n: usize) -> bool;
        pub fn sx_eq(a: *const u8, b: *const u8, n: usize) -> bool;
        pub fn sx_is_init(a: *const u8, n: usize) -> bool;
        pub fn sx_arg(i: u64) -> u64;
        pub fn sx_ite(c: bool, a: u64, b: u64) -> u64;
        pub fn sx_clock_get() -> u64;
        pub fn sx_clock_set(v: u64);
        pub fn sx_log(s: *const u8, l: usize, v: u64);
        pub fn sx_alloc(n: usize, a: usize) -> *mut u8;
        pub fn sx_free(p: *mut u8, n: usize, a: usize);
    }
}

#[cfg(sx_native)]
mod raw {
    use std::sync::Mutex;
    static STREAM: Mutex<Option<(Vec<u8>, usize)>> = Mutex::new(None);
    static ARGS: Mutex<Vec<u64>> = Mutex::new(Vec::new());
    static CLOCK: Mutex<u64> = Mutex::new(0);

    // Called by the replay driver before the harness runs
    #[no_mangle]
    pub unsafe extern "C" fn sx_replay_load(p: *const u8, n: usize, args: *const u64, na: usize) {
        *STREAM.lock().unwrap() = Some((std::slice::from_raw_parts(p, n).to_vec(), 0));
        *ARGS.lock().unwrap() = std::slice::from_raw_parts(args, na).to_vec();
        std::panic::set_hook(Box::new(|i| {
            eprintln!("SX-PANIC: {}", i);
            std::process::exit(71);
        }));
    }
    fn take(out: &mut [u8]) {
        let mut g = STREAM.lock().unwrap();
        let s = g.as_mut().expect("replay stream");
        for o in out.iter_mut() {
            *o = s.0.get(s.1).copied().unwrap_or(0);
            s.1 += 1;
        }
    }
    pub unsafe fn sx_symbolic(p: *mut u8, n: usize, _s: *const u8, _l: usize) {
        take(std::slice::from_raw_parts_mut(p, n));
    }
    pub unsafe fn sx_assume(c: bool) {
        if !c {
            eprintln!("SX-ASSUME-FAILED");
            std::process::exit(77);
        }
    }
    pub unsafe fn sx_law(c: bool) {
        sx_assume(c)
    }
    fn txt(s: *const u8, l: usize) -> String {
        String::from_utf8_lossy(unsafe { std::slice::from_raw_parts(s, l) }).to_string()
    }
    pub unsafe fn sx_check(c: bool, s: *const u8, l: usize) {
        if !c {
            eprintln!("SX-CHECK-FAILED: {}", txt(s, l));
            std::process::exit(70);
        }
    }
    pub unsafe fn sx_fail(s: *const u8, l: usize) {
        sx_check(false, s, l)
    }
    pub unsafe fn sx_reach(i: u64) {
        eprintln!("SX-OBS reach={}", i);
    }
    pub unsafe fn sx_choose(_n: u64) -> u64 {
        let mut b = [0u8; 8];
        take(&mut b);
        u64::from_le_bytes(b)
    }
    pub unsafe fn sx_concretize(v: u64) -> u64 {
        v
    }
    pub unsafe fn sx_identical(a: *const u8, b: *const u8, n: usize) -> bool {
        std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)
    }
    pub unsafe fn sx_eq(a: *const u8, b: *const u8, n: usize) -> bool {
        std::slice::from_raw_parts(a, n) == std::slice::from_raw_parts(b, n)
    }
    pub unsafe fn sx_is_init(_a: *const u8, _n: usize) -> bool {
        true
    }
    pub unsafe fn sx_arg(i: u64) -> u64 {
        ARGS.lock().unwrap().get(i as usize).copied().unwrap_or(0)
    }
    pub unsafe fn sx_ite(c: bool, a: u64, b: u64) -> u64 {
        if c {
            a
        } else {
            b
        }
    }
    pub unsafe fn sx_clock_get() -> u64 {
        *CLOCK.lock().unwrap()
    }
    pub unsafe fn sx_clock_set(v: u64) {
        *CLOCK.lock().unwrap() = v;
    }
    // the code under test reads the model clock in a replay, too
    #[no_mangle]
    pub unsafe extern "C" fn __wrap_clock_gettime(_id: i32, ts: *mut i64) -> i32 {
        let v = *CLOCK.lock().unwrap();
        *ts = (v / 1_000_000_000) as i64;
        *ts.add(1) = (v % 1_000_000_000) as i64;
        0
    }
    pub unsafe fn sx_log(s: *const u8, l: usize, v: u64) {
        eprintln!("SX-OBS {}={}", txt(s, l), v);
    }
}

pub fn symbolic(b: &mut [u8], name: &str) {
    unsafe { raw::sx_symbolic(b.as_mut_ptr(), b.len(), name.as_ptr(), name.len()) }
}
pub fn bytes<const N: usize>(name: &str) -> [u8; N] {
    let mut b = [0u8; N];
    symbolic(&mut b, name);
    b
}
pub fn u8(name: &str) -> u8 {
    bytes::<1>(name)[0]
}
pub fn u16(name: &str) -> u16 {
    u16::from_le_bytes(bytes(name))
}
pub fn u32(name: &str) -> u32 {
    u32::from_le_bytes(bytes(name))
}
pub fn u64(name: &str) -> u64 {
    u64::from_le_bytes(bytes(name))
}
pub fn i64(name: &str) -> i64 {
    i64::from_le_bytes(bytes(name))
}
pub fn assume(c: bool) {
    unsafe { raw::sx_assume(c) }
}
/// Assumed where it matters: before anything is reported, not for the choice of paths
pub fn law(c: bool) {
    unsafe { raw::sx_law(c) }
}
pub fn check(c: bool, msg: &str) {
    unsafe { raw::sx_check(c, msg.as_ptr(), msg.len()) }
}
pub fn fail(msg: &str) {
    unsafe { raw::sx_fail(msg.as_ptr(), msg.len()) }
}
/// Reachability witness
pub fn reach(i: u64) {
    unsafe { raw::sx_reach(i) }
}
/// Explore every value in 0..n, one path each
pub fn choose(n: u64) -> u64 {
    unsafe { raw::sx_choose(n) }
}
pub fn concretize(v: u64) -> u64 {
    unsafe { raw::sx_concretize(v) }
}
/// Same expressions (executor) / same octets (replay)
pub fn identical(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { raw::sx_identical(a.as_ptr(), b.as_ptr(), a.len()) }
}
/// Equality as one expression, without branching
pub fn eq(a: &[u8], b: &[u8]) -> bool {
    a.len() == b.len() && unsafe { raw::sx_eq(a.as_ptr(), b.as_ptr(), a.len()) }
}
pub fn is_init(a: &[u8]) -> bool {
    unsafe { raw::sx_is_init(a.as_ptr(), a.len()) }
}
pub fn arg(i: u64) -> u64 {
    unsafe { raw::sx_arg(i) }
}
pub fn ite(c: bool, a: u64, b: u64) -> u64 {
    unsafe { raw::sx_ite(c, a, b) }
}
/// Branch-free logic on conditions
pub fn and(a: bool, b: bool) -> bool {
    a & b
}
pub fn implies(a: bool, b: bool) -> bool {
    !a | b
}
pub fn clock_get() -> u64 {
    unsafe { raw::sx_clock_get() }
}
pub fn clock_set(v: u64) {
    unsafe { raw::sx_clock_set(v) }
}
pub fn log(s: &str, v: u64) {
    unsafe { raw::sx_log(s.as_ptr(), s.len(), v) }
}

#[cfg(not(sx_native))]
mod heap {
    use std::alloc::{GlobalAlloc, Layout};
    pub struct Heap;
    unsafe impl GlobalAlloc for Heap {
        unsafe fn alloc(&self, l: Layout) -> *mut u8 {
            super::raw::sx_alloc(l.size(), l.align())
        }
        unsafe fn dealloc(&self, p: *mut u8, l: Layout) {
            super::raw::sx_free(p, l.size(), l.align())
        }
    }
    #[global_allocator]
    static G: Heap = Heap;
}

// ---- uninterpreted cryptographic primitives -------------------------------

/// Hash functions as uninterpreted functions of the whole hashed message: equal
/// messages have equal digests, nothing else is known. Memo table per algorithm.
pub mod uf {
    struct Rec {
        alg: u8,
        input: &'static [u8],
        out: [u8; 32],
        n: usize,
    }
    static mut TAB: Vec<Rec> = Vec::new();
    static mut FORBID: Vec<Vec<u8>> = Vec::new();
    static mut UNLAWFUL: Vec<Vec<u8>> = Vec::new();
    /// No message hashed from now on for the first time has a digest which begins so
    pub fn no_collision(prefix: &[u8], now: bool) {
        unsafe { if now { FORBID.push(prefix.to_vec()) } else { UNLAWFUL.push(prefix.to_vec()) } }
    }
    /// Digest of `input` (of `n` octets)
    pub fn hash(alg: u8, input: Vec<u8>, n: usize) -> [u8; 32] {
        let mut out = [0u8; 32];
        // drawn in any case, so that a replay consumes the recorded values in the same order
        super::symbolic(&mut out[..n], "digest");
        let t = unsafe { &mut TAB };
        for r in t.iter() {
            if r.alg == alg && super::identical(r.input, &input) {
                return r.out;
            }
        }
        for r in t.iter() {
            if r.alg == alg && r.input.len() == input.len() {
                let l = super::implies(super::eq(r.input, &input), super::eq(&r.out[..n], &out[..n]));
                if unsafe { LOOSE } {
                    super::law(l);
                } else {
                    super::assume(l);
                }
            }
        }
        for f in unsafe { FORBID.iter() } {
            super::assume(!super::eq(&out[..f.len()], f));
        }
        for f in unsafe { UNLAWFUL.iter() } {
            super::law(!super::eq(&out[..f.len()], f));
        }
        t.push(Rec { alg, input: Vec::leak(input), out, n });
        out
    }
    /// Number of distinct messages hashed so far
    pub fn hashed() -> usize {
        unsafe { TAB.len() }
    }
    pub fn hash_input(i: usize) -> &'static [u8] {
        unsafe { TAB[i].input }
    }
    pub fn hash_output(i: usize) -> &'static [u8] {
        unsafe { &TAB[i].out[..TAB[i].n] }
    }

    /// Block ciphers as families of permutations, one per key.
    struct Blk {
        alg: u8,
        nb: usize,
        key: [u8; 16],
        pt: [u8; 16],
        ct: [u8; 16],
        decrypted: bool,
    }
    static mut BLK: Vec<Blk> = Vec::new();
    static mut LOOSE: bool = false;
    static mut SPARSE: bool = false;
    /// Of the laws of block ciphers, only that decryption is the inverse of encryption; the n-th new block
    /// encrypts to n and arbitrary octets. For large messages
    pub fn inverses_only() {
        unsafe {
            LOOSE = true;
            SPARSE = true
        }
    }
    /// Impose the laws of functions and permutations on demand: paths are explored without them (more than
    /// there are), a violation counts only if they hold.
    pub fn laws_on_demand() {
        unsafe { LOOSE = true }
    }
    fn pad(b: &[u8]) -> [u8; 16] {
        let mut o = [0u8; 16];
        o[..b.len()].copy_from_slice(b);
        o
    }
    fn block(alg: u8, key: &[u8], x: &[u8], decrypt: bool) -> [u8; 16] {
        let nb = x.len();
        let key = pad(key);
        let inp = pad(x);
        let mut out = [0u8; 16];
        super::symbolic(&mut out[..nb], if decrypt { "decrypted" } else { "encrypted" });
        let t = unsafe { &mut BLK };
        for r in t.iter() {
            let (ri, ro) = if decrypt { (&r.ct, &r.pt) } else { (&r.pt, &r.ct) };
            if r.alg == alg && r.nb == nb && super::identical(&r.key, &key) && super::identical(ri, &inp) {
                return *ro;
            }
        }
        for r in t.iter() {
            if r.alg == alg && r.nb == nb && (r.decrypted != decrypt || unsafe { !SPARSE }) {
                let (ri, ro) = if decrypt { (&r.ct, &r.pt) } else { (&r.pt, &r.ct) };
                let same_in = super::eq(ri, &inp);
                let same_out = super::eq(ro, &out);
                let l = super::implies(super::eq(&r.key, &key), same_in == same_out);
                if unsafe { LOOSE } {
                    super::law(l);
                } else {
                    super::assume(l);
                }
            }
        }
        if unsafe { SPARSE } && !decrypt {
            // no two blocks come to the same
            out[..3].copy_from_slice(&(t.len() as u32).to_be_bytes()[1..]);
        }
        let (pt, ct) = if decrypt { (out, inp) } else { (inp, out) };
        t.push(Blk { alg, nb, key, pt, ct, decrypted: decrypt });
        out
    }
    pub fn encrypt(alg: u8, key: &[u8], x: &[u8]) -> [u8; 16] {
        block(alg, key, x, false)
    }
    pub fn decrypt(alg: u8, key: &[u8], x: &[u8]) -> [u8; 16] {
        block(alg, key, x, true)
    }
    pub fn blocks() -> usize {
        unsafe { BLK.len() }
    }
    pub const MD5: u8 = 1;
    pub const SHA1: u8 = 2;
    pub const DES: u8 = 1;
    pub const AES: u8 = 2;
}
