//! Stand-in for socket2: the UDP socket is the environment. Datagrams come from a
//! script set by the harness, sent datagrams are recorded, time is a model clock.
#![allow(static_mut_refs)]
use std::io;
use std::mem::MaybeUninit;
use std::net::SocketAddr;
use std::os::fd::{AsRawFd, RawFd};
use std::time::Duration;


#[derive(Clone, Copy)]
pub struct Arrival {
    pub data: &'static [u8],
    /// Model time at which the datagram reaches the socket
    pub at_ns: u64,
}
pub struct Sent {
    pub data: &'static [u8],
    pub at_ns: u64,
}

pub struct World {
    /// datagrams to come, in order of arrival
    pub script: Vec<Arrival>,
    pub next: usize,
    pub sent: Vec<Sent>,
    pub timeout_ns: Option<u64>,
    pub nonblocking: bool,
    pub recv_calls: usize,
    /// what the kernel answers when nothing is left: false = WouldBlock, true = ConnectionRefused
    pub refuse: bool,
    /// called after each send: the agent
    pub agent: Option<fn(&'static [u8])>,
    /// some call blocked without any limit
    pub hung: bool,
    pub connected: usize,
    /// the kernel refuses to send
    pub send_fails: bool,
    /// time it takes to process a datagram
    pub lag: Option<fn() -> u64>,
}

pub static mut WORLD: World = World {
    script: Vec::new(),
    next: 0,
    sent: Vec::new(),
    timeout_ns: None,
    nonblocking: false,
    recv_calls: 0,
    refuse: false,
    agent: None,
    hung: false,
    connected: 0,
    send_fails: false,
    lag: None,
};

pub fn world() -> &'static mut World {
    unsafe { &mut WORLD }
}
/// Add a datagram to the script
pub fn arrive(data: &[u8], at_ns: u64) {
    world().script.push(Arrival { data: Vec::leak(data.to_vec()), at_ns });
}

#[derive(Clone, Copy)]
pub struct Domain(i32);
impl Domain {
    pub const IPV4: Domain = Domain(2);
    pub const IPV6: Domain = Domain(10);
    pub fn for_address(a: SocketAddr) -> Domain {
        match a {
            SocketAddr::V4(_) => Domain::IPV4,
            SocketAddr::V6(_) => Domain::IPV6,
        }
    }
}
#[derive(Clone, Copy)]
pub struct Type(i32);
impl Type {
    pub const DGRAM: Type = Type(2);
    pub const STREAM: Type = Type(1);
}
#[derive(Clone, Copy)]
pub struct Protocol(i32);
impl Protocol {
    pub const UDP: Protocol = Protocol(17);
    pub const TCP: Protocol = Protocol(6);
}
pub struct SockAddr(#[allow(dead_code)] SocketAddr);
impl From<SocketAddr> for SockAddr {
    fn from(a: SocketAddr) -> SockAddr {
        SockAddr(a)
    }
}

pub struct Socket(i32);
impl AsRawFd for Socket {
    fn as_raw_fd(&self) -> RawFd {
        self.0
    }
}
impl Socket {
    pub fn new(_d: Domain, _t: Type, _p: Option<Protocol>) -> io::Result<Socket> {
        Ok(Socket(3))
    }
    pub fn connect(&self, _a: &SockAddr) -> io::Result<()> {
        world().connected += 1;
        Ok(())
    }
    pub fn set_read_timeout(&self, t: Option<Duration>) -> io::Result<()> {
        // as the kernel and std: a zero timeout is refused
        if let Some(d) = t {
            if d.as_secs() == 0 && d.subsec_nanos() == 0 {
                return Err(io::Error::from(io::ErrorKind::InvalidInput));
            }
            // SO_RCVTIMEO is a timeval: whole microseconds, zero means no limit
            let us = d.as_secs().wrapping_mul(1_000_000).wrapping_add((d.subsec_nanos() / 1000) as u64);
            world().timeout_ns = if us == 0 { None } else { Some(us.wrapping_mul(1000)) };
        } else {
            world().timeout_ns = None;
        }
        Ok(())
    }
    pub fn read_timeout(&self) -> io::Result<Option<Duration>> {
        Ok(world().timeout_ns.map(Duration::from_nanos))
    }
    pub fn set_write_timeout(&self, _t: Option<Duration>) -> io::Result<()> {
        Ok(())
    }
    pub fn nonblocking(&self) -> io::Result<bool> {
        Ok(world().nonblocking)
    }
    pub fn set_nonblocking(&self, v: bool) -> io::Result<()> {
        world().nonblocking = v;
        Ok(())
    }
    pub fn set_tos(&self, _tos: u32) -> io::Result<()> {
        Ok(())
    }
    pub fn set_send_buffer_size(&self, _s: usize) -> io::Result<()> {
        Ok(())
    }
    pub fn set_recv_buffer_size(&self, _s: usize) -> io::Result<()> {
        Ok(())
    }
    pub fn send(&self, data: &[u8]) -> io::Result<usize> {
        let w = world();
        if w.send_fails {
            return Err(io::Error::from(io::ErrorKind::ConnectionRefused));
        }
        let d: &'static [u8] = Vec::leak(data.to_vec());
        w.sent.push(Sent { data: d, at_ns: sxrt::clock_get() });
        if let Some(f) = w.agent {
            f(d);
        }
        Ok(data.len())
    }
    pub fn recv(&self, buf: &mut [MaybeUninit<u8>]) -> io::Result<usize> {
        let w = world();
        w.recv_calls += 1;
        let now = sxrt::clock_get();
        if w.next < w.script.len() {
            let a = w.script[w.next];
            let arrived = if w.nonblocking {
                a.at_ns <= now
            } else {
                match w.timeout_ns {
                    None => true,
                    Some(t) => a.at_ns <= now.wrapping_add(t),
                }
            };
            if arrived {
                if a.at_ns > now {
                    sxrt::clock_set(a.at_ns);
                }
                if let Some(f) = w.lag {
                    sxrt::clock_set(sxrt::clock_get() + f());
                }
                w.next += 1;
                // a datagram larger than the buffer is truncated by the kernel
                let n = if a.data.len() < buf.len() { a.data.len() } else { buf.len() };
                unsafe {
                    std::ptr::copy_nonoverlapping(a.data.as_ptr(), buf.as_mut_ptr() as *mut u8, n);
                }
                return Ok(n);
            }
        }
        if w.refuse {
            return Err(io::Error::from(io::ErrorKind::ConnectionRefused));
        }
        if !w.nonblocking {
            match w.timeout_ns {
                Some(t) => sxrt::clock_set(now.wrapping_add(t)),
                None => w.hung = true,
            }
        }
        Err(io::Error::from(io::ErrorKind::WouldBlock))
    }
}
