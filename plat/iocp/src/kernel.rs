//! The simulated Windows kernel: completion ports, the AFD device's polls, waitable events, registered waits.
//!
//! An AFD poll completes at the moment one of the conditions it asks for holds, including the moment it is issued. Each
//! completed or cancelled poll queues exactly one packet to the port its AFD handle is associated with.

use std::collections::{BTreeMap, VecDeque};

pub const RECEIVE: u32 = 0x001;
pub const EXPEDITED: u32 = 0x002;
pub const SEND: u32 = 0x004;
pub const DISCONNECT: u32 = 0x008;
pub const ABORT: u32 = 0x010;
pub const LOCAL_CLOSE: u32 = 0x020;
pub const ACCEPT: u32 = 0x080;
pub const CONNECT_FAIL: u32 = 0x100;

pub const STATUS_SUCCESS: i32 = 0;
pub const STATUS_PENDING: i32 = 0x103;
pub const STATUS_CANCELLED: i32 = 0xC000_0120u32 as i32;
pub const STATUS_NOT_FOUND: i32 = 0xC000_0225u32 as i32;
pub const STATUS_INVALID_HANDLE: i32 = 0xC000_0008u32 as i32;
pub const STATUS_NO_MEMORY: i32 = 0xC000_0017u32 as i32;
pub const STATUS_INSUFFICIENT_RESOURCES: i32 = 0xC000_009Au32 as i32;

pub const ERROR_INVALID_HANDLE: i32 = 6;
pub const ERROR_NOT_ENOUGH_MEMORY: i32 = 8;
pub const ERROR_IO_PENDING: i32 = 997;
pub const ERROR_NO_SYSTEM_RESOURCES: i32 = 1450;
pub const ERROR_NOT_FOUND: i32 = 1168;

#[derive(Clone, Copy, Debug)]
pub struct Pkt {
    pub ov: usize,
    pub key: usize,
    pub bytes: u32,
}

#[derive(Default)]
pub struct Port {
    pub q: VecDeque<Pkt>,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum Obj {
    /// Index of a port.
    Port(usize),
    /// The AFD device, and the port its completions go to.
    Afd(Option<usize>),
    /// Source number.
    Sock(usize),
    Event(usize),
    /// A registered wait.
    Wait(usize),
}

/// An AFD poll in flight.
#[derive(Clone, Copy, Debug)]
pub struct Op {
    pub iosb: usize,
    pub info: usize,
    pub sock: usize,
    pub mask: u32,
    pub afd: usize,
}

#[derive(Clone, Copy, Debug, PartialEq)]
pub enum WaitSt {
    Armed,
    Queued,
    Running,
    Done,
}

pub struct Wait {
    /// Source number of the event; the handle it was registered with.
    pub ev: usize,
    pub handle: usize,
    pub cb: usize,
    pub ctx: usize,
    pub st: WaitSt,
    /// When it was registered, and with which poller.
    pub at: u64,
    pub p: usize,
    /// Unregistered while the callback was queued or running.
    pub gone: bool,
}

/// A wait took the signal of an event that resets itself.
pub struct Take {
    pub ev: usize,
    pub at: u64,
    pub wait: usize,
}

/// A user's source: a socket or a waitable event.
#[derive(Clone, Default, Debug)]
pub struct Src {
    pub handle: usize,
    /// Handle of the base provider's socket, where it differs.
    pub base: usize,
    pub bits: u32,
    pub manual: bool,
    pub signaled: bool,
}

#[derive(Default)]
pub struct Kernel {
    pub handles: BTreeMap<usize, Obj>,
    pub ports: Vec<Port>,
    pub ops: Vec<Op>,
    pub waits: Vec<Wait>,
    pub callbacks: VecDeque<usize>,
    pub takes: Vec<Take>,
    /// Threads of the pool and the waits whose callbacks they run.
    pub running: BTreeMap<usize, usize>,
    /// A callback that was refused the packet it posts: poller, source, and when.
    pub refused: Vec<(usize, usize, u64)>,
    pub srcs: Vec<Src>,
    pub stop: bool,
    next: usize,
    free: Vec<usize>,
    /// Handles opened so far.
    pub created: u64,
}

impl Kernel {
    pub fn open(&mut self, o: Obj) -> usize {
        // The system gives the number closed last to the next object.
        let h = self.free.pop().unwrap_or_else(|| {
            self.next += 4;
            0x100 + self.next
        });
        self.created += 1;
        self.handles.insert(h, o);
        h
    }
    pub fn close(&mut self, h: usize) -> Option<Obj> {
        let o = self.handles.remove(&h)?;
        self.free.push(h);
        Some(o)
    }
    pub fn port_of(&self, h: usize) -> Option<usize> {
        match self.handles.get(&h) {
            Some(Obj::Port(p)) => Some(*p),
            _ => None,
        }
    }
    /// The source a socket handle (a base handle, where the socket has one of its own) stands for.
    pub fn sock_of(&self, h: usize, base: bool) -> Option<usize> {
        match self.handles.get(&h) {
            Some(Obj::Sock(x)) if base && self.srcs[*x].base == h => Some(*x),
            Some(Obj::Sock(x)) if !base && self.srcs[*x].handle == h => Some(*x),
            _ => None,
        }
    }

    fn finish(&mut self, i: usize, status: i32, bits: u32) {
        let op = self.ops.remove(i);
        unsafe {
            (op.iosb as *mut i32).write(status);
            if status == STATUS_SUCCESS {
                ((op.info + 8) as *mut u32).write(1);
                ((op.info + 24) as *mut u32).write(bits);
                ((op.info + 28) as *mut i32).write(0);
            }
        }
        if let Some(Obj::Afd(Some(p))) = self.handles.get(&op.afd) {
            let p = *p;
            self.ports[p].q.push_back(Pkt { ov: op.iosb, key: op.afd, bytes: 0 });
        }
    }

    /// Starts a poll; true if it completed at once.
    pub fn poll(&mut self, op: Op) -> bool {
        let bits = self.srcs[op.sock].bits & op.mask;
        self.ops.push(op);
        if bits != 0 {
            self.finish(self.ops.len() - 1, STATUS_SUCCESS, bits);
        }
        bits != 0
    }

    pub fn cancel(&mut self, afd: usize, iosb: usize) -> bool {
        match self.ops.iter().position(|o| o.afd == afd && o.iosb == iosb) {
            Some(i) => {
                self.finish(i, STATUS_CANCELLED, 0);
                true
            }
            None => false,
        }
    }

    /// All polls of a closed AFD handle end; nobody hears of it.
    pub fn abandon(&mut self, afd: usize) {
        self.ops.retain(|o| o.afd != afd);
    }

    /// The conditions of a socket changed.
    pub fn sock_changed(&mut self, x: usize) {
        let bits = self.srcs[x].bits;
        while let Some(i) = self.ops.iter().position(|o| o.sock == x && o.mask & bits != 0) {
            let b = self.ops[i].mask & bits;
            self.finish(i, STATUS_SUCCESS, b);
        }
    }

    /// Socket closed: polls in flight end with the condition only they can have.
    pub fn sock_closed(&mut self, x: usize) {
        while let Some(i) = self.ops.iter().position(|o| o.sock == x) {
            self.finish(i, STATUS_SUCCESS, LOCAL_CLOSE);
        }
    }

    /// Lets registered waits take the signal of an event.
    pub fn event_changed(&mut self, x: usize) {
        for i in 0..self.waits.len() {
            if !self.srcs[x].signaled {
                return;
            }
            if self.waits[i].ev == x && self.waits[i].st == WaitSt::Armed {
                self.waits[i].st = WaitSt::Queued;
                self.callbacks.push_back(i);
                if !self.srcs[x].manual {
                    self.srcs[x].signaled = false;
                    self.takes.push(Take { ev: x, at: crate::sim::s().next_seq(), wait: i });
                }
            }
        }
    }

    /// Addresses of blocks the system will write to or hand back.
    pub fn in_flight(&self, lo: usize, hi: usize) -> bool {
        let r = lo..hi;
        self.ops.iter().any(|o| r.contains(&o.iosb) || r.contains(&o.info))
            || self.ports.iter().any(|p| p.q.iter().any(|k| r.contains(&k.ov)))
    }
}
