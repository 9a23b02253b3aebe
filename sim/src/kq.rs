//! The simulated kqueue, after FreeBSD's `kern_event.c`: knotes are created by EV_ADD and keep the ONESHOT and CLEAR
//! flags they were created with; adding again changes user data and parameters and evaluates the filter anew; one-shot
//! knotes are delivered as they were activated and removed; the others are evaluated again when they are collected.

use std::collections::VecDeque;

use crate::kernel::*;

pub const READ: i16 = -1;
pub const WRITE: i16 = -2;
pub const PROC: i16 = -5;
pub const SIGNAL: i16 = -6;
pub const TIMER: i16 = -7;
pub const USER: i16 = -11;

pub const EV_ADD: u16 = 0x1;
pub const EV_DELETE: u16 = 0x2;
pub const EV_ENABLE: u16 = 0x4;
pub const EV_DISABLE: u16 = 0x8;
pub const EV_ONESHOT: u16 = 0x10;
pub const EV_CLEAR: u16 = 0x20;
pub const EV_RECEIPT: u16 = 0x40;
pub const EV_DROP: u16 = 0x1000;
pub const EV_ERROR: u16 = 0x4000;
pub const EV_EOF: u16 = 0x8000;

pub const NOTE_TRIGGER: u32 = 0x0100_0000;
pub const NOTE_EXIT: u32 = 0x8000_0000;
pub const NOTE_FORK: u32 = 0x4000_0000;
pub const NOTE_EXEC: u32 = 0x2000_0000;

#[repr(C)]
#[derive(Clone, Copy, Debug, Default)]
pub struct Kev {
    pub ident: usize,
    pub filter: i16,
    pub flags: u16,
    pub fflags: u32,
    pub data: i64,
    pub udata: isize,
    pub ext: [u64; 4],
}

#[derive(Clone, Debug)]
pub struct Knote {
    pub id: u64,
    pub kev: Kev,
    /// What was asked for.
    pub sfflags: u32,
    /// The watched file, of READ and WRITE.
    pub file: FileId,
    pub active: bool,
    pub queued: bool,
    pub disabled: bool,
    pub hook: bool,
    /// TIMER: the next expiry and the period.
    pub at: u64,
    pub every: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Kqueue {
    pub notes: Vec<Knote>,
    pub queue: VecDeque<u64>,
    pub next: u64,
}

fn is_fd(filter: i16) -> bool {
    filter == READ || filter == WRITE
}

impl Kernel {
    pub fn kq_mut(&mut self, fd: i32) -> Res<(FileId, &mut Kqueue)> {
        let id = self.ent(fd)?.file;
        match &mut self.file_mut(id).kind {
            Kind::Kqueue(q) => Ok((id, q)),
            _ => Err(libc::EBADF),
        }
    }

    fn kq(&mut self, id: FileId) -> &mut Kqueue {
        match &mut self.file_mut(id).kind {
            Kind::Kqueue(q) => q,
            _ => unreachable!(),
        }
    }

    /// What READ and WRITE find: ready, end of file, bytes.
    fn fd_event(&self, file: FileId, filter: i16) -> (bool, bool, i64) {
        let Some(f) = &self.files[file] else { return (true, true, 0) };
        match &f.kind {
            Kind::Sock(s) => {
                if filter == READ {
                    (s.rx > 0 || s.eof || s.hup || s.err, s.eof || s.hup, s.rx as i64)
                } else {
                    (s.tx || s.hup || s.err, s.hup, 1)
                }
            }
            Kind::PipeR(p) => {
                let p = &self.pipes[*p];
                (filter == READ && (!p.buf.is_empty() || p.writers == 0), p.writers == 0, p.buf.len() as i64)
            }
            Kind::PipeW(p) => {
                let p = &self.pipes[*p];
                (filter == WRITE && (p.buf.len() < p.cap || p.readers == 0), p.readers == 0, 1)
            }
            Kind::Kqueue(q) => (filter == READ && !q.queue.is_empty(), false, q.queue.len() as i64),
            _ => (true, false, 0),
        }
    }

    /// `f_event(kn, 0)`.
    fn evaluate(&mut self, kq: FileId, i: usize) -> bool {
        let n = &self.kq(kq).notes[i];
        let (filter, file) = (n.kev.filter, n.file);
        if is_fd(filter) {
            let (on, eof, data) = self.fd_event(file, filter);
            let n = &mut self.kq(kq).notes[i];
            if eof {
                n.kev.flags |= EV_EOF;
            } else {
                n.kev.flags &= !EV_EOF;
            }
            n.kev.data = data;
            return on;
        }
        let n = &self.kq(kq).notes[i];
        match filter {
            USER => n.hook,
            PROC => n.kev.fflags != 0 || n.kev.flags & (EV_EOF | EV_DROP) != 0,
            _ => n.kev.data != 0,
        }
    }

    fn activate(&mut self, kq: FileId, i: usize, depth: u32) {
        let q = self.kq(kq);
        let n = &mut q.notes[i];
        n.active = true;
        if n.queued || n.disabled {
            return;
        }
        n.queued = true;
        let id = n.id;
        q.queue.push_back(id);
        self.wake_at(kq, IN | RDNORM, depth + 1);
    }

    /// `KNOTE()` on the knotes of a file.
    pub fn kq_wake(&mut self, file: FileId, key: u32, depth: u32) {
        if !crate::oracle::KQ {
            return;
        }
        let both = key == 0 || key & (ERR | HUP) != 0;
        let mut hit = Vec::new();
        for (id, f) in self.files.iter().enumerate() {
            if let Some(File { kind: Kind::Kqueue(q), .. }) = f {
                for (i, n) in q.notes.iter().enumerate() {
                    let mine = match n.kev.filter {
                        READ => both || key & IN != 0,
                        WRITE => both || key & OUT != 0,
                        _ => false,
                    };
                    if mine && n.file == file {
                        hit.push((id, i));
                    }
                }
            }
        }
        for (id, i) in hit {
            if self.evaluate(id, i) {
                self.activate(id, i, depth);
            }
        }
    }

    fn drop_note(&mut self, kq: FileId, i: usize) {
        let q = self.kq(kq);
        let n = q.notes.remove(i);
        q.queue.retain(|x| *x != n.id);
    }

    /// `kqueue_register`.
    pub fn kq_register(&mut self, kqfd: i32, c: &Kev, now: u64) -> Res<()> {
        let kq = self.ent(kqfd)?.file;
        self.kq_mut(kqfd)?;
        let mut file = usize::MAX;
        match c.filter {
            READ | WRITE => {
                file = self.ent(c.ident as i32)?.file;
                if c.ident != c.ident as i32 as usize {
                    return Err(libc::EBADF);
                }
            }
            PROC | SIGNAL | TIMER | USER => {}
            _ => return Err(libc::EINVAL),
        }
        let pos = self.kq(kq).notes.iter().position(|n| n.kev.filter == c.filter && n.kev.ident == c.ident && n.file == file);
        let Some(i) = pos else {
            if c.flags & EV_ADD == 0 {
                return Err(libc::ENOENT);
            }
            let mut kev = *c;
            kev.flags &= !(EV_ADD | EV_DELETE | EV_ENABLE | EV_DISABLE | EV_RECEIPT);
            kev.fflags = 0;
            kev.data = 0;
            let mut n = Knote {
                id: 0,
                kev,
                sfflags: c.fflags,
                file,
                active: false,
                queued: false,
                disabled: c.flags & EV_DISABLE != 0,
                hook: false,
                at: u64::MAX,
                every: 0,
            };
            match c.filter {
                WRITE if matches!(self.file(file).kind, Kind::Kqueue(_)) => return Err(libc::EINVAL),
                READ | WRITE => {}
                SIGNAL => {
                    if c.ident == 0 || c.ident > 128 {
                        return Err(libc::EINVAL);
                    }
                    n.kev.flags |= EV_CLEAR;
                }
                PROC => {
                    if self.dead.contains(&c.ident) {
                        return Err(libc::ESRCH);
                    }
                    n.kev.flags |= EV_CLEAR;
                }
                TIMER => {
                    let p = timer_ns(c)?;
                    n.kev.flags |= EV_CLEAR;
                    n.at = now.saturating_add(p);
                    n.every = p;
                }
                _ => n.hook = c.fflags & NOTE_TRIGGER != 0,
            }
            let q = self.kq(kq);
            q.next += 1;
            n.id = q.next;
            q.notes.push(n);
            let i = self.kq(kq).notes.len() - 1;
            self.registered(kq, i);
            return Ok(());
        };
        if c.flags & EV_DELETE != 0 {
            self.drop_note(kq, i);
            return Ok(());
        }
        {
            let n = &mut self.kq(kq).notes[i];
            if c.flags & EV_ENABLE != 0 {
                n.disabled = false;
            } else if c.flags & EV_DISABLE != 0 {
                n.disabled = true;
            }
            n.kev.udata = c.udata;
        }
        match c.filter {
            USER => {
                let n = &mut self.kq(kq).notes[i];
                if c.fflags & NOTE_TRIGGER != 0 {
                    n.hook = true;
                }
                if c.flags & EV_CLEAR != 0 {
                    n.hook = false;
                }
            }
            TIMER => {
                if c.flags & EV_ADD != 0 {
                    let p = timer_ns(c)?;
                    let q = self.kq(kq);
                    let n = &mut q.notes[i];
                    n.active = false;
                    n.queued = false;
                    n.kev.data = 0;
                    n.at = now.saturating_add(p);
                    n.every = p;
                    let id = n.id;
                    q.queue.retain(|x| *x != id);
                }
            }
            _ => self.kq(kq).notes[i].sfflags = c.fflags,
        }
        self.registered(kq, i);
        Ok(())
    }

    fn registered(&mut self, kq: FileId, i: usize) {
        if !self.kq(kq).notes[i].disabled && self.evaluate(kq, i) {
            self.activate(kq, i, 0);
        }
    }

    /// One pass of `kqueue_scan`.
    pub fn kq_collect(&mut self, kq: FileId, max: usize) -> Vec<Kev> {
        let mut pass = std::mem::take(&mut self.kq(kq).queue);
        let mut out = Vec::new();
        while out.len() < max {
            let Some(id) = pass.pop_front() else { break };
            let Some(i) = self.kq(kq).notes.iter().position(|n| n.id == id) else { continue };
            {
                let n = &mut self.kq(kq).notes[i];
                n.queued = false;
                if n.disabled {
                    continue;
                }
                if n.kev.flags & EV_DROP != 0 {
                    self.kq(kq).notes.remove(i);
                    continue;
                }
                if n.kev.flags & EV_ONESHOT != 0 {
                    out.push(n.kev);
                    self.kq(kq).notes.remove(i);
                    continue;
                }
            }
            if !self.evaluate(kq, i) {
                self.kq(kq).notes[i].active = false;
                continue;
            }
            let q = self.kq(kq);
            let n = &mut q.notes[i];
            out.push(n.kev);
            if n.kev.flags & EV_CLEAR != 0 {
                n.active = false;
                n.hook = false;
                n.kev.data = 0;
                n.kev.fflags = 0;
            } else {
                n.queued = true;
                q.queue.push_back(id);
            }
        }
        let q = self.kq(kq);
        while let Some(id) = pass.pop_back() {
            q.queue.push_front(id);
        }
        out
    }

    /// Closing a descriptor removes the knotes of this number.
    pub fn kq_fd_closed(&mut self, fd: i32) {
        if !crate::oracle::KQ {
            return;
        }
        for f in self.files.iter_mut().flatten() {
            if let Kind::Kqueue(q) = &mut f.kind {
                let gone: Vec<u64> =
                    q.notes.iter().filter(|n| is_fd(n.kev.filter) && n.kev.ident == fd as usize).map(|n| n.id).collect();
                q.notes.retain(|n| !gone.contains(&n.id));
                q.queue.retain(|x| !gone.contains(x));
            }
        }
    }

    pub fn kq_signal(&mut self, signo: usize) {
        for (kq, i) in self.notes_of(SIGNAL, signo) {
            self.kq(kq).notes[i].kev.data += 1;
            self.activate(kq, i, 0);
        }
    }

    pub fn kq_proc(&mut self, pid: usize, what: u32) {
        if what == NOTE_EXIT {
            self.dead.push(pid);
        }
        for (kq, i) in self.notes_of(PROC, pid) {
            let n = &mut self.kq(kq).notes[i];
            n.kev.fflags |= n.sfflags & what;
            if what == NOTE_EXIT {
                n.kev.flags |= EV_EOF | EV_ONESHOT;
                if n.kev.fflags == 0 {
                    n.kev.flags |= EV_DROP;
                }
            }
            if self.evaluate(kq, i) {
                self.activate(kq, i, 0);
            }
        }
    }

    fn notes_of(&self, filter: i16, ident: usize) -> Vec<(FileId, usize)> {
        let mut v = Vec::new();
        for (id, f) in self.files.iter().enumerate() {
            if let Some(File { kind: Kind::Kqueue(q), .. }) = f {
                for (i, n) in q.notes.iter().enumerate() {
                    // What exited is no longer connected to its knotes.
                    if n.kev.filter == filter && n.kev.ident == ident && !(filter == PROC && n.kev.flags & EV_EOF != 0) {
                        v.push((id, i));
                    }
                }
            }
        }
        v
    }

    /// The next expiry that makes a difference: of a timer that has expired and was not collected, none does.
    pub fn kq_next_timer(&self) -> u64 {
        let mut t = u64::MAX;
        if !crate::oracle::KQ {
            return t;
        }
        for f in self.files.iter().flatten() {
            if let Kind::Kqueue(q) = &f.kind {
                for n in q.notes.iter().filter(|n| n.kev.filter == TIMER && n.kev.data == 0) {
                    t = t.min(n.at);
                }
            }
        }
        t
    }

    pub fn kq_fire(&mut self, now: u64) {
        if !crate::oracle::KQ {
            return;
        }
        let mut due = Vec::new();
        for (id, f) in self.files.iter().enumerate() {
            if let Some(File { kind: Kind::Kqueue(q), .. }) = f {
                for (i, n) in q.notes.iter().enumerate().filter(|(_, n)| n.kev.filter == TIMER && n.at <= now) {
                    due.push((n.at, id, i));
                }
            }
        }
        due.sort_unstable();
        for (_, kq, i) in due {
            let n = &mut self.kq(kq).notes[i];
            let k = if n.every == 0 { 1 } else { (now - n.at) / n.every + 1 };
            n.kev.data = n.kev.data.saturating_add(k as i64);
            n.at = if n.every == 0 { u64::MAX } else { n.at.saturating_add(n.every.saturating_mul(k)) };
            self.activate(kq, i, 0);
        }
    }
}

fn timer_ns(c: &Kev) -> Res<u64> {
    if c.data < 0 {
        return Err(libc::EINVAL);
    }
    let unit = match c.fflags {
        0x1 => 1_000_000_000,
        0x4 => 1_000,
        0x8 => 1,
        0 => 1_000_000,
        _ => return Err(libc::EINVAL),
    };
    Ok((c.data as u64).saturating_mul(unit))
}
