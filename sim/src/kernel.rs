//! The simulated kernel objects: descriptor table, eventfd, timerfd, pipes, epoll, user sources.
//! Nothing here switches threads; blocking lives in `sim.rs`.

use std::collections::VecDeque;

pub const IN: u32 = 0x1;
pub const PRI: u32 = 0x2;
pub const OUT: u32 = 0x4;
pub const ERR: u32 = 0x8;
pub const HUP: u32 = 0x10;
pub const NVAL: u32 = 0x20;
pub const RDNORM: u32 = 0x40;
pub const RDBAND: u32 = 0x80;
pub const WRNORM: u32 = 0x100;
pub const WRBAND: u32 = 0x200;
pub const RDHUP: u32 = 0x2000;
pub const EP_ONESHOT: u32 = 1 << 30;
pub const EP_ET: u32 = 1 << 31;
const EP_PRIVATE: u32 = EP_ONESHOT | EP_ET | (1 << 29) | (1 << 28);

pub const FD_BASE: i32 = 1000; // the usual lowest descriptor number

pub type FileId = usize;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Owner {
    /// Created by a system call of the library.
    Lib,
    /// A user source (index into the scenario's sources).
    User(usize),
}

#[derive(Default, Clone, Debug)]
pub struct Sock {
    pub rx: u64,
    pub pri: bool,
    pub eof: bool,
    pub hup: bool,
    pub err: bool,
    pub tx: bool,
    /// reports no WRBAND (TCP); otherwise like a Unix socket
    pub tcp: bool,
}

#[derive(Clone, Debug)]
pub struct EpItem {
    pub fd: i32,
    pub file: FileId,
    pub events: u32,
    pub data: u64,
    pub queued: bool,
    /// when it was added: the last one is woken first
    pub seq: u64,
}

#[derive(Clone, Debug, Default)]
pub struct Epoll {
    pub items: Vec<EpItem>,
    /// Ready list: (fd, file) identifies the item.
    pub ready: VecDeque<(i32, FileId)>,
}

#[derive(Clone, Debug)]
pub struct Pipe {
    pub buf: VecDeque<u8>,
    pub cap: usize,
    pub readers: u32,
    pub writers: u32,
}

#[derive(Clone, Debug)]
pub enum Kind {
    EventFd { count: u64, semaphore: bool },
    TimerFd { deadline: u64, interval: u64, ticks: u64, clock: i32 },
    PipeR(usize),
    PipeW(usize),
    Epoll(Epoll),
    Kqueue(crate::kq::Kqueue),
    Port(crate::port::Port),
    Sock(Sock),
    Regular,
}

#[derive(Clone, Debug)]
pub struct File {
    pub kind: Kind,
    pub refs: u32,
    pub flags: i32,
    pub owner: Owner,
    /// Creation order, for reports.
    pub seq: u64,
    pub creator: usize,
}

#[derive(Clone, Copy, Debug)]
pub struct FdEnt {
    pub file: FileId,
    pub cloexec: bool,
}

#[derive(Default)]
pub struct Kernel {
    pub fds: Vec<Option<FdEnt>>,
    pub files: Vec<Option<File>>,
    pub pipes: Vec<Pipe>,
    pub pipe_cap: usize,
    /// The lowest descriptor number handed out.
    pub fd_base: i32,
    pub created: u64,
    pub seq: u64,
    /// The thread making the current call.
    pub actor: usize,
    /// Processes that have exited.
    pub dead: Vec<usize>,
}

pub type Res<T> = Result<T, i32>;

impl Kernel {
    pub fn alloc_fd(&mut self, file: FileId, cloexec: bool, from: usize) -> i32 {
        let mut i = from;
        while i < self.fds.len() && self.fds[i].is_some() {
            i += 1;
        }
        while self.fds.len() <= i {
            self.fds.push(None);
        }
        self.fds[i] = Some(FdEnt { file, cloexec });
        self.fd_base + i as i32
    }

    pub fn new_file(&mut self, kind: Kind, flags: i32, owner: Owner) -> FileId {
        self.created += 1;
        let f = File { kind, refs: 1, flags, owner, seq: self.created, creator: self.actor };
        self.files.push(Some(f));
        self.files.len() - 1
    }

    pub fn ent(&self, fd: i32) -> Res<FdEnt> {
        if fd < self.fd_base {
            return Err(libc::EBADF);
        }
        match self.fds.get((fd - self.fd_base) as usize) {
            Some(Some(e)) => Ok(*e),
            _ => Err(libc::EBADF),
        }
    }

    pub fn ent_mut(&mut self, fd: i32) -> Res<&mut FdEnt> {
        if fd < self.fd_base {
            return Err(libc::EBADF);
        }
        match self.fds.get_mut((fd - self.fd_base) as usize) {
            Some(Some(e)) => Ok(e),
            _ => Err(libc::EBADF),
        }
    }

    pub fn file(&self, id: FileId) -> &File {
        self.files[id].as_ref().expect("live file")
    }
    pub fn file_mut(&mut self, id: FileId) -> &mut File {
        self.files[id].as_mut().expect("live file")
    }
    pub fn of(&self, fd: i32) -> Res<&File> {
        Ok(self.file(self.ent(fd)?.file))
    }

    /// Current readiness mask of a file.
    pub fn mask(&self, id: FileId) -> u32 {
        self.mask_d(id, 0)
    }

    fn mask_d(&self, id: FileId, depth: u32) -> u32 {
        let f = match &self.files[id] {
            Some(f) => f,
            None => return 0,
        };
        match &f.kind {
            Kind::EventFd { count, .. } => {
                let mut m = 0;
                if *count > 0 {
                    m |= IN;
                }
                if *count == u64::MAX {
                    m |= ERR;
                }
                if *count < u64::MAX - 1 {
                    m |= OUT;
                }
                m
            }
            Kind::TimerFd { ticks, .. } => {
                if *ticks > 0 {
                    IN
                } else {
                    0
                }
            }
            Kind::PipeR(p) => {
                let p = &self.pipes[*p];
                let mut m = 0;
                if !p.buf.is_empty() {
                    m |= IN | RDNORM;
                }
                if p.writers == 0 {
                    m |= HUP;
                }
                m
            }
            Kind::PipeW(p) => {
                let p = &self.pipes[*p];
                let mut m = 0;
                if p.buf.len() < p.cap {
                    m |= OUT | WRNORM;
                }
                if p.readers == 0 {
                    m |= ERR;
                }
                m
            }
            Kind::Epoll(e) => {
                if depth > 4 {
                    return 0;
                }
                for r in &e.ready {
                    if let Some(it) = e.items.iter().find(|i| (i.fd, i.file) == *r) {
                        if self.mask_d(it.file, depth + 1) & it.events != 0 {
                            return IN | RDNORM;
                        }
                    }
                }
                0
            }
            Kind::Kqueue(q) => {
                if q.queue.is_empty() {
                    0
                } else {
                    IN | RDNORM
                }
            }
            Kind::Port(p) => {
                if p.queue.is_empty() {
                    0
                } else {
                    IN | RDNORM
                }
            }
            Kind::Sock(s) => {
                let mut m = 0;
                if s.rx > 0 || s.eof {
                    m |= IN | RDNORM;
                }
                if s.eof {
                    m |= RDHUP;
                }
                if s.pri {
                    m |= PRI;
                }
                if s.hup {
                    m |= HUP;
                }
                if s.err {
                    m |= ERR;
                }
                if s.tx {
                    m |= OUT | WRNORM | if s.tcp { 0 } else { WRBAND };
                }
                m
            }
            Kind::Regular => IN | OUT | RDNORM | WRNORM,
        }
    }

    pub fn pollable(&self, id: FileId) -> bool {
        !matches!(self.file(id).kind, Kind::Regular)
    }

    /// A wake-up on `file` with poll key `key` (0 = unconditional): what `ep_poll_callback` does in every epoll that
    /// watches the file. Blocked poll/epoll callers are re-evaluated lazily by the scheduler.
    pub fn wake(&mut self, file: FileId, key: u32) {
        self.wake_at(file, key, 0)
    }

    pub fn wake_at(&mut self, file: FileId, key: u32, depth: u32) {
        self.wake_d(file, key, depth);
        if depth <= 4 {
            self.kq_wake(file, key, depth);
            self.port_wake(file, key, depth);
        }
    }

    fn wake_d(&mut self, file: FileId, key: u32, depth: u32) {
        if depth > 4 {
            return;
        }
        let mut hit = Vec::new();
        for (eid, ef) in self.files.iter().enumerate() {
            if let Some(File { kind: Kind::Epoll(e), .. }) = ef {
                for (i, it) in e.items.iter().enumerate().filter(|(_, i)| i.file == file) {
                    // No condition is asked of a disabled one-shot.
                    if it.events & !EP_PRIVATE != 0 && (key == 0 || key & it.events != 0) {
                        hit.push((it.seq, eid, i));
                    }
                }
            }
        }
        hit.sort_unstable_by(|a, b| b.cmp(a));
        for (_, eid, i) in hit {
            if let Kind::Epoll(Epoll { items, ready }) = &mut self.file_mut(eid).kind {
                let it = &mut items[i];
                if !it.queued {
                    it.queued = true;
                    ready.push_back((it.fd, it.file));
                }
            }
            self.wake_d(eid, IN | RDNORM, depth + 1);
        }
    }

    // ---- epoll ----

    pub fn epoll_mut(&mut self, fd: i32) -> Res<(FileId, &mut Epoll)> {
        let id = self.ent(fd)?.file;
        match &mut self.file_mut(id).kind {
            Kind::Epoll(e) => Ok((id, e)),
            _ => Err(libc::EINVAL),
        }
    }

    fn reaches(&self, from: FileId, to: FileId, depth: u32) -> bool {
        if from == to {
            return true;
        }
        if depth > 5 {
            return true;
        }
        match &self.file(from).kind {
            Kind::Epoll(e) => e.items.iter().any(|i| self.reaches(i.file, to, depth + 1)),
            _ => false,
        }
    }

    pub fn epoll_ctl(&mut self, epfd: i32, op: i32, fd: i32, ev: Option<(u32, u64)>) -> Res<()> {
        let eid = self.ent(epfd)?.file;
        let tid = self.ent(fd)?.file;
        if !self.pollable(tid) {
            return Err(libc::EPERM);
        }
        if !matches!(self.file(eid).kind, Kind::Epoll(_)) || eid == tid {
            return Err(libc::EINVAL);
        }
        if op == libc::EPOLL_CTL_ADD
            && matches!(self.file(tid).kind, Kind::Epoll(_))
            && self.reaches(tid, eid, 0)
        {
            return Err(libc::ELOOP);
        }
        if op != libc::EPOLL_CTL_DEL {
            self.poll_purge(tid, 0);
        }
        let mask = self.mask(tid);
        self.seq += 1;
        let seq = self.seq;
        let (_, e) = self.epoll_mut(epfd)?;
        let pos = e.items.iter().position(|i| i.fd == fd && i.file == tid);
        match op {
            libc::EPOLL_CTL_ADD => {
                let (events, data) = ev.ok_or(libc::EFAULT)?;
                if pos.is_some() {
                    return Err(libc::EEXIST);
                }
                e.items.push(EpItem { fd, file: tid, events: events | ERR | HUP, data, queued: false, seq });
            }
            libc::EPOLL_CTL_MOD => {
                let (events, data) = ev.ok_or(libc::EFAULT)?;
                let i = pos.ok_or(libc::ENOENT)?;
                e.items[i].events = events | ERR | HUP;
                e.items[i].data = data;
            }
            libc::EPOLL_CTL_DEL => {
                let i = pos.ok_or(libc::ENOENT)?;
                e.items.remove(i);
                e.ready.retain(|r| *r != (fd, tid));
                return Ok(());
            }
            _ => return Err(libc::EINVAL),
        }
        let it = e.items.iter_mut().find(|i| i.fd == fd && i.file == tid).unwrap();
        let mut woke = false;
        if mask & it.events != 0 && !it.queued {
            it.queued = true;
            e.ready.push_back((fd, tid));
            woke = true;
        }
        if woke {
            self.wake(eid, IN | RDNORM);
        }
        Ok(())
    }

    /// Polling an epoll file drops queued items that turn out not to be ready (`__ep_eventpoll_poll`).
    fn poll_purge(&mut self, id: FileId, depth: u32) {
        if depth > 4 {
            return;
        }
        loop {
            let r = match &self.files[id] {
                Some(File { kind: Kind::Epoll(e), .. }) => match e.ready.front() {
                    Some(r) => *r,
                    None => return,
                },
                _ => return,
            };
            self.poll_purge(r.1, depth + 1);
            let m = self.mask(r.1);
            let Kind::Epoll(e) = &mut self.file_mut(id).kind else { return };
            match e.items.iter_mut().find(|i| (i.fd, i.file) == r) {
                Some(it) if m & it.events != 0 => return,
                Some(it) => it.queued = false,
                None => {}
            }
            e.ready.pop_front();
        }
    }

    /// Transfers ready events, as `ep_send_events` does.
    pub fn epoll_collect(&mut self, eid: FileId, max: usize) -> Vec<(u32, u64)> {
        let mut tx = match &mut self.file_mut(eid).kind {
            Kind::Epoll(e) => std::mem::take(&mut e.ready),
            _ => return Vec::new(),
        };
        let mut out = Vec::new();
        while out.len() < max {
            let Some(r) = tx.pop_front() else { break };
            self.poll_purge(r.1, 0);
            let m = if self.files[r.1].is_some() { self.mask(r.1) } else { 0 };
            let Kind::Epoll(e) = &mut self.file_mut(eid).kind else { unreachable!() };
            let Some(it) = e.items.iter_mut().find(|i| (i.fd, i.file) == r) else { continue };
            it.queued = false;
            let rev = m & it.events;
            if rev == 0 {
                continue;
            }
            out.push((rev, it.data));
            if it.events & EP_ONESHOT != 0 {
                it.events &= EP_PRIVATE;
            } else if it.events & EP_ET == 0 {
                it.queued = true;
                e.ready.push_back(r);
            }
        }
        if let Kind::Epoll(e) = &mut self.file_mut(eid).kind {
            // The unsent rest goes back to the head.
            while let Some(r) = tx.pop_back() {
                e.ready.push_front(r);
            }
        }
        out
    }

    pub fn epoll_has_ready(&self, eid: FileId) -> bool {
        self.mask(eid) & IN != 0
    }

    // ---- close ----

    pub fn close(&mut self, fd: i32) -> Res<()> {
        let e = self.ent(fd)?;
        self.fds[(fd - self.fd_base) as usize] = None;
        self.kq_fd_closed(fd);
        self.port_fd_closed(fd);
        let f = self.file_mut(e.file);
        f.refs -= 1;
        if f.refs > 0 {
            return Ok(());
        }
        let f = self.files[e.file].take().unwrap();
        for o in self.files.iter_mut().flatten() {
            if let Kind::Epoll(ep) = &mut o.kind {
                ep.items.retain(|i| i.file != e.file);
                ep.ready.retain(|r| r.1 != e.file);
            }
        }
        match f.kind {
            Kind::PipeR(p) => {
                self.pipes[p].readers -= 1;
                self.wake_pipe(p, false, ERR | OUT | WRNORM);
            }
            Kind::PipeW(p) => {
                self.pipes[p].writers -= 1;
                self.wake_pipe(p, true, IN | RDNORM | HUP);
            }
            _ => {}
        }
        Ok(())
    }

    pub fn wake_pipe(&mut self, p: usize, reader: bool, key: u32) {
        let ids: Vec<FileId> = self
            .files
            .iter()
            .enumerate()
            .filter(|(_, f)| match f.as_ref().map(|f| &f.kind) {
                Some(Kind::PipeR(q)) => reader && *q == p,
                Some(Kind::PipeW(q)) => !reader && *q == p,
                _ => false,
            })
            .map(|(i, _)| i)
            .collect();
        for i in ids {
            self.wake(i, key);
        }
    }

    pub fn pipe(&mut self, flags: i32, owner: Owner) -> (i32, i32) {
        let p = self.pipes.len();
        self.pipes.push(Pipe { buf: VecDeque::new(), cap: self.pipe_cap, readers: 1, writers: 1 });
        let fl = flags & libc::O_NONBLOCK;
        let cx = flags & libc::O_CLOEXEC != 0;
        let r = self.new_file(Kind::PipeR(p), fl, owner);
        let w = self.new_file(Kind::PipeW(p), fl | libc::O_WRONLY, owner);
        (self.alloc_fd(r, cx, 0), self.alloc_fd(w, cx, 0))
    }

    pub fn eventfd_count(&self, id: FileId) -> u64 {
        match self.file(id).kind {
            Kind::EventFd { count, .. } => count,
            _ => 0,
        }
    }

    /// A pipe of the library's with data in it, in non-blocking mode.
    pub fn has_late_data(&self, fd: i32) -> bool {
        let Ok(f) = self.of(fd) else { return false };
        match f.kind {
            Kind::PipeR(p) => f.owner == Owner::Lib && f.flags & libc::O_NONBLOCK != 0 && !self.pipes[p].buf.is_empty(),
            _ => false,
        }
    }

    /// Non-blocking read; `Err(EAGAIN)` where a blocking one would block.
    pub fn read(&mut self, fd: i32, n: usize) -> Res<Vec<u8>> {
        let id = self.ent(fd)?.file;
        let lib = self.file(id).owner == Owner::Lib;
        match &mut self.file_mut(id).kind {
            Kind::EventFd { count, semaphore } => {
                if n < 8 {
                    return Err(libc::EINVAL);
                }
                if *count == 0 && crate::oracle::ESP && lib {
                    // ESP-IDF returns the counter as it is.
                    return Ok(vec![0; 8]);
                }
                if *count == 0 {
                    return Err(libc::EAGAIN);
                }
                let v = if *semaphore { 1 } else { *count };
                *count -= v;
                self.wake(id, OUT);
                Ok(v.to_ne_bytes().to_vec())
            }
            Kind::TimerFd { ticks, .. } => {
                if n < 8 {
                    return Err(libc::EINVAL);
                }
                if *ticks == 0 {
                    return Err(libc::EAGAIN);
                }
                let v = std::mem::take(ticks);
                Ok(v.to_ne_bytes().to_vec())
            }
            Kind::PipeR(p) => {
                let p = *p;
                let pipe = &mut self.pipes[p];
                if n == 0 {
                    return Ok(Vec::new());
                }
                if pipe.buf.is_empty() {
                    return if pipe.writers == 0 { Ok(Vec::new()) } else { Err(libc::EAGAIN) };
                }
                let was_full = pipe.buf.len() >= pipe.cap;
                let k = n.min(pipe.buf.len());
                let out: Vec<u8> = pipe.buf.drain(..k).collect();
                if was_full {
                    self.wake_pipe(p, false, OUT | WRNORM);
                }
                Ok(out)
            }
            Kind::Sock(s) => {
                if s.rx == 0 {
                    return if s.eof { Ok(Vec::new()) } else { Err(libc::EAGAIN) };
                }
                let k = n.min(s.rx as usize);
                s.rx -= k as u64;
                Ok(vec![0; k])
            }
            Kind::Regular => Ok(Vec::new()),
            Kind::PipeW(_) => Err(libc::EBADF),
            Kind::Epoll(_) => Err(libc::EINVAL),
            Kind::Kqueue(_) | Kind::Port(_) => Err(libc::ENXIO),
        }
    }

    pub fn write(&mut self, fd: i32, data: &[u8]) -> Res<usize> {
        let id = self.ent(fd)?.file;
        match &mut self.file_mut(id).kind {
            Kind::EventFd { count, .. } => {
                if data.len() < 8 {
                    return Err(libc::EINVAL);
                }
                let v = u64::from_ne_bytes(data[..8].try_into().unwrap());
                if v == u64::MAX {
                    return Err(libc::EINVAL);
                }
                if u64::MAX - *count <= v {
                    return Err(libc::EAGAIN);
                }
                *count += v;
                self.wake(id, IN);
                Ok(8)
            }
            Kind::PipeW(p) => {
                let p = *p;
                let pipe = &mut self.pipes[p];
                if pipe.readers == 0 {
                    return Err(libc::EPIPE);
                }
                if data.is_empty() {
                    return Ok(0);
                }
                let room = pipe.cap - pipe.buf.len();
                if room == 0 || (data.len() <= 4096 && data.len() > room) {
                    self.wake_pipe(p, true, IN | RDNORM); // as if it had been polled before
                    return Err(libc::EAGAIN);
                }
                let k = room.min(data.len());
                pipe.buf.extend(&data[..k]);
                self.wake_pipe(p, true, IN | RDNORM);
                Ok(k)
            }
            Kind::Sock(s) => {
                if s.tx {
                    Ok(data.len())
                } else {
                    Err(libc::EAGAIN)
                }
            }
            Kind::Regular => Ok(data.len()),
            Kind::PipeR(_) => Err(libc::EBADF),
            Kind::TimerFd { .. } | Kind::Epoll(_) => Err(libc::EINVAL),
            Kind::Kqueue(_) | Kind::Port(_) => Err(libc::ENXIO),
        }
    }

    // ---- timers ----

    pub fn next_timer(&self) -> u64 {
        let mut t = u64::MAX;
        for f in self.files.iter().flatten() {
            if let Kind::TimerFd { deadline, .. } = f.kind {
                t = t.min(deadline);
            }
        }
        t.min(self.kq_next_timer())
    }

    pub fn fire_timers(&mut self, now: u64) {
        self.kq_fire(now);
        loop {
            let mut due: Option<(u64, FileId)> = None;
            for (i, f) in self.files.iter().enumerate() {
                if let Some(File { kind: Kind::TimerFd { deadline, .. }, .. }) = f {
                    if *deadline <= now && due.map_or(true, |d| *deadline < d.0) {
                        due = Some((*deadline, i));
                    }
                }
            }
            let Some((_, i)) = due else { return };
            if let Kind::TimerFd { deadline, interval, ticks, .. } = &mut self.file_mut(i).kind {
                *ticks += 1;
                if *interval > 0 {
                    let n = (now - *deadline) / *interval;
                    *ticks += n;
                    *deadline += *interval * (n + 1);
                } else {
                    *deadline = u64::MAX;
                }
            }
            self.wake(i, IN);
        }
    }

    pub fn timer_set(&mut self, id: FileId, at: u64, every: u64) {
        if let Kind::TimerFd { deadline, interval, ticks, .. } = &mut self.file_mut(id).kind {
            *ticks = 0;
            *deadline = at;
            *interval = every;
        }
    }

    // ---- poll ----

    /// What polling does to epoll files among the descriptors.
    pub fn poll_touch(&mut self, fds: &[(i32, u32)]) {
        for &(fd, _) in fds {
            if let Ok(e) = self.ent(fd) {
                self.poll_purge(e.file, 0);
            }
        }
    }

    pub fn poll_scan(&self, fds: &[(i32, u32)]) -> Vec<u32> {
        fds.iter()
            .map(|&(fd, ev)| {
                if fd < 0 {
                    return 0;
                }
                match self.ent(fd) {
                    Ok(e) => self.mask(e.file) & (ev | ERR | HUP),
                    Err(_) => NVAL,
                }
            })
            .collect()
    }

    pub fn poll_any(&self, fds: &[(i32, u32)]) -> bool {
        fds.iter().any(|&(fd, ev)| {
            fd >= 0
                && match self.ent(fd) {
                    Ok(e) => self.mask(e.file) & (ev | ERR | HUP) != 0,
                    Err(_) => true,
                }
        })
    }

    /// Library descriptors of files a thread created after a point in time.
    pub fn lib_fds_of(&self, tid: usize, after: u64) -> Vec<(i32, &'static str, bool)> {
        self.lib_fds().into_iter().filter(|x| {
            let f = self.file(self.fds[(x.0 - self.fd_base) as usize].unwrap().file);
            f.creator == tid && f.seq > after
        }).collect()
    }

    pub fn lib_fds(&self) -> Vec<(i32, &'static str, bool)> {
        let mut v = Vec::new();
        for (i, e) in self.fds.iter().enumerate() {
            if let Some(e) = e {
                let f = self.file(e.file);
                if f.owner == Owner::Lib {
                    v.push((self.fd_base + i as i32, kind_name(&f.kind), e.cloexec));
                }
            }
        }
        v
    }
}

pub fn kind_name(k: &Kind) -> &'static str {
    match k {
        Kind::EventFd { .. } => "eventfd",
        Kind::TimerFd { .. } => "timerfd",
        Kind::PipeR(_) => "pipe(read)",
        Kind::PipeW(_) => "pipe(write)",
        Kind::Epoll(_) => "epoll",
        Kind::Kqueue(_) => "kqueue",
        Kind::Port(_) => "port",
        Kind::Sock(_) => "source",
        Kind::Regular => "file",
    }
}
