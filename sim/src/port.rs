//! The simulated event ports, after illumos' `portfs`: an association is spent when its event is queued, associating again
//! takes a queued event back, dissociating and closing too; events sent by the user queue with the others in one line.

use std::collections::VecDeque;

use crate::kernel::*;

#[derive(Clone, Debug)]
pub struct Assoc {
    pub fd: i32,
    pub file: FileId,
    pub events: u32,
    pub user: usize,
    /// Waits for a condition; otherwise its event is queued or was collected.
    pub active: bool,
}

#[derive(Clone, Copy, Debug)]
pub struct PortEv {
    /// -1 if sent by the user.
    pub fd: i32,
    pub events: u32,
    pub user: usize,
}

#[derive(Clone, Debug, Default)]
pub struct Port {
    pub assocs: Vec<Assoc>,
    pub queue: VecDeque<PortEv>,
}

impl Kernel {
    pub fn port_mut(&mut self, fd: i32) -> Res<(FileId, &mut Port)> {
        let id = self.ent(fd)?.file;
        match &mut self.file_mut(id).kind {
            Kind::Port(p) => Ok((id, p)),
            _ => Err(libc::EBADFD),
        }
    }

    pub fn port(&mut self, id: FileId) -> &mut Port {
        match &mut self.file_mut(id).kind {
            Kind::Port(p) => p,
            _ => unreachable!(),
        }
    }

    fn look(&mut self, id: FileId, i: usize, depth: u32) {
        let a = self.port(id).assocs[i].clone();
        let got = self.mask(a.file) & (a.events | ERR | HUP);
        if !a.active || got == 0 {
            return;
        }
        let p = self.port(id);
        p.assocs[i].active = false;
        p.queue.push_back(PortEv { fd: a.fd, events: got, user: a.user });
        self.wake_at(id, IN | RDNORM, depth + 1);
    }

    /// What happens to the associations of a file when it changes.
    pub fn port_wake(&mut self, file: FileId, key: u32, depth: u32) {
        if !crate::oracle::PORT {
            return;
        }
        let mut hit = Vec::new();
        for (id, f) in self.files.iter().enumerate() {
            if let Some(File { kind: Kind::Port(p), .. }) = f {
                for (i, a) in p.assocs.iter().enumerate() {
                    if a.active && a.file == file && (key == 0 || key & (a.events | ERR | HUP) != 0) {
                        hit.push((id, i));
                    }
                }
            }
        }
        for (id, i) in hit {
            self.look(id, i, depth);
        }
    }

    pub fn port_associate(&mut self, pfd: i32, fd: i32, events: u32, user: usize) -> Res<()> {
        let (id, _) = self.port_mut(pfd)?;
        let file = self.ent(fd)?.file;
        let p = self.port(id);
        p.queue.retain(|e| e.fd != fd);
        let a = Assoc { fd, file, events, user, active: true };
        let i = match p.assocs.iter().position(|a| a.fd == fd) {
            Some(i) => {
                p.assocs[i] = a;
                i
            }
            None => {
                p.assocs.push(a);
                p.assocs.len() - 1
            }
        };
        self.look(id, i, 0);
        Ok(())
    }

    pub fn port_dissociate(&mut self, pfd: i32, fd: i32) -> Res<()> {
        let (id, _) = self.port_mut(pfd)?;
        self.ent(fd)?;
        let p = self.port(id);
        let queued = p.queue.iter().any(|e| e.fd == fd);
        p.queue.retain(|e| e.fd != fd);
        let Some(i) = p.assocs.iter().position(|a| a.fd == fd) else { return Err(libc::ENOENT) };
        let active = p.assocs.remove(i).active;
        if active || queued {
            Ok(())
        } else {
            Err(libc::ENOENT)
        }
    }

    pub fn port_send(&mut self, pfd: i32, events: u32, user: usize) -> Res<()> {
        let (id, p) = self.port_mut(pfd)?;
        p.queue.push_back(PortEv { fd: -1, events, user });
        self.wake_at(id, IN | RDNORM, 0);
        Ok(())
    }

    pub fn port_collect(&mut self, id: FileId, max: usize) -> Vec<PortEv> {
        let q = &mut self.port(id).queue;
        let n = q.len().min(max);
        q.drain(..n).collect()
    }

    /// Closing a descriptor removes its associations.
    pub fn port_fd_closed(&mut self, fd: i32) {
        if !crate::oracle::PORT {
            return;
        }
        for f in self.files.iter_mut().flatten() {
            if let Kind::Port(p) = &mut f.kind {
                p.assocs.retain(|a| a.fd != fd);
                p.queue.retain(|e| e.fd != fd);
            }
        }
    }
}
