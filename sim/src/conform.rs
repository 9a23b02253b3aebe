//! Differential test of the simulated kernel against the kernel this runs on: the same random sequence of calls goes to
//! both, and every result (return values, events and their order, readiness masks) must agree. Not part of any check.

use crate::kernel::*;
use crate::rng::Rng;

use std::ffi::{c_int, c_void};

const LEN: usize = 60;

#[derive(Clone, Copy, PartialEq, Debug)]
enum Obj {
    EventFd,
    Timer,
    PipeR(usize),
    PipeW(usize),
    Epoll,
    Unix(c_int),
    Tcp(c_int),
}

struct Pair {
    obj: Obj,
    real: c_int,
    sim: i32,
    open: bool,
    tx: bool,
    hup: bool,
    eof: bool,
}

fn check(r: c_int) -> c_int {
    assert!(r >= 0, "{}", std::io::Error::last_os_error());
    r
}

fn nb(fd: c_int) -> c_int {
    unsafe {
        let f = libc::fcntl(fd, libc::F_GETFL, 0);
        check(libc::fcntl(fd, libc::F_SETFL, f | libc::O_NONBLOCK));
    }
    fd
}

fn tcp_pair() -> (c_int, c_int) {
    use std::os::fd::IntoRawFd;
    let l = std::net::TcpListener::bind("127.0.0.1:0").unwrap();
    let a = std::net::TcpStream::connect(l.local_addr().unwrap()).unwrap();
    let b = l.accept().unwrap().0;
    a.set_nodelay(true).unwrap();
    b.set_nodelay(true).unwrap();
    (nb(a.into_raw_fd()), nb(b.into_raw_fd()))
}

fn errno() -> i32 {
    std::io::Error::last_os_error().raw_os_error().unwrap_or(0)
}

fn res(r: isize) -> Result<i64, i32> {
    if r < 0 {
        Err(errno())
    } else {
        Ok(r as i64)
    }
}

pub fn one(seed: u64, verbose: bool) -> Result<usize, String> {
    let mut r = Rng::new(seed);
    let mut k = Kernel { pipe_cap: 4096, fd_base: FD_BASE, ..Kernel::default() };
    let mut now = 1_000u64;
    let mut objs: Vec<Pair> = Vec::new();
    let add = |k: &mut Kernel, objs: &mut Vec<Pair>, obj: Obj, real: c_int, kind: Kind| {
        let f = k.new_file(kind, libc::O_NONBLOCK, Owner::Lib);
        let sim = k.alloc_fd(f, true, 0);
        objs.push(Pair { obj, real, sim, open: true, tx: true, hup: false, eof: false });
    };
    unsafe {
        for _ in 0..2 {
            let e = check(libc::epoll_create1(0));
            add(&mut k, &mut objs, Obj::Epoll, e, Kind::Epoll(Epoll::default()));
        }
        for _ in 0..2 {
            let e = check(libc::eventfd(0, libc::EFD_NONBLOCK));
            add(&mut k, &mut objs, Obj::EventFd, e, Kind::EventFd { count: 0, semaphore: false });
        }
        let t = check(libc::timerfd_create(libc::CLOCK_MONOTONIC, libc::TFD_NONBLOCK));
        add(&mut k, &mut objs, Obj::Timer, t, Kind::TimerFd { deadline: u64::MAX, interval: 0, ticks: 0, clock: 1 });
        let mut p = [0; 2];
        check(libc::pipe2(p.as_mut_ptr(), libc::O_NONBLOCK));
        check(libc::fcntl(p[1], 1031, 4096));
        let (a, b) = k.pipe(libc::O_NONBLOCK, Owner::Lib);
        objs.push(Pair { obj: Obj::PipeR(0), real: p[0], sim: a, open: true, tx: true, hup: false, eof: false });
        objs.push(Pair { obj: Obj::PipeW(0), real: p[1], sim: b, open: true, tx: true, hup: false, eof: false });
        let sock = |tcp| Kind::Sock(Sock { tx: true, tcp, ..Sock::default() });
        check(libc::socketpair(libc::AF_UNIX, libc::SOCK_STREAM, 0, p.as_mut_ptr()));
        nb(p[0]);
        nb(p[1]);
        add(&mut k, &mut objs, Obj::Unix(p[1]), p[0], sock(false));
        let (a, b) = tcp_pair();
        add(&mut k, &mut objs, Obj::Tcp(b), a, sock(true));
    }
    let mut log: Vec<String> = Vec::new();
    let mut n = 0;
    let mut torn = false; // the pipe was read in part: the page it began at is still taken
    let mut out = Ok(());
    for _ in 0..LEN {
        let i = r.below(objs.len() as u64) as usize;
        let (what, real, sim): (String, Result<Vec<i64>, i32>, Result<Vec<i64>, i32>) = match r.weighted(&[6, 5, 2, 4, 4, 6, 1, 2]) {
            0 => {
                let e = r.below(2) as usize;
                let op = *r.pick(&[libc::EPOLL_CTL_ADD, libc::EPOLL_CTL_ADD, libc::EPOLL_CTL_MOD, libc::EPOLL_CTL_MOD, libc::EPOLL_CTL_DEL]);
                let mut ev = 0u32;
                for b in [IN, OUT, PRI, RDHUP, HUP, ERR] {
                    // When a pipe counts as writable depends on its pages, which the simulated one does not have
                    // (and the library never asks).
                    if b == OUT && matches!(objs[i].obj, Obj::PipeW(_)) {
                        continue;
                    }
                    if r.chance(1, 2) {
                        ev |= b;
                    }
                }
                if r.chance(1, 3) {
                    ev |= EP_ONESHOT;
                }
                if r.chance(1, 3) {
                    ev |= EP_ET;
                }
                let data = r.below(1000);
                if objs[i].obj == Obj::Epoll && e != 0 {
                    continue; // no cycles
                }
                let mut x = libc::epoll_event { events: ev, u64: data };
                let a = res(unsafe { libc::epoll_ctl(objs[e].real, op, objs[i].real, &mut x) } as isize).map(|v| vec![v]);
                let b = k.epoll_ctl(objs[e].sim, op, objs[i].sim, Some((ev, data))).map(|_| vec![0]);
                (format!("epoll_ctl(e{}, {}, {:?}#{}, {:#x}, {})", e, op, objs[i].obj, i, ev, data), a, b)
            }
            1 => {
                let e = r.below(2) as usize;
                let max = *r.pick(&[1usize, 2, 3, 16]);
                let mut buf = [libc::epoll_event { events: 0, u64: 0 }; 16];
                let a = res(unsafe { libc::epoll_wait(objs[e].real, buf.as_mut_ptr(), max as c_int, 0) } as isize)
                    .map(|c| (0..c as usize).flat_map(|j| [{ buf[j].events } as i64, { buf[j].u64 } as i64]).collect());
                let id = k.ent(objs[e].sim).unwrap().file;
                let b = Ok(k.epoll_collect(id, max).into_iter().flat_map(|(m, d)| [m as i64, d as i64]).collect());
                (format!("epoll_wait(e{}, {})", e, max), a, b)
            }
            2 => {
                let evs: Vec<u32> = objs
                    .iter()
                    .map(|o| {
                        let out = if matches!(o.obj, Obj::PipeW(_)) { 0 } else { OUT | WRNORM | WRBAND };
                        r.below(0x8000) as u32 & (IN | PRI | RDHUP | RDNORM | out)
                    })
                    .collect();
                let mut real: Vec<libc::pollfd> =
                    objs.iter().zip(&evs).map(|(o, e)| libc::pollfd { fd: if o.open { o.real } else { -1 }, events: *e as i16, revents: 0 }).collect();
                unsafe { libc::poll(real.as_mut_ptr(), real.len() as _, 0) };
                let q: Vec<(i32, u32)> = objs.iter().zip(&evs).map(|(o, e)| (if o.open { o.sim } else { -1 }, *e)).collect();
                k.poll_touch(&q);
                let b = k.poll_scan(&q).into_iter().map(|m| m as i64).collect();
                ("poll(all)".into(), Ok(real.iter().map(|p| p.revents as u16 as i64).collect()), Ok(b))
            }
            3 => {
                let len = *r.pick(&[8usize, 8, 1, 64, 4096]);
                let mut buf = vec![0u8; len];
                match objs[i].obj {
                    Obj::Epoll | Obj::Unix(_) | Obj::Tcp(_) | Obj::PipeW(_) => continue,
                    _ if !objs[i].open => continue,
                    _ => {}
                }
                let a = res(unsafe { libc::read(objs[i].real, buf.as_mut_ptr() as *mut c_void, len) }).map(|c| {
                    buf.truncate(c as usize);
                    vec![c, crate::rng::hash_bytes(1, &buf) as i64]
                });
                torn |= matches!(objs[i].obj, Obj::PipeR(_)) && len < 4096;
                let b = k.read(objs[i].sim, len).map(|v| vec![v.len() as i64, crate::rng::hash_bytes(1, &v) as i64]);
                (format!("read({:?}#{}, {})", objs[i].obj, i, len), a, b)
            }
            4 => {
                let (data, what) = match objs[i].obj {
                    Obj::EventFd => {
                        let v = *r.pick(&[0u64, 1, 1, 2, u64::MAX - 1, u64::MAX, 1 << 40]);
                        (v.to_ne_bytes().to_vec(), format!("write(eventfd#{}, {})", i, v))
                    }
                    Obj::PipeW(_) if objs[i].open && !torn => {
                        let l = *r.pick(&[1usize, 1, 64, 4096, 1000]);
                        (vec![0; l], format!("write(pipe, {})", l))
                    }
                    _ => continue,
                };
                let a = res(unsafe { libc::write(objs[i].real, data.as_ptr() as *const c_void, data.len()) }).map(|c| vec![c]);
                let b = k.write(objs[i].sim, &data).map(|c| vec![c as i64]);
                (what, a, b)
            }
            5 => {
                let (peer, tcp) = match objs[i].obj {
                    Obj::Unix(p) => (p, false),
                    Obj::Tcp(p) => (p, true),
                    _ => continue,
                };
                let o = &mut objs[i];
                let one = [1u8];
                let a = r.weighted(&[5, 4, 1, 1, 2, 2, 2, 2]);
                if o.hup || matches!(a, 0 | 2 | 6) && o.eof {
                    continue;
                }
                let id = k.ent(o.sim).unwrap().file;
                let Kind::Sock(sk) = &mut k.file_mut(id).kind else { unreachable!() };
                if a == 1 && sk.pri {
                    continue; // reading on passes the urgent mark
                }
                let (name, key) = unsafe {
                    match a {
                        0 => {
                            libc::send(peer, one.as_ptr() as _, 1, 0);
                            sk.rx += 1;
                            ("feed", Some(IN | PRI | RDNORM | RDBAND))
                        }
                        1 => {
                            let mut b = [0u8; 4096];
                            while libc::recv(o.real, b.as_mut_ptr() as _, 4096, 0) > 0 {}
                            sk.rx = 0;
                            ("drain", None)
                        }
                        2 => {
                            libc::shutdown(peer, libc::SHUT_WR);
                            o.eof = true;
                            sk.eof = true;
                            ("eof", Some(0))
                        }
                        3 if !tcp && o.tx => {
                            libc::close(peer);
                            o.hup = true;
                            sk.eof = true;
                            sk.hup = true;
                            ("hup", Some(0))
                        }
                        4 if !tcp && o.tx => {
                            let b = [0u8; 4096];
                            while libc::send(o.real, b.as_ptr() as _, 4096, 0) > 0 {}
                            while libc::send(o.real, b.as_ptr() as _, 1, 0) > 0 {}
                            o.tx = false;
                            sk.tx = false;
                            ("txoff", None)
                        }
                        5 if !tcp && !o.tx => {
                            let mut b = [0u8; 4096];
                            while libc::recv(peer, b.as_mut_ptr() as _, 4096, 0) > 0 {}
                            o.tx = true;
                            sk.tx = true;
                            ("txon", Some(OUT | WRNORM | WRBAND))
                        }
                        6 if tcp && !sk.pri => {
                            libc::send(peer, one.as_ptr() as _, 1, libc::MSG_OOB);
                            sk.pri = true;
                            ("pri", Some(IN | PRI | RDNORM | RDBAND))
                        }
                        7 if tcp && sk.pri => {
                            let mut b = [0u8; 1];
                            libc::recv(o.real, b.as_mut_ptr() as _, 1, libc::MSG_OOB);
                            sk.pri = false;
                            ("unpri", None)
                        }
                        _ => continue,
                    }
                };
                if let Some(x) = key {
                    k.wake(id, x);
                }
                (format!("{:?}#{} {}", objs[i].obj, i, name), Ok(vec![]), Ok(vec![]))
            }
            6 => {
                if !matches!(objs[i].obj, Obj::PipeR(_) | Obj::PipeW(_)) || !objs[i].open {
                    continue;
                }
                objs[i].open = false;
                let a = res(unsafe { libc::close(objs[i].real) } as isize).map(|v| vec![v]);
                let b = k.close(objs[i].sim).map(|_| vec![0]);
                // The descriptor numbers of both kernels stay unused from now on.
                (format!("close({:?})", objs[i].obj), a, b)
            }
            _ => {
                // Timer: disarmed, expired at once, or far away.
                let ns = *r.pick(&[0i64, 1, 3_600_000_000_000]);
                let v = libc::itimerspec {
                    it_interval: libc::timespec { tv_sec: 0, tv_nsec: 0 },
                    it_value: libc::timespec { tv_sec: ns / 1_000_000_000, tv_nsec: ns % 1_000_000_000 },
                };
                let t = objs.iter().position(|o| o.obj == Obj::Timer).unwrap();
                let a = res(unsafe { libc::timerfd_settime(objs[t].real, 0, &v, std::ptr::null_mut()) } as isize).map(|v| vec![v]);
                if ns == 1 {
                    std::thread::sleep(std::time::Duration::from_micros(120));
                }
                let id = k.ent(objs[t].sim).unwrap().file;
                k.timer_set(id, if ns == 0 { u64::MAX } else { now + ns as u64 }, 0);
                now += 1000;
                k.fire_timers(now);
                (format!("timerfd_settime({} ns)", ns), a, Ok(vec![0]))
            }
        };
        n += 1;
        if verbose {
            println!("{} -> {:x?}", what, real);
        }
        let differ = real != sim;
        log.push(format!("{} -> real {:x?} simulated {:x?}", what, real, sim));
        if differ {
            out = Err(());
            break;
        }
    }
    for o in &objs {
        unsafe {
            if o.open {
                libc::close(o.real);
            }
            match o.obj {
                Obj::Unix(p) | Obj::Tcp(p) if !o.hup => {
                    libc::close(p);
                }
                _ => {}
            }
        }
    }
    match out {
        Ok(()) => Ok(n),
        Err(()) => Err(format!("seed {}:\n  {}", seed, log.join("\n  "))),
    }
}

pub fn main(seed: u64, count: u64) -> i32 {
    let (mut calls, mut bad) = (0, 0);
    for i in 0..count {
        match one(crate::rng::mix(seed ^ (i << 20)), false) {
            Ok(n) => calls += n,
            Err(e) => {
                bad += 1;
                if bad <= 5 {
                    println!("{}", e);
                }
            }
        }
    }
    println!("{} sequences, {} calls compared, {} sequences differ", count, calls, bad);
    (bad > 0) as i32
}
