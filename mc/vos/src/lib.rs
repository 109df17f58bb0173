//! A small operating system for virtual threads: files below [ROOTS], advisory locks and datagram
//! sockets, behind the C library's own symbols. The code under test and the real libraries below it
//! (std, fslock, socket2) run unchanged; for threads outside an execution everything passes through.
//!
//! Every call is a scheduling point. A call may also be the place where the process is killed
//! (before it, or for a write in the middle of it) or where it fails, within the budgets of the scenario.
use sched::{choose, current, kill_self, note, point, wait_for, Op};
use std::collections::{BTreeMap, BTreeSet, VecDeque};
use std::ffi::CStr;
use std::sync::{Arc, Mutex};

pub mod sys;

pub const ROOTS: [&str; 2] = ["/vtmp", "/vdb"];
const FD0: i32 = 1_000_000;

#[derive(Clone, Debug, PartialEq)]
pub enum What {
    File { ino: usize, at: u64, append: bool },
    Sock(usize),
    Closed,
}
#[derive(Clone, Debug)]
struct Ofd {
    proc: usize,
    what: What,
}
#[derive(Clone, Debug, Default)]
pub struct Inode {
    pub data: Vec<u8>,
    lock: Vec<(usize, bool)>,
}
pub const LOOPBACK: [u8; 4] = [127, 0, 0, 1];
#[derive(Clone, Debug, Default)]
pub struct Sock {
    pub proc: usize,
    pub port: u16,
    pub bound: bool,
    pub closed: bool,
    /// the address it is bound to
    pub ip: [u8; 4],
    /// memberships: the group and the interface it was joined on
    pub groups: Vec<([u8; 4], [u8; 4])>,
    pub out_if: Option<[u8; 4]>,
    pub ttl: u8,
    pub no_loop: bool,
    pub lo_only: bool,
    pub reuse_addr: bool,
    pub reuse_port: bool,
    pub queue: VecDeque<(Vec<u8>, [u8; 4], u16)>,
}
#[derive(Default)]
pub struct Fs {
    pub names: BTreeMap<String, usize>,
    pub inodes: Vec<Inode>,
    fds: Vec<Ofd>,
    pub socks: Vec<Sock>,
    /// datagrams that were sent, by whom
    pub sent: Vec<(usize, u16, Vec<u8>)>,
    /// datagrams that another machine may have got, by whom
    pub left_machine: Vec<(usize, Vec<u8>)>,
    /// directories; only looked at when the scenario asks for them
    pub dirs: BTreeSet<String>,
    pub escaped: Vec<String>,
    pub crashes_left: usize,
    pub faults_left: usize,
    pub killed: Vec<usize>,
    pub failed: Vec<usize>,
}
pub struct Os {
    pub fs: Arc<Mutex<Fs>>,
    pub cfg: Cfg,
    net: u64,
}
#[derive(Clone, Debug, Default)]
pub struct Cfg {
    /// how often a process may be killed at a call, and which processes
    pub crashes: usize,
    pub faults: usize,
    pub only: Option<usize>,
    /// a write is only torn after the first byte, in the middle and before the last byte
    pub few_cuts: bool,
    /// calls on files order everything (needed where crashes are explored)
    pub files_all: bool,
    /// file calls are not scheduling points
    pub files_local: bool,
    /// files need their directory
    pub dirs: bool,
    /// the process id of the first process, if not the usual one
    pub pid1: Option<u32>,
}
/// give the execution an operating system with these files
pub fn install(w: &Arc<sched::World>, cfg: Cfg, files: &[(&str, &[u8])]) -> Arc<Os> {
    let mut fs = Fs { crashes_left: cfg.crashes, faults_left: cfg.faults, ..Default::default() };
    for (n, d) in files {
        fs.inodes.push(Inode { data: d.to_vec(), lock: vec![] });
        fs.names.insert(n.to_string(), fs.inodes.len() - 1);
    }
    let os = Arc::new(Os { fs: Arc::new(Mutex::new(fs)), cfg, net: w.obj() });
    let any: Arc<dyn std::any::Any + Send + Sync> = os.clone();
    w.ext.set(any).ok().unwrap();
    os
}
impl Os {
    pub fn file(&self, name: &str) -> Option<Vec<u8>> {
        let f = self.fs.lock().unwrap();
        f.names.get(name).map(|i| f.inodes[*i].data.clone())
    }
}
pub(crate) struct Cx {
    pub os: Arc<Os>,
    pub proc: usize,
}
pub(crate) fn cx() -> Option<Cx> {
    let (w, _) = current()?;
    let os = w.ext.get()?.clone().downcast::<Os>().ok()?;
    let proc = sched::proc_id()?;
    Some(Cx { os, proc })
}
/// A step of something else than the file system: the process may be killed before it.
pub fn may_die(what: &'static str) -> bool {
    let Some(c) = cx() else { return false };
    let faults = std::mem::take(&mut c.os.fs.lock().unwrap().faults_left);
    let r = c.doom(what, 0);
    c.os.fs.lock().unwrap().faults_left = faults;
    r.is_err()
}
pub(crate) fn virt(fd: i32) -> bool {
    fd >= FD0
}
pub(crate) enum Stop {
    Gone,
    Err(i32),
}
impl From<sched::Over> for Stop {
    fn from(_: sched::Over) -> Self {
        Stop::Gone
    }
}
type R<T> = Result<T, Stop>;
impl Cx {
    fn op(&self, obj: u64, write: bool) -> Op {
        if self.os.cfg.files_all {
            return sched::ALL;
        }
        Op { obj, write }
    }
    fn file_op(&self, name: &str) -> Op {
        let h = name.bytes().fold(0xcbf29ce484222325u64, |h, b| (h ^ b as u64).wrapping_mul(0x100000001b3)) | 1 << 63;
        self.op(h.min(u64::MAX - 1), true)
    }
    fn ino_op(&self, ino: usize) -> Op {
        self.op(1 << 62 | ino as u64, true)
    }
    /// a call is about to have an effect: it may not come to it
    fn doom(&self, what: &'static str, len: usize) -> R<Option<usize>> {
        let may = {
            let f = self.os.fs.lock().unwrap();
            self.os.cfg.only.map_or(true, |p| p == self.proc).then(|| (f.crashes_left > 0, f.faults_left > 0))
        };
        let Some((crash, fault)) = may else { return Ok(None) };
        if !crash && !fault || self.os.cfg.files_local {
            return Ok(None);
        }
        // 0: nothing; then: killed before; killed with part of it done; fails
        let mut opts = vec![0u8];
        let mut cuts: Vec<usize> = if len > 1 { (1..len).collect() } else { vec![] };
        if self.os.cfg.few_cuts && len > 3 {
            cuts = vec![1, len / 2, len - 1]
        }
        if crash {
            opts.push(1);
            opts.extend(cuts.iter().map(|_| 2))
        }
        if fault {
            opts.push(3)
        }
        let c = choose(opts.len(), what);
        match opts[c] {
            0 => Ok(None),
            1 => {
                self.os.fs.lock().unwrap().crashes_left -= 1;
                note(|| format!("process {} killed before {what}", self.proc));
                self.kill();
                Err(Stop::Gone)
            }
            2 => {
                let n = cuts[c - 2];
                self.os.fs.lock().unwrap().crashes_left -= 1;
                note(|| format!("process {} killed in {what} after {n} bytes", self.proc));
                Ok(Some(n))
            }
            _ => {
                let mut f = self.os.fs.lock().unwrap();
                f.faults_left -= 1;
                f.failed.push(self.proc);
                drop(f);
                note(|| format!("{what} fails for process {}", self.proc));
                Err(Stop::Err(libc::ENOSPC))
            }
        }
    }
    fn kill(&self) {
        note(|| format!("process {} is gone", self.proc));
        {
            let mut f = self.os.fs.lock().unwrap();
            f.killed.push(self.proc);
            for i in 0..f.fds.len() {
                if f.fds[i].proc == self.proc {
                    f.close(i)
                }
            }
        }
        kill_self();
    }
    fn fd(&self, fd: i32) -> R<usize> {
        let i = (fd - FD0) as usize;
        let f = self.os.fs.lock().unwrap();
        match f.fds.get(i) {
            Some(o) if o.what != What::Closed => Ok(i),
            _ => Err(Stop::Err(libc::EBADF)),
        }
    }
    fn what(&self, fd: i32) -> R<(usize, What)> {
        let i = self.fd(fd)?;
        Ok((i, self.os.fs.lock().unwrap().fds[i].what.clone()))
    }
    fn stop(&self, op: Op, what: &'static str) -> R<()> {
        if self.os.cfg.files_local {
            return if sched::gone() { Err(Stop::Gone) } else { Ok(()) };
        }
        Ok(point(op, what)?)
    }
    fn parent(&self, f: &Fs, path: &str) -> R<()> {
        let up = path.rsplit_once('/').map_or("", |p| p.0);
        if !self.os.cfg.dirs || ROOTS.contains(&up) || f.dirs.contains(up) {
            return Ok(());
        }
        Err(Stop::Err(libc::ENOENT))
    }
    pub(crate) fn mkdir(&self, path: &str) -> R<()> {
        if !self.os.cfg.dirs {
            return Err(Stop::Err(libc::EEXIST));
        }
        self.stop(self.file_op(path), "mkdir")?;
        {
            let f = self.os.fs.lock().unwrap();
            if ROOTS.contains(&path) || f.dirs.contains(path) || f.names.contains_key(path) {
                return Err(Stop::Err(libc::EEXIST));
            }
            self.parent(&f, path)?;
        }
        self.doom("mkdir", 0)?;
        self.os.fs.lock().unwrap().dirs.insert(path.into());
        note(|| format!("process {} makes {path}", self.proc));
        Ok(())
    }
    pub(crate) fn is_dir(&self, path: &str) -> R<bool> {
        if !self.os.cfg.dirs {
            return Ok(false);
        }
        self.stop(self.op(self.file_op(path).obj, false), "stat")?;
        Ok(ROOTS.contains(&path) || self.os.fs.lock().unwrap().dirs.contains(path))
    }
    pub(crate) fn open(&self, path: &str, flags: i32) -> R<i32> {
        self.stop(self.file_op(path), "open")?;
        let mut f = self.os.fs.lock().unwrap();
        self.parent(&f, path)?;
        let has = f.names.get(path).copied();
        if has.is_some() && flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
            return Err(Stop::Err(libc::EEXIST));
        }
        let changes = has.is_none() && flags & libc::O_CREAT != 0 || flags & libc::O_TRUNC != 0 && has.is_some_and(|i| !f.inodes[i].data.is_empty());
        if changes {
            drop(f);
            self.doom("open", 0)?;
            f = self.os.fs.lock().unwrap();
        }
        let ino = match has {
            Some(i) => i,
            None if flags & libc::O_CREAT != 0 => {
                f.inodes.push(Inode::default());
                let i = f.inodes.len() - 1;
                f.names.insert(path.into(), i);
                i
            }
            None => return Err(Stop::Err(libc::ENOENT)),
        };
        if flags & libc::O_TRUNC != 0 {
            f.inodes[ino].data.clear()
        }
        f.fds.push(Ofd { proc: self.proc, what: What::File { ino, at: 0, append: flags & libc::O_APPEND != 0 } });
        let fd = FD0 + f.fds.len() as i32 - 1;
        drop(f);
        note(|| format!("process {} opens {path} flags {flags:#x}", self.proc));
        Ok(fd)
    }
    pub(crate) fn read(&self, fd: i32, out: &mut [u8], at: Option<u64>) -> R<usize> {
        let (i, w) = self.what(fd)?;
        match w {
            What::File { ino, at: cur, .. } => {
                self.stop(self.ino_op(ino), "read")?;
                let mut f = self.os.fs.lock().unwrap();
                let from = at.unwrap_or(cur) as usize;
                let d = &f.inodes[ino].data;
                let n = d.len().saturating_sub(from).min(out.len());
                out[..n].copy_from_slice(&d[from..from + n]);
                if at.is_none() {
                    if let What::File { at, .. } = &mut f.fds[i].what {
                        *at += n as u64
                    }
                }
                Ok(n)
            }
            What::Sock(_) => self.recv(fd, out).map(|r| r.0),
            What::Closed => Err(Stop::Err(libc::EBADF)),
        }
    }
    pub(crate) fn write(&self, fd: i32, data: &[u8], pos: Option<u64>) -> R<usize> {
        let (i, w) = self.what(fd)?;
        let What::File { ino, at, append } = w else {
            return match w {
                What::Sock(_) => Err(Stop::Err(libc::EDESTADDRREQ)),
                _ => Err(Stop::Err(libc::EBADF)),
            };
        };
        self.stop(self.ino_op(ino), "write")?;
        let torn = self.doom("write", data.len())?;
        let part = &data[..torn.unwrap_or(data.len())];
        {
            let mut f = self.os.fs.lock().unwrap();
            let from = pos.unwrap_or(if append { f.inodes[ino].data.len() as u64 } else { at }) as usize;
            let d = &mut f.inodes[ino].data;
            if d.len() < from + part.len() {
                d.resize(from + part.len(), 0)
            }
            d[from..from + part.len()].copy_from_slice(part);
            if pos.is_none() {
                if let What::File { at, .. } = &mut f.fds[i].what {
                    *at = (from + part.len()) as u64
                }
            }
        }
        if torn.is_some() {
            self.kill();
            return Err(Stop::Gone);
        }
        note(|| format!("process {} writes {} bytes", self.proc, data.len()));
        Ok(data.len())
    }
    pub(crate) fn truncate(&self, fd: i32, len: u64) -> R<()> {
        let (_, What::File { ino, .. }) = self.what(fd)? else { return Err(Stop::Err(libc::EINVAL)) };
        self.stop(self.ino_op(ino), "truncate")?;
        self.doom("truncate", 0)?;
        self.os.fs.lock().unwrap().inodes[ino].data.resize(len as usize, 0);
        Ok(())
    }
    pub(crate) fn seek(&self, fd: i32, off: i64, whence: i32) -> R<i64> {
        let (i, What::File { ino, .. }) = self.what(fd)? else { return Err(Stop::Err(libc::ESPIPE)) };
        let mut f = self.os.fs.lock().unwrap();
        let len = f.inodes[ino].data.len() as i64;
        let What::File { at, .. } = &mut f.fds[i].what else { return Err(Stop::Err(libc::EBADF)) };
        let to = match whence {
            libc::SEEK_SET => off,
            libc::SEEK_CUR => *at as i64 + off,
            _ => len + off,
        };
        if to < 0 {
            return Err(Stop::Err(libc::EINVAL));
        }
        *at = to as u64;
        Ok(to)
    }
    pub(crate) fn close(&self, fd: i32) -> R<()> {
        let (i, w) = self.what(fd)?;
        if let What::File { ino, .. } = w {
            let locks = self.os.fs.lock().unwrap().inodes[ino].lock.iter().any(|l| l.0 == i);
            if locks {
                self.stop(self.ino_op(ino), "close")?;
            }
        }
        self.os.fs.lock().unwrap().close(i);
        Ok(())
    }
    pub(crate) fn flock(&self, fd: i32, how: i32) -> R<()> {
        let (i, What::File { ino, .. }) = self.what(fd)? else { return Err(Stop::Err(libc::EBADF)) };
        let op = self.ino_op(ino);
        if how & libc::LOCK_UN != 0 {
            self.stop(op, "unlock")?;
            self.doom("unlock", 0)?;
            self.os.fs.lock().unwrap().inodes[ino].lock.retain(|l| l.0 != i);
            return Ok(());
        }
        let excl = how & libc::LOCK_EX != 0;
        let free = {
            let fs = self.os.fs.clone();
            move || fs.lock().unwrap().inodes[ino].lock.iter().all(|l| l.0 == i || !excl && !l.1)
        };
        if how & libc::LOCK_NB != 0 || self.os.cfg.files_local {
            self.stop(op, "try lock")?;
            if !free() {
                return Err(Stop::Err(libc::EWOULDBLOCK));
            }
        } else {
            wait_for(op, "lock", free)?;
        }
        self.doom("lock", 0)?;
        let mut f = self.os.fs.lock().unwrap();
        f.inodes[ino].lock.retain(|l| l.0 != i);
        f.inodes[ino].lock.push((i, excl));
        drop(f);
        note(|| format!("process {} holds the lock", self.proc));
        Ok(())
    }
    pub(crate) fn rename(&self, a: &str, b: &str) -> R<()> {
        self.stop(self.op(u64::MAX, true), "rename")?;
        self.doom("rename", 0)?;
        let mut f = self.os.fs.lock().unwrap();
        self.parent(&f, b)?;
        let i = f.names.remove(a).ok_or(Stop::Err(libc::ENOENT))?;
        f.names.insert(b.into(), i);
        drop(f);
        note(|| format!("process {} renames {a} to {b}", self.proc));
        Ok(())
    }
    pub(crate) fn link(&self, a: &str, b: &str) -> R<()> {
        self.stop(self.op(u64::MAX, true), "link")?;
        self.doom("link", 0)?;
        let mut f = self.os.fs.lock().unwrap();
        let i = *f.names.get(a).ok_or(Stop::Err(libc::ENOENT))?;
        self.parent(&f, b)?;
        if f.names.contains_key(b) {
            return Err(Stop::Err(libc::EEXIST));
        }
        f.names.insert(b.into(), i);
        Ok(())
    }
    pub(crate) fn unlink(&self, a: &str) -> R<()> {
        self.stop(self.op(u64::MAX, true), "unlink")?;
        self.doom("unlink", 0)?;
        self.os.fs.lock().unwrap().names.remove(a).map(|_| ()).ok_or(Stop::Err(libc::ENOENT))
    }
    pub(crate) fn len(&self, path: Option<&str>, fd: i32) -> R<u64> {
        match path {
            Some(p) => {
                self.stop(self.file_op(p), "stat")?;
                let f = self.os.fs.lock().unwrap();
                f.names.get(p).map(|i| f.inodes[*i].data.len() as u64).ok_or(Stop::Err(libc::ENOENT))
            }
            None => {
                let (_, What::File { ino, .. }) = self.what(fd)? else { return Ok(0) };
                self.stop(self.ino_op(ino), "stat")?;
                Ok(self.os.fs.lock().unwrap().inodes[ino].data.len() as u64)
            }
        }
    }
    pub(crate) fn sync(&self, fd: i32) -> R<()> {
        let (_, w) = self.what(fd)?;
        if let What::File { ino, .. } = w {
            self.stop(self.ino_op(ino), "sync")?;
            self.doom("sync", 0)?;
        }
        Ok(())
    }
    pub(crate) fn socket(&self) -> R<i32> {
        let mut f = self.os.fs.lock().unwrap();
        f.socks.push(Sock { proc: self.proc, ttl: 1, ..Default::default() });
        let s = f.socks.len() - 1;
        f.fds.push(Ofd { proc: self.proc, what: What::Sock(s) });
        Ok(FD0 + f.fds.len() as i32 - 1)
    }
    pub(crate) fn with_sock<T>(&self, fd: i32, f: impl FnOnce(&mut Sock) -> T) -> R<T> {
        let (_, What::Sock(s)) = self.what(fd)? else { return Err(Stop::Err(libc::ENOTSOCK)) };
        Ok(f(&mut self.os.fs.lock().unwrap().socks[s]))
    }
    pub(crate) fn bind(&self, fd: i32, ip: [u8; 4], port: u16) -> R<()> {
        let (_, What::Sock(s)) = self.what(fd)? else { return Err(Stop::Err(libc::ENOTSOCK)) };
        let mut f = self.os.fs.lock().unwrap();
        let me = f.socks[s].clone();
        if me.bound {
            return Err(Stop::Err(libc::EINVAL));
        }
        if f.socks.iter().any(|o| o.bound && !o.closed && o.port == port && (o.ip == ip || o.ip == [0; 4] || ip == [0; 4]) && !(o.reuse_addr && me.reuse_addr) && !(o.reuse_port && me.reuse_port)) {
            return Err(Stop::Err(libc::EADDRINUSE));
        }
        let me = &mut f.socks[s];
        (me.bound, me.ip, me.port) = (true, ip, port);
        Ok(())
    }
    pub(crate) fn send(&self, fd: i32, data: &[u8], ip: [u8; 4], port: u16) -> R<usize> {
        let (_, What::Sock(s)) = self.what(fd)? else { return Err(Stop::Err(libc::ENOTSOCK)) };
        point(Op { obj: self.os.net, write: true }, "send")?;
        {
            let may = self.os.fs.lock().unwrap().faults_left > 0;
            if may && choose(2, "send") == 1 {
                let mut f = self.os.fs.lock().unwrap();
                f.faults_left -= 1;
                f.failed.push(self.proc);
                drop(f);
                note(|| format!("send fails for process {}", self.proc));
                return Err(Stop::Err(libc::ENETUNREACH));
            }
        }
        let mut f = self.os.fs.lock().unwrap();
        f.sent.push((self.proc, port, data.to_vec()));
        let from = 40_000 + s as u16;
        let me = f.socks[s].clone();
        let via = match me.out_if {
            Some(i) if i != [0; 4] => i,
            _ if me.lo_only => LOOPBACK,
            _ => [192, 168, 0, 2],
        };
        if ip[0] & 0xf0 == 0xe0 {
            if via != LOOPBACK && me.ttl > 0 {
                f.left_machine.push((self.proc, data.to_vec()))
            }
            if !me.no_loop {
                f.deliver(Some((ip, via)), port, data, via, from)
            }
        } else if ip[0] == 127 {
            // one socket gets it
            if let Some(s) = f.socks.iter_mut().rev().find(|s| s.bound && !s.closed && s.port == port && (s.ip == ip || s.ip == [0; 4])) {
                s.queue.push_back((data.to_vec(), LOOPBACK, from))
            }
        } else {
            f.left_machine.push((self.proc, data.to_vec()))
        }
        drop(f);
        note(|| format!("process {} sends {:?}", self.proc, data));
        Ok(data.len())
    }
    pub(crate) fn recv(&self, fd: i32, out: &mut [u8]) -> R<(usize, [u8; 4], u16)> {
        let (_, What::Sock(s)) = self.what(fd)? else { return Err(Stop::Err(libc::ENOTSOCK)) };
        let fs = self.os.fs.clone();
        // receiving takes from the own queue only: it commutes with receiving elsewhere
        wait_for(Op { obj: self.os.net, write: false }, "recv", move || !fs.lock().unwrap().socks[s].queue.is_empty())?;
        let mut f = self.os.fs.lock().unwrap();
        let (d, a, p) = f.socks[s].queue.pop_front().ok_or(Stop::Err(libc::EAGAIN))?;
        let n = d.len().min(out.len());
        out[..n].copy_from_slice(&d[..n]);
        drop(f);
        note(|| format!("process {} receives {:?} from {a:?}", self.proc, &d));
        Ok((n, a, p))
    }
}
impl Fs {
    fn close(&mut self, i: usize) {
        if let What::File { ino, .. } = self.fds[i].what {
            self.inodes[ino].lock.retain(|l| l.0 != i)
        }
        if let What::Sock(s) = self.fds[i].what {
            self.socks[s].closed = true
        }
        self.fds[i].what = What::Closed;
    }
    /// to a group through an interface, or to everybody who is bound to the port
    pub fn deliver(&mut self, group: Option<([u8; 4], [u8; 4])>, port: u16, data: &[u8], from: [u8; 4], fport: u16) {
        for s in self.socks.iter_mut().filter(|s| s.bound && !s.closed && s.port == port) {
            if let Some((g, via)) = group {
                let member = s.groups.iter().any(|(h, i)| *h == g && (*i == via || (*i == [0; 4] && via != LOOPBACK)));
                if !(member && (s.ip == g || s.ip == [0; 4]) && (via == LOOPBACK || !s.lo_only)) {
                    continue;
                }
            }
            s.queue.push_back((data.to_vec(), from, fport))
        }
    }
}
/// Send a datagram into the network from anywhere (a virtual thread of a foreign process)
pub fn inject(port: u16, data: &[u8], from: [u8; 4]) -> Result<(), sched::Over> {
    let c = cx().unwrap();
    point(Op { obj: c.os.net, write: true }, "inject")?;
    c.os.fs.lock().unwrap().deliver(None, port, data, from, 9);
    note(|| format!("datagram {data:?} from {from:?}"));
    Ok(())
}
pub(crate) fn path_of(p: *const libc::c_char) -> Option<String> {
    if p.is_null() {
        return None;
    }
    let s = unsafe { CStr::from_ptr(p) }.to_str().ok()?;
    ROOTS.iter().any(|r| s.strip_prefix(r).is_some_and(|t| t.is_empty() || t.starts_with('/'))).then(|| s.to_string())
}
