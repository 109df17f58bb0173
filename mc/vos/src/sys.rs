//! The C symbols. Calls that are not ours go to the kernel.
use crate::*;
use libc::{c_char, c_int, c_long, c_uint, c_void, mode_t, off64_t, size_t, sockaddr, socklen_t, ssize_t};

fn err(e: i32) -> c_int {
    unsafe { *libc::__errno_location() = e };
    -1
}
fn ret<T>(r: R<T>, f: impl FnOnce(T) -> i64) -> i64 {
    match r {
        Ok(v) => f(v),
        Err(Stop::Gone) => err(libc::EIO) as i64,
        Err(Stop::Err(e)) => err(e) as i64,
    }
}
/// virtual threads may not change real files
fn escape(what: &str, p: *const c_char) -> Option<c_int> {
    let c = cx()?;
    let s = unsafe { CStr::from_ptr(p) }.to_string_lossy().to_string();
    c.os.fs.lock().unwrap().escaped.push(format!("{what} {s}"));
    Some(err(libc::EACCES))
}
unsafe fn do_open(dir: c_int, p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    if let (Some(c), Some(path)) = (cx(), path_of(p)) {
        return ret(c.open(&path, flags), |v| v as i64) as c_int;
    }
    if flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC) != 0 {
        if let Some(e) = escape("open", p) {
            return e;
        }
    }
    libc::syscall(libc::SYS_openat, dir, p, flags, mode as c_uint) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn open(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(p: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    do_open(libc::AT_FDCWD, p, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match cx() {
        Some(c) if virt(fd) => ret(c.read(fd, std::slice::from_raw_parts_mut(buf.cast(), n), None), |v| v as i64) as ssize_t,
        _ => libc::syscall(libc::SYS_read, fd, buf, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off64_t) -> ssize_t {
    match cx() {
        Some(c) if virt(fd) => ret(c.read(fd, std::slice::from_raw_parts_mut(buf.cast(), n), Some(off as u64)), |v| v as i64) as ssize_t,
        _ => libc::syscall(libc::SYS_pread64, fd, buf, n, off) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match cx() {
        Some(c) if virt(fd) => ret(c.write(fd, std::slice::from_raw_parts(buf.cast(), n), None), |v| v as i64) as ssize_t,
        // what virtual threads print is not of interest
        Some(_) if fd == 1 || fd == 2 => n as ssize_t,
        _ => libc::syscall(libc::SYS_write, fd, buf, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off64_t) -> ssize_t {
    match cx() {
        Some(c) if virt(fd) => ret(c.write(fd, std::slice::from_raw_parts(buf.cast(), n), Some(off as u64)), |v| v as i64) as ssize_t,
        _ => libc::syscall(libc::SYS_pwrite64, fd, buf, n, off) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, v: *const libc::iovec, n: c_int) -> ssize_t {
    match cx() {
        Some(c) if virt(fd) => {
            let mut all = vec![];
            for i in std::slice::from_raw_parts(v, n as usize) {
                all.extend_from_slice(std::slice::from_raw_parts(i.iov_base as *const u8, i.iov_len))
            }
            ret(c.write(fd, &all, None), |v| v as i64) as ssize_t
        }
        _ => libc::syscall(libc::SYS_writev, fd, v, n) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if virt(fd) {
        return match cx() {
            Some(c) => ret(c.close(fd), |_| 0) as c_int,
            // closed after its execution is gone
            None => 0,
        };
    }
    libc::syscall(libc::SYS_close, fd) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    lseek64(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off64_t, whence: c_int) -> off64_t {
    match cx() {
        Some(c) if virt(fd) => ret(c.seek(fd, off, whence), |v| v),
        _ => libc::syscall(libc::SYS_lseek, fd, off, whence) as off64_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off64_t) -> c_int {
    ftruncate64(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off64_t) -> c_int {
    match cx() {
        Some(c) if virt(fd) => ret(c.truncate(fd, len as u64), |_| 0) as c_int,
        _ => libc::syscall(libc::SYS_ftruncate, fd, len) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    match cx() {
        Some(c) if virt(fd) => ret(c.sync(fd), |_| 0) as c_int,
        _ => libc::syscall(libc::SYS_fsync, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    match cx() {
        Some(c) if virt(fd) => ret(c.sync(fd), |_| 0) as c_int,
        _ => libc::syscall(libc::SYS_fdatasync, fd) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, how: c_int) -> c_int {
    match cx() {
        Some(c) if virt(fd) => ret(c.flock(fd, how), |_| 0) as c_int,
        _ => libc::syscall(libc::SYS_flock, fd, how) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: c_long) -> c_int {
    if virt(fd) && cx().is_some() {
        return 0;
    }
    libc::syscall(libc::SYS_fcntl, fd, cmd, arg) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn rename(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(c) = cx() {
        return match (path_of(a), path_of(b)) {
            (Some(a), Some(b)) => ret(c.rename(&a, &b), |_| 0) as c_int,
            _ => escape("rename", a).unwrap(),
        };
    }
    libc::syscall(libc::SYS_rename, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn link(a: *const c_char, b: *const c_char) -> c_int {
    if let Some(c) = cx() {
        return match (path_of(a), path_of(b)) {
            (Some(a), Some(b)) => ret(c.link(&a, &b), |_| 0) as c_int,
            _ => escape("link", a).unwrap(),
        };
    }
    libc::syscall(libc::SYS_link, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn linkat(d1: c_int, a: *const c_char, d2: c_int, b: *const c_char, flags: c_int) -> c_int {
    if cx().is_some() {
        return link(a, b);
    }
    libc::syscall(libc::SYS_linkat, d1, a, d2, b, flags) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn realpath(p: *const c_char, out: *mut c_char) -> *mut c_char {
    if let (Some(c), Some(path)) = (cx(), path_of(p)) {
        return match c.is_dir(&path) {
            Ok(true) => libc::strdup(p),
            Ok(false) => match c.len(Some(&path), -1) {
                Ok(_) => libc::strdup(p),
                _ => {
                    err(libc::ENOENT);
                    std::ptr::null_mut()
                }
            },
            Err(_) => {
                err(libc::EIO);
                std::ptr::null_mut()
            }
        };
    }
    static REAL: std::sync::OnceLock<usize> = std::sync::OnceLock::new();
    let f = *REAL.get_or_init(|| libc::dlsym(libc::RTLD_NEXT, b"realpath\0".as_ptr().cast()) as usize);
    let f: unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char = std::mem::transmute(f);
    f(p, out)
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(a: *const libc::timespec, b: *mut libc::timespec) -> c_int {
    // an execution does not wait for real time
    if current().is_some() {
        return 0;
    }
    libc::syscall(libc::SYS_nanosleep, a, b) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn unlink(a: *const c_char) -> c_int {
    if let Some(c) = cx() {
        return match path_of(a) {
            Some(a) => ret(c.unlink(&a), |_| 0) as c_int,
            _ => escape("unlink", a).unwrap(),
        };
    }
    libc::syscall(libc::SYS_unlink, a) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(a: *const c_char, m: mode_t) -> c_int {
    if cx().is_some() {
        return match path_of(a) {
            Some(p) => ret(cx().unwrap().mkdir(&p), |_| 0) as c_int,
            _ => escape("mkdir", a).unwrap(),
        };
    }
    libc::syscall(libc::SYS_mkdir, a, m as c_uint) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn statx(dir: c_int, p: *const c_char, flags: c_int, mask: c_uint, out: *mut libc::statx) -> c_int {
    if let Some(c) = cx() {
        let path = path_of(p);
        if virt(dir) || path.is_some() {
            match path.as_deref().filter(|_| !virt(dir)).map(|p| c.is_dir(p)) {
                Some(Ok(true)) => {
                    std::ptr::write_bytes(out, 0, 1);
                    (*out).stx_mode = (libc::S_IFDIR | 0o755) as u16;
                    (*out).stx_mask = libc::STATX_BASIC_STATS;
                    return 0;
                }
                Some(Err(_)) => return err(libc::EIO),
                _ => {}
            }
            return ret(c.len(path.as_deref().filter(|_| !virt(dir)), dir), |n| {
                std::ptr::write_bytes(out, 0, 1);
                (*out).stx_size = n;
                (*out).stx_mode = (libc::S_IFREG | 0o644) as u16;
                (*out).stx_mask = libc::STATX_BASIC_STATS;
                0
            }) as c_int;
        }
    }
    libc::syscall(libc::SYS_statx, dir, p, flags, mask, out) as c_int
}
unsafe fn fill_stat(c: &Cx, path: Option<&str>, fd: c_int, out: *mut libc::stat64) -> c_int {
    ret(c.len(path, fd), |n| {
        std::ptr::write_bytes(out, 0, 1);
        (*out).st_size = n as i64;
        (*out).st_mode = libc::S_IFREG | 0o644;
        0
    }) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, out: *mut libc::stat64) -> c_int {
    match cx() {
        Some(c) if virt(fd) => fill_stat(&c, None, fd, out),
        _ => libc::syscall(libc::SYS_fstat, fd, out) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat64(p: *const c_char, out: *mut libc::stat64) -> c_int {
    if let (Some(c), Some(p)) = (cx(), path_of(p)) {
        return fill_stat(&c, Some(&p), -1, out);
    }
    libc::syscall(libc::SYS_newfstatat, libc::AT_FDCWD, p, out, 0) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> libc::pid_t {
    match sched::proc_id() {
        Some(1) => cx().and_then(|c| c.os.cfg.pid1).unwrap_or(1001) as libc::pid_t,
        Some(p) => 1000 + p as libc::pid_t,
        None => libc::syscall(libc::SYS_getpid) as libc::pid_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn socket(domain: c_int, ty: c_int, proto: c_int) -> c_int {
    match cx() {
        Some(c) => ret(c.socket(), |v| v as i64) as c_int,
        None => libc::syscall(libc::SYS_socket, domain, ty, proto) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn setsockopt(fd: c_int, level: c_int, name: c_int, val: *const c_void, len: socklen_t) -> c_int {
    match cx() {
        Some(c) if virt(fd) => {
            let v = std::slice::from_raw_parts(val as *const u8, if val.is_null() { 0 } else { len as usize });
            let num = v.iter().fold(0u32, |a, b| a | *b as u32);
            let ip = |i: usize| v.get(i..i + 4).map_or([0; 4], |v| v.try_into().unwrap());
            let r = c.with_sock(fd, |s| {
                match (level, name) {
                    // the group comes first, then the address of the interface; ip_mreqn names it by its index, 1 is lo
                    (libc::IPPROTO_IP, libc::IP_ADD_MEMBERSHIP | libc::IP_DROP_MEMBERSHIP) => {
                        let iface = if v.len() >= 12 && ip(8) == 1i32.to_ne_bytes() { crate::LOOPBACK } else { ip(4) };
                        let m = (ip(0), iface);
                        if name == libc::IP_DROP_MEMBERSHIP {
                            s.groups.retain(|g| *g != m)
                        } else if s.groups.contains(&m) {
                            return Err(libc::EADDRINUSE);
                        } else if m.0[0] & 0xf0 != 0xe0 {
                            return Err(libc::EINVAL);
                        } else {
                            s.groups.push(m)
                        }
                    }
                    (libc::IPPROTO_IP, libc::IP_MULTICAST_IF) => {
                        s.out_if = Some(match v.len() {
                            0..=7 => ip(0),
                            12.. if ip(8) == 1i32.to_ne_bytes() => crate::LOOPBACK,
                            _ => ip(4),
                        })
                    }
                    (libc::IPPROTO_IP, libc::IP_MULTICAST_TTL) => s.ttl = num as u8,
                    (libc::IPPROTO_IP, libc::IP_MULTICAST_LOOP) => s.no_loop = num == 0,
                    (libc::SOL_SOCKET, libc::SO_REUSEADDR) => s.reuse_addr = num != 0,
                    (libc::SOL_SOCKET, libc::SO_REUSEPORT) => s.reuse_port = num != 0,
                    // who has no right to that does without
                    (libc::SOL_SOCKET, libc::SO_BINDTODEVICE) if s.proc % 2 == 0 => return Err(libc::EPERM),
                    (libc::SOL_SOCKET, libc::SO_BINDTODEVICE) => s.lo_only = v.starts_with(b"lo"),
                    _ => {}
                }
                Ok(())
            });
            match r {
                Ok(Err(e)) => err(e),
                r => ret(r, |_| 0) as c_int,
            }
        }
        _ => libc::syscall(libc::SYS_setsockopt, fd, level, name, val, len) as c_int,
    }
}
unsafe fn addr(a: *const sockaddr, len: socklen_t) -> Option<([u8; 4], u16)> {
    if a.is_null() || (len as usize) < std::mem::size_of::<libc::sockaddr_in>() || (*a).sa_family != libc::AF_INET as u16 {
        return None;
    }
    let a = *(a as *const libc::sockaddr_in);
    Some((a.sin_addr.s_addr.to_ne_bytes(), u16::from_be(a.sin_port)))
}
unsafe fn put_addr(ip: [u8; 4], port: u16, a: *mut sockaddr, len: *mut socklen_t) {
    if a.is_null() {
        return;
    }
    let mut v: libc::sockaddr_in = std::mem::zeroed();
    v.sin_family = libc::AF_INET as u16;
    v.sin_port = port.to_be();
    v.sin_addr.s_addr = u32::from_ne_bytes(ip);
    *(a as *mut libc::sockaddr_in) = v;
    *len = std::mem::size_of::<libc::sockaddr_in>() as socklen_t;
}
#[no_mangle]
pub unsafe extern "C" fn bind(fd: c_int, a: *const sockaddr, len: socklen_t) -> c_int {
    match cx() {
        Some(c) if virt(fd) => {
            let Some((ip, port)) = addr(a, len) else { return err(libc::EINVAL) };
            ret(c.bind(fd, ip, port), |_| 0) as c_int
        }
        _ => libc::syscall(libc::SYS_bind, fd, a, len) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendto(fd: c_int, buf: *const c_void, n: size_t, flags: c_int, a: *const sockaddr, len: socklen_t) -> ssize_t {
    match cx() {
        Some(c) if virt(fd) => {
            let Some((ip, port)) = addr(a, len) else { return err(libc::EDESTADDRREQ) as ssize_t };
            ret(c.send(fd, std::slice::from_raw_parts(buf.cast(), n), ip, port), |v| v as i64) as ssize_t
        }
        _ => libc::syscall(libc::SYS_sendto, fd, buf, n, flags, a, len) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn recvfrom(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int, a: *mut sockaddr, len: *mut socklen_t) -> ssize_t {
    match cx() {
        Some(c) if virt(fd) => ret(c.recv(fd, std::slice::from_raw_parts_mut(buf.cast(), n)), |(n, ip, port)| {
            put_addr(ip, port, a, len);
            n as i64
        }) as ssize_t,
        _ => libc::syscall(libc::SYS_recvfrom, fd, buf, n, flags, a, len) as ssize_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn recv(fd: c_int, buf: *mut c_void, n: size_t, flags: c_int) -> ssize_t {
    recvfrom(fd, buf, n, flags, std::ptr::null_mut(), std::ptr::null_mut())
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: *mut c_void) -> c_int {
    if virt(fd) && cx().is_some() {
        return 0;
    }
    libc::syscall(libc::SYS_ioctl, fd, req, arg) as c_int
}
/// makes sure this file is linked
pub fn here() -> usize {
    open64 as usize ^ statx as usize ^ recvfrom as usize
}
