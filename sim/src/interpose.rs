//! The C library functions through which programs reach files, clocks,
//! randomness and process control, redirected to the simulator for threads of
//! simulated processes. Other threads (the simulator itself) get the real ones.
#![allow(clippy::missing_safety_doc)]
use crate::kernel::{self, die, op, quick, sim, Class, Decision, Desc, DirStream, Exit, Kernel, FD_BASE, V};
use crate::simfs::{Node, R};
use libc::{c_char, c_int, c_long, c_void, mode_t, off_t, size_t, ssize_t};
use std::{
    arch::asm,
    ffi::{CStr, CString},
    sync::atomic::{AtomicPtr, AtomicUsize, Ordering},
};

// ---------------------------------------------------------------- plumbing

unsafe fn raw(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
         in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    r
}
unsafe fn set_errno(e: c_int) {
    *libc::__errno_location() = e;
}
unsafe fn ret(r: isize) -> isize {
    if (-4095..0).contains(&r) {
        set_errno(-r as c_int);
        -1
    } else {
        r
    }
}
unsafe fn out(r: R<isize>) -> isize {
    match r {
        Ok(v) => v,
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
macro_rules! next {
    ($name:expr, $t:ty) => {{
        static P: AtomicUsize = AtomicUsize::new(0);
        let mut p = P.load(Ordering::Relaxed);
        if p == 0 {
            p = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            P.store(p, Ordering::Relaxed);
        }
        std::mem::transmute::<usize, $t>(p)
    }};
}
unsafe fn cstr<'a>(p: *const c_char) -> &'a [u8] {
    if p.is_null() {
        b""
    } else {
        CStr::from_ptr(p).to_bytes()
    }
}
fn is_fake(fd: c_int) -> bool {
    fd >= FD_BASE
}

// The program's arguments: std reads them through the pointer it was given at
// start-up, so changing what that points to changes `std::env::args()`.
static ARGV: AtomicPtr<*const c_char> = AtomicPtr::new(std::ptr::null_mut());
static ARGC: AtomicUsize = AtomicUsize::new(0);

#[used]
#[link_section = ".init_array.00098"]
static GRAB_ARGS: extern "C" fn(c_int, *const *const c_char, *const *const c_char) = {
    extern "C" fn grab(argc: c_int, argv: *const *const c_char, _: *const *const c_char) {
        ARGC.store(argc as usize, Ordering::Relaxed);
        ARGV.store(argv as *mut *const c_char, Ordering::Relaxed);
    }
    grab
};
pub fn max_args() -> usize {
    ARGC.load(Ordering::Relaxed)
}
pub fn set_args(args: &[CString]) {
    let argv = ARGV.load(Ordering::Relaxed);
    let n = ARGC.load(Ordering::Relaxed);
    if argv.is_null() || args.is_empty() {
        return;
    }
    assert!(args.len() <= n, "too many arguments: {} > {}", args.len(), n);
    for i in 0..n {
        // (the strings live as long as the kernel, i.e. the whole run)
        unsafe { *argv.add(i) = args.get(i).map_or(std::ptr::null(), |a| a.as_ptr()) };
    }
}

// ---------------------------------------------------------------- open & co

fn do_open(k: &mut Kernel, p: usize, base: V, path: &[u8], flags: c_int, mode: mode_t) -> R<isize> {
    let m = k.procs[p].machine;
    let follow = flags & libc::O_NOFOLLOW == 0 && !(flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0);
    let (dir, name, v) = k.resolve(m, base, path, follow)?;
    let acc = flags & libc::O_ACCMODE;
    let write = acc == libc::O_WRONLY || acc == libc::O_RDWR;
    let now = k.real_ns;
    let v = match v {
        Some(v) => {
            if flags & libc::O_CREAT != 0 && flags & libc::O_EXCL != 0 {
                return Err(libc::EEXIST);
            }
            let fs = &k.fss[v.fs];
            match &fs.inodes[v.ino].node {
                Node::Link(_) => return Err(libc::ELOOP),
                // (really, it would wait for the other end)
                Node::Fifo => return Err(libc::ENXIO),
                Node::Dir(_) if write || flags & libc::O_CREAT != 0 => return Err(libc::EISDIR),
                Node::File(_) if flags & libc::O_DIRECTORY != 0 => return Err(libc::ENOTDIR),
                _ => {}
            }
            if k.unprivileged {
                let mode = k.fss[v.fs].inodes[v.ino].mode;
                if write && mode & 0o200 == 0 || acc != libc::O_WRONLY && mode & 0o400 == 0 {
                    return Err(libc::EACCES);
                }
            }
            if write && flags & libc::O_TRUNC != 0 && k.fss[v.fs].data(v.ino).map_or(false, |d| !d.is_empty()) {
                k.touch_check(p, v, "truncation");
                k.fss[v.fs].truncate(v.ino, 0, now)?;
            }
            v
        }
        None => {
            if flags & libc::O_CREAT == 0 {
                return Err(libc::ENOENT);
            }
            if path.ends_with(b"/") {
                return Err(libc::EISDIR);
            }
            if k.fss[dir.fs].cap.map_or(false, |c| k.fss[dir.fs].used >= c) {
                return Err(libc::ENOSPC);
            }
            let um = k.procs[p].umask;
            k.touch_check(p, dir, "creating a file in");
            let ino = k.fss[dir.fs].create_file(dir.ino, &name, mode & !um, now)?;
            V { fs: dir.fs, ino }
        }
    };
    let fd = k.new_fd(Desc {
        v,
        off: 0,
        append: flags & libc::O_APPEND != 0,
        read: acc != libc::O_WRONLY,
        write,
        path: path.to_vec(),
        proc: p,
    });
    Ok(fd as isize)
}

unsafe fn c_open(dirfd: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    match sim() {
        None => ret(raw(libc::SYS_openat, dirfd as usize, path as usize, flags as usize, mode as usize, 0, 0)) as c_int,
        Some(p) => {
            let path = cstr(path);
            let acc = flags & libc::O_ACCMODE;
            let class = if flags & libc::O_CREAT != 0 || acc != libc::O_RDONLY {
                Class::Create
            } else if flags & libc::O_DIRECTORY != 0 {
                Class::Opendir
            } else {
                Class::OpenR
            };
            out(op(p, class, path, |k, p, _| {
                let base = k.base(p, dirfd)?;
                do_open(k, p, base, path, flags, mode)
            })) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn open(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    c_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn open64(path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    c_open(libc::AT_FDCWD, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    c_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn openat64(d: c_int, path: *const c_char, flags: c_int, mode: mode_t) -> c_int {
    c_open(d, path, flags, mode)
}
#[no_mangle]
pub unsafe extern "C" fn creat(path: *const c_char, mode: mode_t) -> c_int {
    c_open(libc::AT_FDCWD, path, libc::O_CREAT | libc::O_WRONLY | libc::O_TRUNC, mode)
}
#[no_mangle]
pub unsafe extern "C" fn close(fd: c_int) -> c_int {
    if is_fake(fd) {
        if let Some(p) = sim() {
            return out(quick(p, |k, _| k.fds.remove(&fd).map(|_| 0).ok_or(libc::EBADF))) as c_int;
        }
        let _g = kernel::in_kernel();
        let mut g = kernel::lock();
        if let Some(k) = g.as_mut() {
            k.fds.remove(&fd);
        }
        return 0;
    }
    ret(raw(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0)) as c_int
}

// ---------------------------------------------------------------- read/write

fn fd_path(k: &mut Kernel, fd: c_int) -> Vec<u8> {
    k.desc(fd).map(|d| d.path.clone()).unwrap_or_default()
}
fn path_of_fd(p: usize, fd: c_int) -> Vec<u8> {
    quick(p, |k, _| fd_path(k, fd))
}

fn do_read(k: &mut Kernel, p: usize, d: &Decision, fd: c_int, buf: &mut [u8], at: Option<u64>) -> R<isize> {
    let (v, off, ok) = {
        let x = k.desc(fd)?;
        (x.v, x.off, x.read)
    };
    if !ok {
        return Err(libc::EBADF);
    }
    let n = if matches!(d, Decision::Short) { (buf.len() / 2).max(1).min(buf.len()) } else { buf.len() };
    let n = k.fss[v.fs].read_at(v.ino, at.unwrap_or(off), &mut buf[..n])?;
    if at.is_none() {
        k.desc(fd)?.off += n as u64;
    }
    note_read(k, p, v, n as u64);
    Ok(n as isize)
}
fn note_read(k: &mut Kernel, p: usize, v: V, n: u64) {
    if let Some(o) = k.oracle.take() {
        if let Some(name) = o.remote_name(k, v) {
            *k.procs[p].fetched.entry(name).or_default() += n;
        }
        k.oracle = Some(o);
    }
}
fn do_write(k: &mut Kernel, p: usize, d: &Decision, fd: c_int, buf: &[u8], at: Option<u64>) -> R<isize> {
    let (v, off, append, ok) = {
        let x = k.desc(fd)?;
        (x.v, x.off, x.append, x.write)
    };
    if !ok {
        return Err(libc::EBADF);
    }
    k.touch_check(p, v, "write");
    let n = if matches!(d, Decision::Short) { (buf.len() / 2).max(1).min(buf.len()) } else { buf.len() };
    let off = if append { k.fss[v.fs].data(v.ino).map_or(0, |d| d.len() as u64) } else { at.unwrap_or(off) };
    let now = k.real_ns;
    let n = k.fss[v.fs].write_at(v.ino, off, &buf[..n], now)?;
    if at.is_none() {
        k.desc(fd)?.off = off + n as u64;
    }
    Ok(n as isize)
}

#[no_mangle]
pub unsafe extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    match sim() {
        Some(p) if is_fake(fd) => {
            let path = path_of_fd(p, fd);
            let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            out(op(p, Class::Read, &path, |k, p, d| do_read(k, p, d, fd, b, None)))
        }
        Some(_) if fd == 0 => 0,
        _ => ret(raw(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0)),
    }
}
unsafe fn c_pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    match sim() {
        Some(p) if is_fake(fd) => {
            let path = path_of_fd(p, fd);
            let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            out(op(p, Class::Read, &path, |k, p, d| do_read(k, p, d, fd, b, Some(off as u64))))
        }
        _ => ret(raw(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pread(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    c_pread(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: off_t) -> ssize_t {
    c_pread(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn readv(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    match sim() {
        Some(p) if is_fake(fd) => {
            let path = path_of_fd(p, fd);
            let iov = std::slice::from_raw_parts(iov, n as usize);
            out(op(p, Class::Read, &path, |k, p, d| {
                let mut total = 0;
                for v in iov {
                    if v.iov_len == 0 {
                        continue;
                    }
                    let b = std::slice::from_raw_parts_mut(v.iov_base as *mut u8, v.iov_len);
                    let r = do_read(k, p, d, fd, b, None)?;
                    total += r;
                    if (r as usize) < v.iov_len {
                        break;
                    }
                }
                Ok(total)
            }))
        }
        _ => ret(raw(libc::SYS_readv, fd as usize, iov as usize, n as usize, 0, 0, 0)),
    }
}
fn capture(k: &mut Kernel, p: usize, b: &[u8]) -> R<()> {
    let o = &mut k.procs[p].out;
    if o.len() < 64 << 10 {
        o.extend_from_slice(b);
    }
    match k.mute {
        0 => Ok(()),
        e => Err(e),
    }
}
#[no_mangle]
pub unsafe extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    match sim() {
        Some(p) if is_fake(fd) => {
            let path = path_of_fd(p, fd);
            let b = std::slice::from_raw_parts(buf as *const u8, n);
            out(op(p, Class::Write, &path, |k, p, d| do_write(k, p, d, fd, b, None)))
        }
        Some(p) if fd == 1 || fd == 2 => {
            let b = std::slice::from_raw_parts(buf as *const u8, n);
            out(quick(p, |k, p| capture(k, p, b).map(|_| n as isize)))
        }
        _ => ret(raw(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0)),
    }
}
unsafe fn c_pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    match sim() {
        Some(p) if is_fake(fd) => {
            let path = path_of_fd(p, fd);
            let b = std::slice::from_raw_parts(buf as *const u8, n);
            out(op(p, Class::Write, &path, |k, p, d| do_write(k, p, d, fd, b, Some(off as u64))))
        }
        _ => ret(raw(libc::SYS_pwrite64, fd as usize, buf as usize, n, off as usize, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn pwrite(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    c_pwrite(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn pwrite64(fd: c_int, buf: *const c_void, n: size_t, off: off_t) -> ssize_t {
    c_pwrite(fd, buf, n, off)
}
#[no_mangle]
pub unsafe extern "C" fn writev(fd: c_int, iov: *const libc::iovec, n: c_int) -> ssize_t {
    match sim() {
        Some(p) if is_fake(fd) => {
            let path = path_of_fd(p, fd);
            let mut all = Vec::new();
            for v in std::slice::from_raw_parts(iov, n as usize) {
                all.extend_from_slice(std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len));
            }
            out(op(p, Class::Write, &path, |k, p, d| do_write(k, p, d, fd, &all, None)))
        }
        Some(p) if fd == 1 || fd == 2 => {
            let mut total = 0;
            for v in std::slice::from_raw_parts(iov, n as usize) {
                let b = std::slice::from_raw_parts(v.iov_base as *const u8, v.iov_len);
                if let Err(e) = quick(p, |k, p| capture(k, p, b)) {
                    set_errno(e);
                    return -1;
                }
                total += v.iov_len;
            }
            total as ssize_t
        }
        _ => ret(raw(libc::SYS_writev, fd as usize, iov as usize, n as usize, 0, 0, 0)),
    }
}
fn do_lseek(k: &mut Kernel, fd: c_int, off: i64, whence: c_int) -> R<isize> {
    let (v, cur) = {
        let d = k.desc(fd)?;
        (d.v, d.off as i64)
    };
    let len = k.fss[v.fs].data(v.ino).map_or(0, |d| d.len() as i64);
    let to = match whence {
        libc::SEEK_SET => off,
        libc::SEEK_CUR => cur + off,
        libc::SEEK_END => len + off,
        _ => return Err(libc::EINVAL),
    };
    if to < 0 {
        return Err(libc::EINVAL);
    }
    k.desc(fd)?.off = to as u64;
    Ok(to as isize)
}
unsafe fn c_lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    match sim() {
        Some(p) if is_fake(fd) => out(quick(p, |k, _| do_lseek(k, fd, off, whence))) as off_t,
        _ => ret(raw(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0)) as off_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn lseek(fd: c_int, off: off_t, whence: c_int) -> off_t {
    c_lseek(fd, off, whence)
}
#[no_mangle]
pub unsafe extern "C" fn lseek64(fd: c_int, off: off_t, whence: c_int) -> off_t {
    c_lseek(fd, off, whence)
}

fn do_copy(k: &mut Kernel, p: usize, d: &Decision, i: c_int, ioff: Option<&mut i64>, o: c_int, ooff: Option<&mut i64>, n: usize) -> R<isize> {
    let (iv, icur, iok) = {
        let x = k.desc(i)?;
        (x.v, x.off, x.read)
    };
    let (ov, ocur, ook, app) = {
        let x = k.desc(o)?;
        (x.v, x.off, x.write, x.append)
    };
    if !iok || !ook || app {
        return Err(libc::EBADF);
    }
    if k.fss[iv.fs].is_dir(iv.ino) {
        return Err(libc::EISDIR);
    }
    // the kernel copies large ranges in pieces; so do we, to leave room for
    // interleavings and crashes in the middle
    let mut n = n.min(16 << 10);
    if matches!(d, Decision::Short) {
        n = (n / 8).max(1);
    }
    let mut buf = vec![0u8; n];
    let from = ioff.as_ref().map_or(icur, |x| **x as u64);
    let got = k.fss[iv.fs].read_at(iv.ino, from, &mut buf)?;
    k.touch_check(p, ov, "copy into");
    let to = ooff.as_ref().map_or(ocur, |x| **x as u64);
    let now = k.real_ns;
    let put = k.fss[ov.fs].write_at(ov.ino, to, &buf[..got], now)?;
    match ioff {
        Some(x) => *x += put as i64,
        None => k.desc(i)?.off += put as u64,
    }
    match ooff {
        Some(x) => *x += put as i64,
        None => k.desc(o)?.off += put as u64,
    }
    note_read(k, p, iv, put as u64);
    Ok(put as isize)
}
#[no_mangle]
pub unsafe extern "C" fn copy_file_range(i: c_int, io: *mut i64, o: c_int, oo: *mut i64, n: size_t, fl: libc::c_uint) -> ssize_t {
    match sim() {
        Some(p) if is_fake(i) && is_fake(o) => {
            let path = path_of_fd(p, o);
            out(op(p, Class::Copy, &path, |k, p, d| {
                // crossing file systems is not supported by older kernels and
                // many file systems
                let a = k.desc(i)?.v.fs;
                let b = k.desc(o)?.v.fs;
                if a != b {
                    return Err(libc::EXDEV);
                }
                do_copy(k, p, d, i, io.as_mut(), o, oo.as_mut(), n)
            }))
        }
        _ => ret(raw(libc::SYS_copy_file_range, i as usize, io as usize, o as usize, oo as usize, n, fl as usize)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendfile(o: c_int, i: c_int, off: *mut i64, n: size_t) -> ssize_t {
    match sim() {
        Some(p) if is_fake(i) && is_fake(o) => {
            let path = path_of_fd(p, o);
            out(op(p, Class::Copy, &path, |k, p, d| do_copy(k, p, d, i, off.as_mut(), o, None, n)))
        }
        Some(_) if is_fake(i) || is_fake(o) => out(Err(libc::EINVAL)),
        _ => ret(raw(libc::SYS_sendfile, o as usize, i as usize, off as usize, n, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn sendfile64(o: c_int, i: c_int, off: *mut i64, n: size_t) -> ssize_t {
    sendfile(o, i, off, n)
}
#[no_mangle]
pub unsafe extern "C" fn splice(i: c_int, io: *mut i64, o: c_int, oo: *mut i64, n: size_t, fl: libc::c_uint) -> ssize_t {
    match sim() {
        Some(_) if is_fake(i) || is_fake(o) => out(Err(libc::EINVAL)),
        _ => ret(raw(libc::SYS_splice, i as usize, io as usize, o as usize, oo as usize, n, fl as usize)),
    }
}
unsafe fn c_ftruncate(fd: c_int, len: off_t) -> c_int {
    match sim() {
        Some(p) if is_fake(fd) => {
            let path = path_of_fd(p, fd);
            out(op(p, Class::Trunc, &path, |k, p, _| {
                let v = k.desc(fd)?.v;
                k.touch_check(p, v, "truncation");
                let now = k.real_ns;
                k.fss[v.fs].truncate(v.ino, len as u64, now).map(|_| 0)
            })) as c_int
        }
        _ => ret(raw(libc::SYS_ftruncate, fd as usize, len as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate(fd: c_int, len: off_t) -> c_int {
    c_ftruncate(fd, len)
}
#[no_mangle]
pub unsafe extern "C" fn ftruncate64(fd: c_int, len: off_t) -> c_int {
    c_ftruncate(fd, len)
}
unsafe fn c_truncate(path: *const c_char, len: off_t) -> c_int {
    match sim() {
        Some(p) => {
            let path = cstr(path);
            out(op(p, Class::Trunc, path, |k, p, _| {
                let b = k.base(p, libc::AT_FDCWD)?;
                let v = k.find(k.procs[p].machine, b, path, true)?;
                k.touch_check(p, v, "truncation");
                let now = k.real_ns;
                k.fss[v.fs].truncate(v.ino, len as u64, now).map(|_| 0)
            })) as c_int
        }
        None => ret(raw(libc::SYS_truncate, path as usize, len as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn truncate(path: *const c_char, len: off_t) -> c_int {
    c_truncate(path, len)
}
#[no_mangle]
pub unsafe extern "C" fn truncate64(path: *const c_char, len: off_t) -> c_int {
    c_truncate(path, len)
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate(fd: c_int, off: off_t, len: off_t) -> c_int {
    match sim() {
        Some(_) if is_fake(fd) => libc::EOPNOTSUPP,
        _ => -raw(libc::SYS_fallocate, fd as usize, 0, off as usize, len as usize, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_fallocate64(fd: c_int, off: off_t, len: off_t) -> c_int {
    posix_fallocate(fd, off, len)
}
unsafe fn c_fsync(fd: c_int, nr: c_long) -> c_int {
    match sim() {
        Some(p) if is_fake(fd) => {
            let path = path_of_fd(p, fd);
            out(op(p, Class::Fsync, &path, |k, _, _| {
                let v = k.desc(fd)?.v;
                k.fss[v.fs].fsync(v.ino);
                Ok(0)
            })) as c_int
        }
        _ => ret(raw(nr, fd as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fsync(fd: c_int) -> c_int {
    c_fsync(fd, libc::SYS_fsync)
}
#[no_mangle]
pub unsafe extern "C" fn fdatasync(fd: c_int) -> c_int {
    c_fsync(fd, libc::SYS_fdatasync)
}
#[no_mangle]
pub unsafe extern "C" fn sync_file_range(fd: c_int, a: off_t, b: off_t, f: libc::c_uint) -> c_int {
    match sim() {
        Some(_) if is_fake(fd) => 0,
        _ => ret(raw(libc::SYS_sync_file_range, fd as usize, a as usize, b as usize, f as usize, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn syncfs(fd: c_int) -> c_int {
    match sim() {
        Some(p) if is_fake(fd) => {
            let path = path_of_fd(p, fd);
            out(op(p, Class::Fsync, &path, |k, _, _| {
                let v = k.desc(fd)?.v;
                k.fss[v.fs].sync_all();
                Ok(0)
            })) as c_int
        }
        _ => ret(raw(libc::SYS_syncfs, fd as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sync() {
    match sim() {
        Some(p) => {
            let _ = op(p, Class::Fsync, b"sync", |k, _, _| {
                for f in &mut k.fss {
                    f.sync_all();
                }
                Ok(0)
            });
        }
        None => {
            raw(libc::SYS_sync, 0, 0, 0, 0, 0, 0);
        }
    }
}

// ---------------------------------------------------------------- stat

fn fill_stat(k: &Kernel, v: V) -> libc::stat {
    let fs = &k.fss[v.fs];
    let i = &fs.inodes[v.ino];
    let mut st: libc::stat = unsafe { std::mem::zeroed() };
    st.st_dev = fs.dev;
    st.st_ino = v.ino as u64;
    st.st_nlink = i.nlink as u64;
    st.st_mode = i.mode;
    st.st_uid = i.owner.0;
    st.st_gid = i.owner.1;
    st.st_size = match &i.node {
        Node::File(d) => d.len() as i64,
        Node::Link(t) => t.len() as i64,
        Node::Dir(_) => 4096,
        Node::Fifo => 0,
    };
    st.st_blksize = 4096;
    st.st_blocks = (st.st_size + 511) / 512;
    st.st_mtime = i.mtime.div_euclid(1_000_000_000);
    st.st_mtime_nsec = i.mtime.rem_euclid(1_000_000_000);
    st.st_atime = st.st_mtime;
    st.st_ctime = st.st_mtime;
    st
}
fn fd_stat(p: usize, fd: c_int) -> R<libc::stat> {
    let path = path_of_fd(p, fd);
    op(p, Class::Stat, &path, |k, _, _| {
        let v = k.desc(fd)?.v;
        Ok(fill_stat(k, v))
    })
}
fn path_stat(p: usize, dirfd: c_int, path: &[u8], follow: bool) -> R<libc::stat> {
    op(p, Class::Stat, path, |k, p, _| {
        let b = k.base(p, dirfd)?;
        let m = k.procs[p].machine;
        let v = k.find(m, b, path, follow)?;
        Ok(fill_stat(k, v))
    })
}
unsafe fn put_stat(r: R<libc::stat>, buf: *mut libc::stat) -> c_int {
    match r {
        Ok(s) => {
            *buf = s;
            0
        }
        Err(e) => out(Err(e)) as c_int,
    }
}
unsafe fn c_fstatat(dirfd: c_int, path: *const c_char, buf: *mut libc::stat, flags: c_int) -> c_int {
    match sim() {
        Some(p) => {
            let s = cstr(path);
            if s.is_empty() && flags & libc::AT_EMPTY_PATH != 0 {
                if !is_fake(dirfd) {
                    return ret(raw(libc::SYS_newfstatat, dirfd as usize, path as usize, buf as usize, flags as usize, 0, 0)) as c_int;
                }
                return put_stat(fd_stat(p, dirfd), buf);
            }
            put_stat(path_stat(p, dirfd, s, flags & libc::AT_SYMLINK_NOFOLLOW == 0), buf)
        }
        None => ret(raw(libc::SYS_newfstatat, dirfd as usize, path as usize, buf as usize, flags as usize, 0, 0)) as c_int,
    }
}
unsafe fn c_fstat(fd: c_int, buf: *mut libc::stat) -> c_int {
    match sim() {
        Some(p) if is_fake(fd) => put_stat(fd_stat(p, fd), buf),
        _ => ret(raw(libc::SYS_fstat, fd as usize, buf as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn stat(path: *const c_char, buf: *mut libc::stat) -> c_int {
    c_fstatat(libc::AT_FDCWD, path, buf, 0)
}
#[no_mangle]
pub unsafe extern "C" fn stat64(path: *const c_char, buf: *mut libc::stat) -> c_int {
    c_fstatat(libc::AT_FDCWD, path, buf, 0)
}
#[no_mangle]
pub unsafe extern "C" fn lstat(path: *const c_char, buf: *mut libc::stat) -> c_int {
    c_fstatat(libc::AT_FDCWD, path, buf, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn lstat64(path: *const c_char, buf: *mut libc::stat) -> c_int {
    c_fstatat(libc::AT_FDCWD, path, buf, libc::AT_SYMLINK_NOFOLLOW)
}
#[no_mangle]
pub unsafe extern "C" fn fstat(fd: c_int, buf: *mut libc::stat) -> c_int {
    c_fstat(fd, buf)
}
#[no_mangle]
pub unsafe extern "C" fn fstat64(fd: c_int, buf: *mut libc::stat) -> c_int {
    c_fstat(fd, buf)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat(d: c_int, path: *const c_char, buf: *mut libc::stat, f: c_int) -> c_int {
    c_fstatat(d, path, buf, f)
}
#[no_mangle]
pub unsafe extern "C" fn fstatat64(d: c_int, path: *const c_char, buf: *mut libc::stat, f: c_int) -> c_int {
    c_fstatat(d, path, buf, f)
}
unsafe fn c_statx(d: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    match sim() {
        Some(p) => {
            let s = cstr(path);
            let r = if s.is_empty() && flags & libc::AT_EMPTY_PATH != 0 {
                if !is_fake(d) {
                    return ret(raw(libc::SYS_statx, d as usize, path as usize, flags as usize, mask as usize, buf as usize, 0)) as c_int;
                }
                fd_stat(p, d)
            } else if path.is_null() {
                Err(libc::EFAULT)
            } else {
                path_stat(p, d, s, flags & libc::AT_SYMLINK_NOFOLLOW == 0)
            };
            match r {
                Ok(s) => {
                    let mut x: libc::statx = std::mem::zeroed();
                    x.stx_mask = libc::STATX_BASIC_STATS;
                    x.stx_blksize = 4096;
                    x.stx_nlink = s.st_nlink as u32;
                    x.stx_mode = s.st_mode as u16;
                    x.stx_uid = s.st_uid;
                    x.stx_gid = s.st_gid;
                    x.stx_ino = s.st_ino;
                    x.stx_size = s.st_size as u64;
                    x.stx_blocks = s.st_blocks as u64;
                    for t in [&mut x.stx_mtime, &mut x.stx_atime, &mut x.stx_ctime] {
                        t.tv_sec = s.st_mtime;
                        t.tv_nsec = s.st_mtime_nsec as u32;
                    }
                    x.stx_dev_major = 8;
                    x.stx_dev_minor = s.st_dev as u32;
                    *buf = x;
                    0
                }
                Err(e) => out(Err(e)) as c_int,
            }
        }
        None => ret(raw(libc::SYS_statx, d as usize, path as usize, flags as usize, mask as usize, buf as usize, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn statx(d: c_int, path: *const c_char, flags: c_int, mask: libc::c_uint, buf: *mut libc::statx) -> c_int {
    c_statx(d, path, flags, mask, buf)
}
fn sim_unprivileged() -> bool {
    let _g = kernel::in_kernel();
    kernel::lock().as_ref().map_or(false, |k| k.unprivileged)
}
unsafe fn c_faccessat(d: c_int, path: *const c_char, mode: c_int) -> c_int {
    match sim() {
        Some(p) => {
            let path = cstr(path);
            out(path_stat(p, d, path, true).and_then(|s| {
                let user = sim_unprivileged();
                if mode & libc::X_OK != 0 && s.st_mode & 0o111 == 0
                    || user && mode & libc::W_OK != 0 && s.st_mode & 0o200 == 0
                    || user && mode & libc::R_OK != 0 && s.st_mode & 0o400 == 0
                {
                    Err(libc::EACCES)
                } else {
                    Ok(0)
                }
            })) as c_int
        }
        None => ret(raw(libc::SYS_faccessat, d as usize, path as usize, mode as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    c_faccessat(libc::AT_FDCWD, path, mode)
}
#[no_mangle]
pub unsafe extern "C" fn faccessat(d: c_int, path: *const c_char, mode: c_int, _f: c_int) -> c_int {
    c_faccessat(d, path, mode)
}
fn do_chmod(k: &mut Kernel, p: usize, v: V, mode: mode_t) -> R<isize> {
    k.touch_check(p, v, "chmod");
    k.fss[v.fs].chmod(v.ino, mode);
    Ok(0)
}
#[no_mangle]
pub unsafe extern "C" fn chmod(path: *const c_char, mode: mode_t) -> c_int {
    fchmodat(libc::AT_FDCWD, path, mode, 0)
}
#[no_mangle]
pub unsafe extern "C" fn fchmodat(d: c_int, path: *const c_char, mode: mode_t, _f: c_int) -> c_int {
    match sim() {
        Some(p) => {
            let path = cstr(path);
            out(op(p, Class::Chmod, path, |k, p, _| {
                let b = k.base(p, d)?;
                let v = k.find(k.procs[p].machine, b, path, true)?;
                do_chmod(k, p, v, mode)
            })) as c_int
        }
        None => ret(raw(libc::SYS_fchmodat, d as usize, path as usize, mode as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchmod(fd: c_int, mode: mode_t) -> c_int {
    match sim() {
        Some(p) if is_fake(fd) => {
            let path = path_of_fd(p, fd);
            out(op(p, Class::Chmod, &path, |k, p, _| {
                let v = k.desc(fd)?.v;
                do_chmod(k, p, v, mode)
            })) as c_int
        }
        _ => ret(raw(libc::SYS_fchmod, fd as usize, mode as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn umask(m: mode_t) -> mode_t {
    match sim() {
        Some(p) => quick(p, |k, p| std::mem::replace(&mut k.procs[p].umask, m)),
        None => raw(libc::SYS_umask, m as usize, 0, 0, 0, 0, 0) as mode_t,
    }
}
#[no_mangle]
pub unsafe extern "C" fn chown(path: *const c_char, a: u32, b: u32) -> c_int {
    match sim() {
        Some(_) => 0,
        None => ret(raw(libc::SYS_chown, path as usize, a as usize, b as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fchown(fd: c_int, a: u32, b: u32) -> c_int {
    match sim() {
        Some(_) => 0,
        None => ret(raw(libc::SYS_fchown, fd as usize, a as usize, b as usize, 0, 0, 0)) as c_int,
    }
}
unsafe fn set_times(p: usize, d: c_int, path: &[u8], ts: *const libc::timespec, fd: Option<c_int>) -> c_int {
    let t = if ts.is_null() { None } else { Some(*ts.add(1)) };
    out(op(p, Class::Chmod, path, |k, p, _| {
        let v = match fd {
            Some(fd) => k.desc(fd)?.v,
            None => {
                let b = k.base(p, d)?;
                k.find(k.procs[p].machine, b, path, true)?
            }
        };
        let t = t.map_or(k.real_ns, |t| t.tv_sec * 1_000_000_000 + t.tv_nsec);
        k.fss[v.fs].inodes[v.ino].mtime = t;
        Ok(0)
    })) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn utimensat(d: c_int, path: *const c_char, ts: *const libc::timespec, f: c_int) -> c_int {
    match sim() {
        Some(p) => set_times(p, d, cstr(path), ts, None),
        None => ret(raw(libc::SYS_utimensat, d as usize, path as usize, ts as usize, f as usize, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn futimens(fd: c_int, ts: *const libc::timespec) -> c_int {
    match sim() {
        Some(p) if is_fake(fd) => set_times(p, 0, b"", ts, Some(fd)),
        _ => ret(raw(libc::SYS_utimensat, fd as usize, 0, ts as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn utimes(path: *const c_char, tv: *const libc::timeval) -> c_int {
    match sim() {
        Some(p) => {
            if tv.is_null() {
                return set_times(p, libc::AT_FDCWD, cstr(path), std::ptr::null(), None);
            }
            let t = [*tv, *tv.add(1)].map(|t| libc::timespec { tv_sec: t.tv_sec, tv_nsec: t.tv_usec * 1000 });
            set_times(p, libc::AT_FDCWD, cstr(path), t.as_ptr(), None)
        }
        None => ret(raw(libc::SYS_utimes, path as usize, tv as usize, 0, 0, 0, 0)) as c_int,
    }
}

// ---------------------------------------------------------------- names

unsafe fn c_renameat(od: c_int, o: *const c_char, nd: c_int, n: *const c_char, flags: libc::c_uint) -> c_int {
    match sim() {
        Some(p) => {
            let (o, n) = (cstr(o), cstr(n));
            out(op(p, Class::Rename, n, |k, p, _| {
                let m = k.procs[p].machine;
                let ob = k.base(p, od)?;
                let nb = k.base(p, nd)?;
                let (odir, oname, ov) = k.resolve(m, ob, o, false)?;
                let ov = ov.ok_or(libc::ENOENT)?;
                let (ndir, nname, nv) = k.resolve(m, nb, n, false)?;
                if odir.fs != ndir.fs || ov.fs != odir.fs {
                    return Err(libc::EXDEV);
                }
                if flags & !1 != 0 {
                    return Err(libc::EINVAL);
                }
                k.touch_check(p, ov, "rename");
                if let Some(v) = nv {
                    k.touch_check(p, v, "replacing by rename");
                }
                k.touch_check(p, odir, "rename inside");
                k.touch_check(p, ndir, "rename inside");
                k.fss[odir.fs].rename(odir.ino, &oname, ndir.ino, &nname, flags & 1 != 0).map(|_| 0)
            })) as c_int
        }
        None => ret(raw(libc::SYS_renameat2, od as usize, o as usize, nd as usize, n as usize, flags as usize, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn rename(o: *const c_char, n: *const c_char) -> c_int {
    c_renameat(libc::AT_FDCWD, o, libc::AT_FDCWD, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat(od: c_int, o: *const c_char, nd: c_int, n: *const c_char) -> c_int {
    c_renameat(od, o, nd, n, 0)
}
#[no_mangle]
pub unsafe extern "C" fn renameat2(od: c_int, o: *const c_char, nd: c_int, n: *const c_char, f: libc::c_uint) -> c_int {
    c_renameat(od, o, nd, n, f)
}
unsafe fn c_unlinkat(d: c_int, path: *const c_char, flags: c_int) -> c_int {
    match sim() {
        Some(p) => {
            let path = cstr(path);
            let rmdir = flags & libc::AT_REMOVEDIR != 0;
            let full = if path.starts_with(b"/") || d == libc::AT_FDCWD {
                path.to_vec()
            } else {
                let mut f = path_of_fd(p, d);
                f.push(b'/');
                f.extend_from_slice(path);
                f
            };
            out(op(p, if rmdir { Class::Rmdir } else { Class::Unlink }, &full, |k, p, _| {
                let m = k.procs[p].machine;
                let b = k.base(p, d)?;
                let (dir, name, v) = k.resolve(m, b, path, false)?;
                let v = v.ok_or(libc::ENOENT)?;
                k.touch_check(p, v, "removal");
                k.touch_check(p, dir, "removal inside");
                if rmdir {
                    if v.fs != dir.fs {
                        return Err(libc::EBUSY);
                    }
                    if !k.fss[v.fs].is_dir(v.ino) {
                        return Err(libc::ENOTDIR);
                    }
                    k.fss[dir.fs].rmdir(dir.ino, &name).map(|_| 0)
                } else {
                    k.fss[dir.fs].unlink(dir.ino, &name).map(|_| 0)
                }
            })) as c_int
        }
        None => ret(raw(libc::SYS_unlinkat, d as usize, path as usize, flags as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn unlink(path: *const c_char) -> c_int {
    c_unlinkat(libc::AT_FDCWD, path, 0)
}
#[no_mangle]
pub unsafe extern "C" fn unlinkat(d: c_int, path: *const c_char, f: c_int) -> c_int {
    c_unlinkat(d, path, f)
}
#[no_mangle]
pub unsafe extern "C" fn rmdir(path: *const c_char) -> c_int {
    c_unlinkat(libc::AT_FDCWD, path, libc::AT_REMOVEDIR)
}
#[no_mangle]
pub unsafe extern "C" fn remove(path: *const c_char) -> c_int {
    let r = c_unlinkat(libc::AT_FDCWD, path, 0);
    if r < 0 && *libc::__errno_location() == libc::EISDIR {
        return c_unlinkat(libc::AT_FDCWD, path, libc::AT_REMOVEDIR);
    }
    r
}
unsafe fn c_symlinkat(t: *const c_char, d: c_int, path: *const c_char) -> c_int {
    match sim() {
        Some(p) => {
            let (t, path) = (cstr(t), cstr(path));
            out(op(p, Class::Symlink, path, |k, p, _| {
                let m = k.procs[p].machine;
                let b = k.base(p, d)?;
                let (dir, name, v) = k.resolve(m, b, path, false)?;
                if v.is_some() {
                    return Err(libc::EEXIST);
                }
                k.touch_check(p, dir, "linking inside");
                let now = k.real_ns;
                k.fss[dir.fs].symlink(dir.ino, &name, t, now).map(|_| 0)
            })) as c_int
        }
        None => ret(raw(libc::SYS_symlinkat, t as usize, d as usize, path as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn symlink(t: *const c_char, path: *const c_char) -> c_int {
    c_symlinkat(t, libc::AT_FDCWD, path)
}
#[no_mangle]
pub unsafe extern "C" fn symlinkat(t: *const c_char, d: c_int, path: *const c_char) -> c_int {
    c_symlinkat(t, d, path)
}
#[no_mangle]
pub unsafe extern "C" fn linkat(od: c_int, o: *const c_char, nd: c_int, n: *const c_char, f: c_int) -> c_int {
    match sim() {
        Some(p) => {
            let (o, n) = (cstr(o), cstr(n));
            out(op(p, Class::Link, n, |k, p, _| {
                let m = k.procs[p].machine;
                let ob = k.base(p, od)?;
                let nb = k.base(p, nd)?;
                let ov = k.find(m, ob, o, f & libc::AT_SYMLINK_FOLLOW != 0)?;
                let (dir, name, v) = k.resolve(m, nb, n, false)?;
                if v.is_some() {
                    return Err(libc::EEXIST);
                }
                if ov.fs != dir.fs {
                    return Err(libc::EXDEV);
                }
                k.fss[dir.fs].hardlink(ov.ino, dir.ino, &name).map(|_| 0)
            })) as c_int
        }
        None => ret(raw(libc::SYS_linkat, od as usize, o as usize, nd as usize, n as usize, f as usize, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn link(o: *const c_char, n: *const c_char) -> c_int {
    linkat(libc::AT_FDCWD, o, libc::AT_FDCWD, n, 0)
}
unsafe fn c_readlinkat(d: c_int, path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    match sim() {
        Some(p) => {
            let path = cstr(path);
            out(op(p, Class::Readlink, path, |k, p, _| {
                let b = k.base(p, d)?;
                let v = k.find(k.procs[p].machine, b, path, false)?;
                match &k.fss[v.fs].inodes[v.ino].node {
                    Node::Link(t) => {
                        let l = t.len().min(n);
                        std::ptr::copy_nonoverlapping(t.as_ptr(), buf as *mut u8, l);
                        Ok(l as isize)
                    }
                    _ => Err(libc::EINVAL),
                }
            }))
        }
        None => ret(raw(libc::SYS_readlinkat, d as usize, path as usize, buf as usize, n, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    c_readlinkat(libc::AT_FDCWD, path, buf, n)
}
#[no_mangle]
pub unsafe extern "C" fn readlinkat(d: c_int, path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    c_readlinkat(d, path, buf, n)
}
unsafe fn give_str(s: &[u8], buf: *mut c_char) -> *mut c_char {
    let b = if buf.is_null() { libc::malloc(s.len() + 1) as *mut c_char } else { buf };
    std::ptr::copy_nonoverlapping(s.as_ptr(), b as *mut u8, s.len());
    *b.add(s.len()) = 0;
    b
}
#[no_mangle]
pub unsafe extern "C" fn realpath(path: *const c_char, buf: *mut c_char) -> *mut c_char {
    match sim() {
        Some(p) => {
            let path = cstr(path);
            match op(p, Class::Realpath, path, |k, p, _| {
                let b = k.base(p, libc::AT_FDCWD)?;
                k.realpath(k.procs[p].machine, b, path)
            }) {
                Ok(s) => give_str(&s, buf),
                Err(e) => {
                    set_errno(e);
                    std::ptr::null_mut()
                }
            }
        }
        None => next!("realpath", unsafe extern "C" fn(*const c_char, *mut c_char) -> *mut c_char)(path, buf),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    match sim() {
        Some(p) => {
            let s = quick(p, |k, p| {
                let v = k.procs[p].cwd;
                if k.no_cwd {
                    return None;
                }
                Some(k.path_of(k.procs[p].machine, v))
            });
            let s = match s {
                Some(s) => s,
                None => {
                    set_errno(libc::ENOENT);
                    return std::ptr::null_mut();
                }
            };
            if s.len() + 1 > n && !buf.is_null() {
                set_errno(libc::ERANGE);
                return std::ptr::null_mut();
            }
            give_str(&s, buf)
        }
        None => next!("getcwd", unsafe extern "C" fn(*mut c_char, size_t) -> *mut c_char)(buf, n),
    }
}
#[no_mangle]
pub unsafe extern "C" fn chdir(path: *const c_char) -> c_int {
    match sim() {
        Some(p) => {
            let path = cstr(path);
            out(op(p, Class::Stat, path, |k, p, _| {
                let b = k.base(p, libc::AT_FDCWD)?;
                let v = k.find(k.procs[p].machine, b, path, true)?;
                if !k.fss[v.fs].is_dir(v.ino) {
                    return Err(libc::ENOTDIR);
                }
                k.procs[p].cwd = v;
                Ok(0)
            })) as c_int
        }
        None => ret(raw(libc::SYS_chdir, path as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdirat(d: c_int, path: *const c_char, mode: mode_t) -> c_int {
    match sim() {
        Some(p) => {
            let path = cstr(path);
            out(op(p, Class::Mkdir, path, |k, p, _| {
                let m = k.procs[p].machine;
                let b = k.base(p, d)?;
                let (dir, name, v) = k.resolve(m, b, path, false)?;
                if v.is_some() {
                    return Err(libc::EEXIST);
                }
                k.touch_check(p, dir, "creating a directory in");
                let now = k.real_ns;
                let um = k.procs[p].umask;
                k.fss[dir.fs].mkdir(dir.ino, &name, mode & !um, now).map(|_| 0)
            })) as c_int
        }
        None => ret(raw(libc::SYS_mkdirat, d as usize, path as usize, mode as usize, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn mkdir(path: *const c_char, mode: mode_t) -> c_int {
    mkdirat(libc::AT_FDCWD, path, mode)
}

// ---------------------------------------------------------------- directories

#[repr(C)]
struct FakeDir {
    ent: libc::dirent64,
}
type DirP = *mut libc::DIR;

unsafe fn open_stream(p: usize, fd: c_int) -> DirP {
    let b = Box::into_raw(Box::new(FakeDir { ent: std::mem::zeroed() }));
    quick(p, |k, _| {
        k.dirs.insert(b as usize, DirStream { fd, entries: None, pos: 0 });
    });
    b as DirP
}
#[no_mangle]
pub unsafe extern "C" fn opendir(path: *const c_char) -> DirP {
    match sim() {
        Some(p) => {
            let fd = c_open(libc::AT_FDCWD, path, libc::O_RDONLY | libc::O_DIRECTORY, 0);
            if fd < 0 {
                return std::ptr::null_mut();
            }
            open_stream(p, fd)
        }
        None => next!("opendir", unsafe extern "C" fn(*const c_char) -> DirP)(path),
    }
}
#[no_mangle]
pub unsafe extern "C" fn fdopendir(fd: c_int) -> DirP {
    match sim() {
        Some(p) if is_fake(fd) => open_stream(p, fd),
        _ => next!("fdopendir", unsafe extern "C" fn(c_int) -> DirP)(fd),
    }
}
#[no_mangle]
pub unsafe extern "C" fn dirfd(d: DirP) -> c_int {
    match sim() {
        Some(p) => quick(p, |k, _| k.dirs.get(&(d as usize)).map_or(-1, |x| x.fd)),
        None => next!("dirfd", unsafe extern "C" fn(DirP) -> c_int)(d),
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir64(d: DirP) -> *mut libc::dirent64 {
    let p = match sim() {
        Some(p) => p,
        None => return next!("readdir64", unsafe extern "C" fn(DirP) -> *mut libc::dirent64)(d),
    };
    let (fd, loaded) = quick(p, |k, _| k.dirs.get(&(d as usize)).map_or((-1, true), |x| (x.fd, x.entries.is_some())));
    if !loaded {
        let path = path_of_fd(p, fd);
        let r = op(p, Class::Readdir, &path, |k, p, _| {
            let v = k.desc(fd)?.v;
            let m = k.procs[p].machine;
            let l = k.list_dir(m, v)?;
            if let Some(x) = k.dirs.get_mut(&(d as usize)) {
                x.entries = Some(l);
            }
            Ok(())
        });
        if let Err(e) = r {
            set_errno(e);
            return std::ptr::null_mut();
        }
    }
    let next = quick(p, |k, _| {
        let x = k.dirs.get_mut(&(d as usize))?;
        let e = x.entries.as_ref()?.get(x.pos).cloned();
        x.pos += 1;
        e
    });
    match next {
        None => std::ptr::null_mut(),
        Some((name, ino, ty)) => {
            let f = &mut *(d as *mut FakeDir);
            f.ent.d_ino = ino as u64;
            f.ent.d_off = 0;
            f.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
            f.ent.d_type = ty;
            let n = name.len().min(255);
            std::ptr::copy_nonoverlapping(name.as_ptr(), f.ent.d_name.as_mut_ptr() as *mut u8, n);
            f.ent.d_name[n] = 0;
            &mut f.ent
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn readdir(d: DirP) -> *mut libc::dirent {
    readdir64(d) as *mut libc::dirent
}
#[no_mangle]
pub unsafe extern "C" fn closedir(d: DirP) -> c_int {
    match sim() {
        Some(p) => {
            quick(p, |k, _| {
                if let Some(x) = k.dirs.remove(&(d as usize)) {
                    k.fds.remove(&x.fd);
                }
            });
            drop(Box::from_raw(d as *mut FakeDir));
            0
        }
        None => next!("closedir", unsafe extern "C" fn(DirP) -> c_int)(d),
    }
}
#[no_mangle]
pub unsafe extern "C" fn rewinddir(d: DirP) {
    match sim() {
        Some(p) => quick(p, |k, _| {
            if let Some(x) = k.dirs.get_mut(&(d as usize)) {
                x.pos = 0;
                x.entries = None;
            }
        }),
        None => next!("rewinddir", unsafe extern "C" fn(DirP))(d),
    }
}

// ---------------------------------------------------------------- misc fd

unsafe fn c_fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    match sim() {
        Some(p) if is_fake(fd) => match cmd {
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => out(quick(p, |k, _| k.dup_fd(fd)).map(|x| x as isize)) as c_int,
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_GETFL => out(quick(p, |k, _| {
                k.desc(fd).map(|d| {
                    (match (d.read, d.write) {
                        (true, true) => libc::O_RDWR,
                        (false, true) => libc::O_WRONLY,
                        _ => libc::O_RDONLY,
                    } | if d.append { libc::O_APPEND } else { 0 }) as isize
                })
            })) as c_int,
            _ => 0,
        },
        _ => ret(raw(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    c_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn fcntl64(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    c_fcntl(fd, cmd, arg)
}
#[no_mangle]
pub unsafe extern "C" fn dup(fd: c_int) -> c_int {
    match sim() {
        Some(_) if is_fake(fd) => c_fcntl(fd, libc::F_DUPFD, 0),
        _ => ret(raw(libc::SYS_dup, fd as usize, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn ioctl(fd: c_int, req: libc::c_ulong, arg: usize) -> c_int {
    match sim() {
        Some(_) if is_fake(fd) => out(Err(libc::ENOTTY)) as c_int,
        _ => ret(raw(libc::SYS_ioctl, fd as usize, req as usize, arg, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn isatty(fd: c_int) -> c_int {
    match sim() {
        Some(_) if is_fake(fd) || (0..=2).contains(&fd) => {
            set_errno(libc::ENOTTY);
            0
        }
        _ => {
            let mut t = [0u8; 64];
            (raw(libc::SYS_ioctl, fd as usize, 0x5401, t.as_mut_ptr() as usize, 0, 0, 0) == 0) as c_int
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn flock(fd: c_int, opn: c_int) -> c_int {
    match sim() {
        Some(_) if is_fake(fd) => 0,
        _ => ret(raw(libc::SYS_flock, fd as usize, opn as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn posix_fadvise(fd: c_int, a: off_t, b: off_t, c: c_int) -> c_int {
    match sim() {
        Some(_) if is_fake(fd) => 0,
        _ => -raw(libc::SYS_fadvise64, fd as usize, a as usize, b as usize, c as usize, 0, 0) as c_int,
    }
}
unsafe fn c_mmap(a: *mut c_void, n: size_t, prot: c_int, fl: c_int, fd: c_int, off: off_t) -> *mut c_void {
    match sim() {
        Some(p) if is_fake(fd) => {
            let r = raw(
                libc::SYS_mmap,
                0,
                n,
                (libc::PROT_READ | libc::PROT_WRITE) as usize,
                (libc::MAP_PRIVATE | libc::MAP_ANONYMOUS) as usize,
                usize::MAX,
                0,
            );
            if r < 0 {
                return libc::MAP_FAILED;
            }
            let b = std::slice::from_raw_parts_mut(r as *mut u8, n);
            let path = path_of_fd(p, fd);
            match op(p, Class::Read, &path, |k, p, d| do_read(k, p, d, fd, b, Some(off as u64))) {
                Ok(_) => r as *mut c_void,
                Err(e) => {
                    set_errno(e);
                    libc::MAP_FAILED
                }
            }
        }
        _ => {
            let r = raw(libc::SYS_mmap, a as usize, n, prot as usize, fl as usize, fd as isize as usize, off as usize);
            if (-4095..0).contains(&r) {
                set_errno(-r as c_int);
                libc::MAP_FAILED
            } else {
                r as *mut c_void
            }
        }
    }
}
#[no_mangle]
pub unsafe extern "C" fn mmap(a: *mut c_void, n: size_t, prot: c_int, fl: c_int, fd: c_int, off: off_t) -> *mut c_void {
    c_mmap(a, n, prot, fl, fd, off)
}
#[no_mangle]
pub unsafe extern "C" fn mmap64(a: *mut c_void, n: size_t, prot: c_int, fl: c_int, fd: c_int, off: off_t) -> *mut c_void {
    c_mmap(a, n, prot, fl, fd, off)
}

// ---------------------------------------------------------------- environment

extern "C" {
    static environ: *const *const c_char;
}
#[no_mangle]
pub unsafe extern "C" fn getenv(name: *const c_char) -> *mut c_char {
    let want = cstr(name);
    if let Some(p) = sim() {
        return quick(p, |k, p| {
            k.procs[p].env.iter().find(|(n, _)| n == want).map_or(std::ptr::null_mut(), |(_, v)| v.as_ptr() as *mut c_char)
        });
    }
    let mut e = environ;
    if e.is_null() {
        return std::ptr::null_mut();
    }
    while !(*e).is_null() {
        let s = cstr(*e);
        if s.len() > want.len() && s.starts_with(want) && s[want.len()] == b'=' {
            return (*e).add(want.len() + 1) as *mut c_char;
        }
        e = e.add(1);
    }
    std::ptr::null_mut()
}
#[no_mangle]
pub unsafe extern "C" fn secure_getenv(name: *const c_char) -> *mut c_char {
    getenv(name)
}
#[no_mangle]
pub unsafe extern "C" fn getpid() -> c_int {
    match sim() {
        Some(p) => quick(p, |k, p| k.procs[p].pid),
        None => raw(libc::SYS_getpid, 0, 0, 0, 0, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn sched_getaffinity(pid: c_int, n: size_t, set: *mut libc::cpu_set_t) -> c_int {
    if sim().is_some() {
        std::ptr::write_bytes(set as *mut u8, 0, n);
        *(set as *mut u8) = 1;
        return 0;
    }
    let r = raw(libc::SYS_sched_getaffinity, pid as usize, n, set as usize, 0, 0, 0);
    if r >= 0 {
        std::ptr::write_bytes((set as *mut u8).add(r as usize), 0, n - r as usize);
        return 0;
    }
    ret(r) as c_int
}
#[no_mangle]
pub unsafe extern "C" fn getrandom(buf: *mut c_void, n: size_t, f: libc::c_uint) -> ssize_t {
    match sim() {
        Some(p) => {
            let b = std::slice::from_raw_parts_mut(buf as *mut u8, n);
            quick(p, |k, p| kernel::random(k, p, b));
            n as ssize_t
        }
        None => ret(raw(libc::SYS_getrandom, buf as usize, n, f as usize, 0, 0, 0)),
    }
}
#[no_mangle]
pub unsafe extern "C" fn getentropy(buf: *mut c_void, n: size_t) -> c_int {
    (getrandom(buf, n, 0) < 0) as c_int * -1
}

// ---------------------------------------------------------------- time

unsafe fn sim_time(p: usize, clk: c_int) -> i64 {
    quick(p, |k, _| match clk {
        libc::CLOCK_REALTIME | libc::CLOCK_REALTIME_COARSE => k.real_ns,
        _ => k.mono_ns,
    })
}
#[no_mangle]
pub unsafe extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    match sim() {
        Some(p) => {
            let t = sim_time(p, clk);
            (*ts).tv_sec = t.div_euclid(1_000_000_000);
            (*ts).tv_nsec = t.rem_euclid(1_000_000_000);
            0
        }
        None => ret(raw(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn gettimeofday(tv: *mut libc::timeval, _tz: *mut c_void) -> c_int {
    let mut ts: libc::timespec = std::mem::zeroed();
    let r = clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !tv.is_null() {
        (*tv).tv_sec = ts.tv_sec;
        (*tv).tv_usec = ts.tv_nsec / 1000;
    }
    r
}
#[no_mangle]
pub unsafe extern "C" fn time(t: *mut libc::time_t) -> libc::time_t {
    let mut ts: libc::timespec = std::mem::zeroed();
    clock_gettime(libc::CLOCK_REALTIME, &mut ts);
    if !t.is_null() {
        *t = ts.tv_sec;
    }
    ts.tv_sec
}
fn sim_sleep(p: usize, ns: i64) {
    let _ = op(p, Class::Sleep, b"", |k, _, _| {
        k.real_ns += ns;
        k.mono_ns += ns;
        Ok(())
    });
}
#[no_mangle]
pub unsafe extern "C" fn nanosleep(req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    match sim() {
        Some(p) => {
            sim_sleep(p, (*req).tv_sec * 1_000_000_000 + (*req).tv_nsec);
            0
        }
        None => ret(raw(libc::SYS_nanosleep, req as usize, rem as usize, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn clock_nanosleep(c: c_int, f: c_int, req: *const libc::timespec, rem: *mut libc::timespec) -> c_int {
    match sim() {
        Some(p) => {
            let mut ns = (*req).tv_sec * 1_000_000_000 + (*req).tv_nsec;
            if f & libc::TIMER_ABSTIME != 0 {
                ns = (ns - sim_time(p, c)).max(0);
            }
            sim_sleep(p, ns);
            0
        }
        None => -raw(libc::SYS_clock_nanosleep, c as usize, f as usize, req as usize, rem as usize, 0, 0) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn epoll_wait(e: c_int, ev: *mut libc::epoll_event, n: c_int, timeout: c_int) -> c_int {
    if sim().is_some() && timeout > 0 {
        // a timer: give other threads of the process a moment, then let
        // simulated time pass instead of real time
        let r = raw(libc::SYS_epoll_wait, e as usize, ev as usize, n as usize, 1, 0, 0);
        if r != 0 {
            return ret(r) as c_int;
        }
        let _g = kernel::in_kernel();
        let mut g = kernel::lock();
        if let Some(k) = g.as_mut() {
            k.mono_ns += timeout as i64 * 1_000_000;
            k.real_ns += timeout as i64 * 1_000_000;
        }
        return 0;
    }
    ret(raw(libc::SYS_epoll_wait, e as usize, ev as usize, n as usize, timeout as isize as usize, 0, 0)) as c_int
}

// ---------------------------------------------------------------- processes

unsafe fn raw_exit(code: c_int) -> ! {
    raw(libc::SYS_exit_group, code as usize, 0, 0, 0, 0, 0);
    loop {}
}
#[no_mangle]
pub unsafe extern "C" fn exit(code: c_int) -> ! {
    match sim() {
        Some(p) => die(p, Exit::Code(code & 0xff)),
        None => next!("exit", unsafe extern "C" fn(c_int) -> !)(code),
    }
}
#[no_mangle]
pub unsafe extern "C" fn _exit(code: c_int) -> ! {
    match sim() {
        Some(p) => die(p, Exit::Code(code & 0xff)),
        None => raw_exit(code),
    }
}
#[no_mangle]
pub unsafe extern "C" fn abort() -> ! {
    match sim() {
        Some(p) => die(p, Exit::Abort),
        None => next!("abort", unsafe extern "C" fn() -> !)(),
    }
}
/// std lets only one thread of a (real) process call `exit`; the others pause.
#[no_mangle]
pub unsafe extern "C" fn pause() -> c_int {
    match sim() {
        Some(p) => die(p, Exit::Unknown),
        None => ret(raw(libc::SYS_pause, 0, 0, 0, 0, 0, 0)) as c_int,
    }
}
#[no_mangle]
pub unsafe extern "C" fn fork() -> c_int {
    match sim() {
        Some(_) => out(Err(libc::ENOSYS)) as c_int,
        None => next!("fork", unsafe extern "C" fn() -> c_int)(),
    }
}
#[no_mangle]
pub unsafe extern "C" fn kill(pid: c_int, s: c_int) -> c_int {
    match sim() {
        Some(_) => out(Err(libc::EPERM)) as c_int,
        None => ret(raw(libc::SYS_kill, pid as usize, s as usize, 0, 0, 0, 0)) as c_int,
    }
}

struct Start {
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
    proc: usize,
    number: u64,
}
extern "C" fn trampoline(x: *mut c_void) -> *mut c_void {
    let s = unsafe { Box::from_raw(x as *mut Start) };
    kernel::set_thread(s.number);
    kernel::set_proc(Some(s.proc));
    let r = (s.f)(s.arg);
    kernel::set_proc(None);
    r
}
/// Threads started by a simulated process belong to it.
#[no_mangle]
pub unsafe extern "C" fn pthread_create(
    t: *mut libc::pthread_t,
    attr: *const libc::pthread_attr_t,
    f: extern "C" fn(*mut c_void) -> *mut c_void,
    arg: *mut c_void,
) -> c_int {
    type F = unsafe extern "C" fn(
        *mut libc::pthread_t,
        *const libc::pthread_attr_t,
        extern "C" fn(*mut c_void) -> *mut c_void,
        *mut c_void,
    ) -> c_int;
    let real = next!("pthread_create", F);
    match sim() {
        Some(proc) => {
            let number = quick(proc, |k, p| {
                k.procs[p].threads += 1;
                k.procs[p].threads
            });
            real(t, attr, trampoline, Box::into_raw(Box::new(Start { f, arg, proc, number })) as *mut c_void)
        }
        None => real(t, attr, f, arg),
    }
}

#[no_mangle]
pub unsafe extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if sim().is_some() {
        match n {
            libc::SYS_statx => {
                return c_statx(a as c_int, b as *const c_char, c as c_int, d as libc::c_uint, e as *mut libc::statx) as c_long
            }
            libc::SYS_getrandom => return getrandom(a as *mut c_void, b, c as libc::c_uint) as c_long,
            libc::SYS_copy_file_range => {
                return copy_file_range(a as c_int, b as *mut i64, c as c_int, d as *mut i64, e, f as libc::c_uint) as c_long
            }
            libc::SYS_renameat2 => {
                return c_renameat(a as c_int, b as *const c_char, c as c_int, d as *const c_char, e as libc::c_uint) as c_long
            }
            libc::SYS_openat2 => return out(Err(libc::ENOSYS)) as c_long,
            _ => {}
        }
    }
    ret(raw(n, a, b, c, d, e, f)) as c_long
}
