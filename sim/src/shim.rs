//! Symbol interposition: libc entry points that std reaches. On simulated threads they go to the
//! simulator; on all other threads they are forwarded to the kernel / the real libc.

#![allow(unknown_lints, invalid_runtime_symbol_definitions, suspicious_runtime_symbol_definitions)]
use crate::alloc::{SIM, SUT, harness};
use crate::sched;
use crate::vfs::{FD_BASE, vfs};
use libc::{c_char, c_int, c_long, c_void, size_t, ssize_t};
use std::ffi::CStr;

pub unsafe fn raw6(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> isize {
    let r: isize;
    unsafe {
        std::arch::asm!("syscall", inlateout("rax") n as isize => r, in("rdi") a, in("rsi") b, in("rdx") c,
            in("r10") d, in("r8") e, in("r9") f, lateout("rcx") _, lateout("r11") _, options(nostack));
    }
    r
}
fn ret(r: isize) -> isize {
    if r < 0 && r > -4096 {
        set_errno(-r as i32);
        -1
    } else {
        r
    }
}
pub fn set_errno(e: i32) {
    unsafe { *libc::__errno_location() = e }
}
pub fn raw_err(s: &str) {
    unsafe { raw6(libc::SYS_write, 2, s.as_ptr() as usize, s.len(), 0, 0, 0) };
}
fn sim() -> bool {
    SIM.try_with(|x| x.get() != 0).unwrap_or(false)
}
fn bytes<'a>(p: *const c_char) -> &'a [u8] {
    unsafe { CStr::from_ptr(p) }.to_bytes()
}
/// run a simulated call: scheduling point, then the VFS operation
fn call<T>(kind: u64, f: impl FnOnce() -> Result<T, i32>) -> Result<T, i32> {
    harness(|| {
        sched::point(kind);
        f()
    })
}
macro_rules! real {
    ($name:literal, $ty:ty) => {{
        static mut P: usize = 0;
        unsafe {
            if P == 0 {
                P = libc::dlsym(libc::RTLD_NEXT, concat!($name, "\0").as_ptr() as *const c_char) as usize;
            }
            std::mem::transmute::<usize, $ty>(P)
        }
    }};
}

// ---------------------------------------------------------------- files
fn do_open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if sim() {
        match call(1, || vfs().open(bytes(path), flags)) {
            Ok(fd) => fd,
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        ret(unsafe { raw6(libc::SYS_openat, libc::AT_FDCWD as isize as usize, path as usize, flags as usize, mode as usize, 0, 0) }) as c_int
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn open64(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(path, flags, mode)
}
#[unsafe(no_mangle)]
pub extern "C" fn open(path: *const c_char, flags: c_int, mode: u32) -> c_int {
    do_open(path, flags, mode)
}
fn at_path(dirfd: c_int, path: *const c_char) -> Result<Vec<u8>, i32> {
    let p = bytes(path);
    if dirfd == libc::AT_FDCWD || p.first() == Some(&b'/') {
        return Ok(p.to_vec());
    }
    let base = match DIRS.lock_dirfd(dirfd) {
        Some(b) => b,
        None => match vfs().fds.get(&dirfd) {
            Some(o) => o.path.clone().into_bytes(),
            None => return Err(libc::EBADF),
        },
    };
    let mut v = base;
    v.push(b'/');
    v.extend_from_slice(p);
    Ok(v)
}
#[unsafe(no_mangle)]
pub extern "C" fn openat64(dirfd: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    if sim() {
        let r = call(1, || at_path(dirfd, path).and_then(|p| vfs().open(&p, flags)));
        match r {
            Ok(fd) => fd,
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        ret(unsafe { raw6(libc::SYS_openat, dirfd as isize as usize, path as usize, flags as usize, mode as usize, 0, 0) }) as c_int
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn openat(dirfd: c_int, path: *const c_char, flags: c_int, mode: u32) -> c_int {
    openat64(dirfd, path, flags, mode)
}
#[unsafe(no_mangle)]
pub extern "C" fn read(fd: c_int, buf: *mut c_void, n: size_t) -> ssize_t {
    if sim() && fd >= FD_BASE {
        match call(2, || vfs().read(fd, buf as *mut u8, n, None)) {
            Ok(k) => k as ssize_t,
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        ret(unsafe { raw6(libc::SYS_read, fd as usize, buf as usize, n, 0, 0, 0) })
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn pread64(fd: c_int, buf: *mut c_void, n: size_t, off: i64) -> ssize_t {
    if sim() && fd >= FD_BASE {
        match call(2, || vfs().read(fd, buf as *mut u8, n, Some(off as usize))) {
            Ok(k) => k as ssize_t,
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        ret(unsafe { raw6(libc::SYS_pread64, fd as usize, buf as usize, n, off as usize, 0, 0) })
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn readv(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if sim() && fd >= FD_BASE {
        // a legal readv may fill just the first non-empty buffer
        for i in 0..cnt as usize {
            let v = unsafe { &*iov.add(i) };
            if v.iov_len > 0 {
                return read(fd, v.iov_base, v.iov_len);
            }
        }
        0
    } else {
        ret(unsafe { raw6(libc::SYS_readv, fd as usize, iov as usize, cnt as usize, 0, 0, 0) })
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn close(fd: c_int) -> c_int {
    if sim() && fd >= FD_BASE {
        match call(3, || vfs().close(fd)) {
            Ok(()) => 0,
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        ret(unsafe { raw6(libc::SYS_close, fd as usize, 0, 0, 0, 0, 0) }) as c_int
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn lseek64(fd: c_int, off: i64, whence: c_int) -> i64 {
    if sim() && fd >= FD_BASE {
        match call(4, || vfs().lseek(fd, off, whence)) {
            Ok(k) => k,
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        ret(unsafe { raw6(libc::SYS_lseek, fd as usize, off as usize, whence as usize, 0, 0, 0) }) as i64
    }
}
unsafe fn fill_stat(st: *mut libc::stat64, (mode, size, ino): (u32, u64, u64)) {
    unsafe {
        std::ptr::write_bytes(st, 0, 1);
        (*st).st_mode = mode;
        (*st).st_size = size as i64;
        (*st).st_ino = ino;
        (*st).st_nlink = 1;
        (*st).st_blksize = 4096;
        (*st).st_blocks = (size as i64 + 511) / 512;
        (*st).st_dev = 77;
    }
}
fn stat_common(r: Result<(u32, u64, u64), i32>, st: *mut libc::stat64) -> c_int {
    match r {
        Ok(m) => {
            unsafe { fill_stat(st, m) };
            0
        }
        Err(e) => {
            set_errno(e);
            -1
        }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn fstat64(fd: c_int, st: *mut libc::stat64) -> c_int {
    if sim() && fd >= FD_BASE {
        stat_common(call(5, || vfs().fstat(fd)), st)
    } else {
        ret(unsafe { raw6(libc::SYS_fstat, fd as usize, st as usize, 0, 0, 0, 0) }) as c_int
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn stat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if sim() {
        stat_common(call(6, || vfs().stat(bytes(path), true)), st)
    } else {
        ret(unsafe { raw6(libc::SYS_stat, path as usize, st as usize, 0, 0, 0, 0) }) as c_int
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn lstat64(path: *const c_char, st: *mut libc::stat64) -> c_int {
    if sim() {
        stat_common(call(6, || vfs().stat(bytes(path), false)), st)
    } else {
        ret(unsafe { raw6(libc::SYS_lstat, path as usize, st as usize, 0, 0, 0, 0) }) as c_int
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn fstatat64(dirfd: c_int, path: *const c_char, st: *mut libc::stat64, flags: c_int) -> c_int {
    if sim() {
        let r = call(6, || at_path(dirfd, path).and_then(|p| vfs().stat(&p, flags & libc::AT_SYMLINK_NOFOLLOW == 0)));
        stat_common(r, st)
    } else {
        ret(unsafe { raw6(libc::SYS_newfstatat, dirfd as isize as usize, path as usize, st as usize, flags as usize, 0, 0) }) as c_int
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn statx(dirfd: c_int, path: *const c_char, flags: c_int, mask: u32, stx: *mut libc::statx) -> c_int {
    if sim() {
        // std probes for support with a null buffer
        if path.is_null() || stx.is_null() {
            set_errno(libc::EFAULT);
            return -1;
        }
        let empty = flags & libc::AT_EMPTY_PATH != 0 && bytes(path).is_empty();
        let r = if empty {
            call(5, || vfs().fstat(dirfd))
        } else {
            call(6, || at_path(dirfd, path).and_then(|p| vfs().stat(&p, flags & libc::AT_SYMLINK_NOFOLLOW == 0)))
        };
        match r {
            Ok((mode, size, ino)) => {
                unsafe {
                    std::ptr::write_bytes(stx, 0, 1);
                    (*stx).stx_mask = libc::STATX_BASIC_STATS;
                    (*stx).stx_mode = mode as u16;
                    (*stx).stx_size = size;
                    (*stx).stx_ino = ino;
                    (*stx).stx_nlink = 1;
                    (*stx).stx_blksize = 4096;
                    (*stx).stx_blocks = size.div_ceil(512);
                    (*stx).stx_dev_minor = 77;
                }
                0
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        ret(unsafe { raw6(libc::SYS_statx, dirfd as isize as usize, path as usize, flags as usize, mask as usize, stx as usize, 0) }) as c_int
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn access(path: *const c_char, mode: c_int) -> c_int {
    if sim() {
        match call(6, || vfs().stat(bytes(path), true)) {
            Ok(_) => 0,
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        ret(unsafe { raw6(libc::SYS_access, path as usize, mode as usize, 0, 0, 0, 0) }) as c_int
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn realpath(path: *const c_char, out: *mut c_char) -> *mut c_char {
    if sim() {
        match call(7, || vfs().realpath(bytes(path))) {
            Ok(s) => unsafe {
                let p = if out.is_null() { libc::malloc(s.len() + 1) as *mut c_char } else { out };
                std::ptr::copy_nonoverlapping(s.as_ptr() as *const c_char, p, s.len());
                *p.add(s.len()) = 0;
                harness(move || drop(s));
                p
            },
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        }
    } else {
        let f = real!("realpath", extern "C" fn(*const c_char, *mut c_char) -> *mut c_char);
        f(path, out)
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn readlink(path: *const c_char, buf: *mut c_char, n: size_t) -> ssize_t {
    if sim() {
        match call(7, || vfs().readlink(bytes(path))) {
            Ok(t) => {
                let k = t.len().min(n);
                unsafe { std::ptr::copy_nonoverlapping(t.as_ptr() as *const c_char, buf, k) };
                harness(move || drop(t));
                k as ssize_t
            }
            Err(e) => {
                set_errno(e);
                -1
            }
        }
    } else {
        ret(unsafe { raw6(libc::SYS_readlink, path as usize, buf as usize, n, 0, 0, 0) })
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn getcwd(buf: *mut c_char, n: size_t) -> *mut c_char {
    if sim() {
        let c = harness(|| vfs().cwd.clone());
        if c.len() + 1 > n {
            harness(move || drop(c));
            set_errno(libc::ERANGE);
            return std::ptr::null_mut();
        }
        unsafe {
            std::ptr::copy_nonoverlapping(c.as_ptr() as *const c_char, buf, c.len());
            *buf.add(c.len()) = 0;
        }
        harness(|| drop(c));
        buf
    } else {
        let r = ret(unsafe { raw6(libc::SYS_getcwd, buf as usize, n, 0, 0, 0, 0) });
        if r < 0 { std::ptr::null_mut() } else { buf }
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn fcntl(fd: c_int, cmd: c_int, arg: usize) -> c_int {
    if sim() && fd >= FD_BASE {
        return match cmd {
            libc::F_GETFD => libc::FD_CLOEXEC,
            libc::F_DUPFD | libc::F_DUPFD_CLOEXEC => harness(|| {
                let v = vfs();
                match v.fds.get(&fd).map(|o| (o.ino, o.pos, o.flags, o.path.clone())) {
                    Some((ino, pos, flags, path)) => {
                        let n = v.next_fd;
                        v.next_fd += 1;
                        v.fds.insert(n, crate::vfs::Open { ino, pos, flags, path });
                        n
                    }
                    None => {
                        set_errno(libc::EBADF);
                        -1
                    }
                }
            }),
            _ => 0,
        };
    }
    ret(unsafe { raw6(libc::SYS_fcntl, fd as usize, cmd as usize, arg, 0, 0, 0) }) as c_int
}
#[unsafe(no_mangle)]
pub extern "C" fn posix_fadvise64(_fd: c_int, _o: i64, _l: i64, _a: c_int) -> c_int {
    0
}

// ---------------------------------------------------------------- directories
struct SimDir {
    ino: u64,
    path: Vec<u8>,
    fd: c_int,
    list: Vec<(Vec<u8>, u64, u8)>,
    pos: usize,
    ent: libc::dirent64,
}
struct Dirs;
static DIRS: Dirs = Dirs;
impl Dirs {
    fn lock_dirfd(&self, fd: c_int) -> Option<Vec<u8>> {
        vfs().dirs.iter().find_map(|p| {
            let d = unsafe { &*(*p as *const SimDir) };
            if d.fd == fd { Some(d.path.clone()) } else { None }
        })
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn opendir(path: *const c_char) -> *mut c_void {
    if sim() {
        match call(8, || vfs().opendir(bytes(path))) {
            Ok((ino, list)) => harness(|| {
                let fd = vfs().next_fd;
                vfs().next_fd += 1;
                let d = Box::new(SimDir { ino, path: bytes(path).to_vec(), fd, list, pos: 0, ent: unsafe { std::mem::zeroed() } });
                let p = Box::into_raw(d) as usize;
                vfs().dirs.insert(p);
                p as *mut c_void
            }),
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        }
    } else {
        let f = real!("opendir", extern "C" fn(*const c_char) -> *mut c_void);
        f(path)
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn fdopendir(fd: c_int) -> *mut c_void {
    if sim() && fd >= FD_BASE {
        let r = harness(|| {
            let v = vfs();
            let path = v.fds.get(&fd).map(|o| o.path.clone()).ok_or(libc::EBADF)?;
            let (ino, list) = v.opendir(path.as_bytes())?;
            v.fds.remove(&fd);
            let d = Box::new(SimDir { ino, path: path.into_bytes(), fd, list, pos: 0, ent: unsafe { std::mem::zeroed() } });
            let p = Box::into_raw(d) as usize;
            v.dirs.insert(p);
            Ok::<_, i32>(p as *mut c_void)
        });
        match r {
            Ok(p) => p,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        }
    } else {
        let f = real!("fdopendir", extern "C" fn(c_int) -> *mut c_void);
        f(fd)
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn readdir64(d: *mut c_void) -> *mut libc::dirent64 {
    if sim() {
        let r = call(9, || {
            let v = vfs();
            let sd = unsafe { &mut *(d as *mut SimDir) };
            let path = String::from_utf8_lossy(&sd.path).into_owned();
            if let Some(e) = v.enter(crate::vfs::Op::Readdir, &path) {
                return Err(e);
            }
            if sd.pos >= sd.list.len() {
                v.note(crate::vfs::Op::Readdir, &path, sd.ino, 0, false);
                return Ok(std::ptr::null_mut());
            }
            let (n, ino, t) = &sd.list[sd.pos];
            sd.pos += 1;
            sd.ent.d_ino = *ino;
            sd.ent.d_off = sd.pos as i64;
            sd.ent.d_reclen = std::mem::size_of::<libc::dirent64>() as u16;
            sd.ent.d_type = *t;
            for (i, b) in n.iter().take(255).enumerate() {
                sd.ent.d_name[i] = *b as c_char;
            }
            sd.ent.d_name[n.len().min(255)] = 0;
            v.note(crate::vfs::Op::Readdir, &path, *ino, 1, false);
            Ok(&mut sd.ent as *mut _)
        });
        match r {
            Ok(p) => p,
            Err(e) => {
                set_errno(e);
                std::ptr::null_mut()
            }
        }
    } else {
        let f = real!("readdir64", extern "C" fn(*mut c_void) -> *mut libc::dirent64);
        f(d)
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn closedir(d: *mut c_void) -> c_int {
    if sim() {
        harness(|| {
            if vfs().dirs.remove(&(d as usize)) {
                vfs().enter(crate::vfs::Op::Closedir, "");
                drop(unsafe { Box::from_raw(d as *mut SimDir) });
                0
            } else {
                vfs().mutate("closedir of a directory that is not open");
                set_errno(libc::EBADF);
                -1
            }
        })
    } else {
        let f = real!("closedir", extern "C" fn(*mut c_void) -> c_int);
        f(d)
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn dirfd(d: *mut c_void) -> c_int {
    if sim() {
        unsafe { &*(d as *mut SimDir) }.fd
    } else {
        let f = real!("dirfd", extern "C" fn(*mut c_void) -> c_int);
        f(d)
    }
}

// ---------------------------------------------------------------- entropy, clock, futex
#[unsafe(no_mangle)]
pub extern "C" fn getrandom(buf: *mut c_void, n: size_t, flags: u32) -> ssize_t {
    if sim() {
        let mut r = crate::ctx::Rng::new(sched::HSEED.with(|x| x.get()));
        let b = unsafe { std::slice::from_raw_parts_mut(buf as *mut u8, n) };
        for c in b.chunks_mut(8) {
            let v = r.next().to_le_bytes();
            c.copy_from_slice(&v[..c.len()]);
        }
        sched::HSEED.with(|x| x.set(r.next()));
        n as ssize_t
    } else {
        ret(unsafe { raw6(libc::SYS_getrandom, buf as usize, n, flags as usize, 0, 0, 0) })
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn clock_gettime(clk: c_int, ts: *mut libc::timespec) -> c_int {
    if sim() {
        let ns = crate::ctx::ctx().sim_ns;
        unsafe {
            (*ts).tv_sec = 1_700_000_000 + (ns / 1_000_000_000) as i64;
            (*ts).tv_nsec = (ns % 1_000_000_000) as i64;
        }
        0
    } else {
        ret(unsafe { raw6(libc::SYS_clock_gettime, clk as usize, ts as usize, 0, 0, 0, 0) }) as c_int
    }
}
#[unsafe(no_mangle)]
pub extern "C" fn syscall(n: c_long, a: usize, b: usize, c: usize, d: usize, e: usize, f: usize) -> c_long {
    if sim() && SUT.with(|x| x.get()) {
        if n == libc::SYS_futex {
            let op = b as i32 & !(libc::FUTEX_PRIVATE_FLAG | libc::FUTEX_CLOCK_REALTIME);
            match op {
                libc::FUTEX_WAIT | libc::FUTEX_WAIT_BITSET => {
                    let cur = unsafe { (*(a as *const std::sync::atomic::AtomicU32)).load(std::sync::atomic::Ordering::SeqCst) };
                    if cur != c as u32 {
                        set_errno(libc::EAGAIN);
                        return -1;
                    }
                    harness(|| sched::block_on(a));
                    return 0;
                }
                libc::FUTEX_WAKE | libc::FUTEX_WAKE_BITSET => {
                    return harness(|| sched::wake(a, c)) as c_long;
                }
                _ => {}
            }
        }
        harness(|| vfs().mutate(&format!("direct system call {n}")));
    }
    ret(unsafe { raw6(n, a, b, c, d, e, f) }) as c_long
}

// ---------------------------------------------------------------- things a reader must never do
macro_rules! forbid {
    ($($name:ident ( $($a:ident),* ) $nr:expr;)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $name($($a: usize),*) -> isize {
            if sim() {
                harness(|| vfs().mutate(stringify!($name)));
                set_errno(libc::EROFS);
                return -1;
            }
            let v: [usize; 6] = { let mut v = [0usize; 6]; let mut i = 0; $( v[i] = $a; i += 1; )* let _ = i; v };
            ret(unsafe { raw6($nr, v[0], v[1], v[2], v[3], v[4], v[5]) })
        }
    )*};
}
forbid! {
    unlink(a) libc::SYS_unlink;
    rmdir(a) libc::SYS_rmdir;
    mkdir(a, b) libc::SYS_mkdir;
    rename(a, b) libc::SYS_rename;
    symlink(a, b) libc::SYS_symlink;
    link(a, b) libc::SYS_link;
    chmod(a, b) libc::SYS_chmod;
    fchmod(a, b) libc::SYS_fchmod;
    ftruncate64(a, b) libc::SYS_ftruncate;
    truncate64(a, b) libc::SYS_truncate;
    unlinkat(a, b, c) libc::SYS_unlinkat;
    mkdirat(a, b, c) libc::SYS_mkdirat;
    linkat(a, b, c, d, e) libc::SYS_linkat;
    utimensat(a, b, c, d) libc::SYS_utimensat;
    futimens(a, b) libc::SYS_utimensat;
    fsync(a) libc::SYS_fsync;
    fdatasync(a) libc::SYS_fdatasync;
    chdir(a) libc::SYS_chdir;
    socket(a, b, c) libc::SYS_socket;
    connect(a, b, c) libc::SYS_connect;
    fork() libc::SYS_fork;
    pwrite64(a, b, c, d) libc::SYS_pwrite64;
    nanosleep(a, b) libc::SYS_nanosleep;
    renameat(a, b, c, d) libc::SYS_renameat;
    renameat2(a, b, c, d, e) libc::SYS_renameat2;
    symlinkat(a, b, c) libc::SYS_symlinkat;
    fchmodat(a, b, c, d) libc::SYS_fchmodat;
    chown(a, b, c) libc::SYS_chown;
    mknod(a, b, c) libc::SYS_mknod;
    fallocate64(a, b, c, d) libc::SYS_fallocate;
    setxattr(a, b, c, d, e) libc::SYS_setxattr;
    bind(a, b, c) libc::SYS_bind;
    sendto(a, b, c, d, e, f) libc::SYS_sendto;
}
macro_rules! forbid_real {
    ($($name:ident = $lit:literal ( $($a:ident),* );)*) => {$(
        #[unsafe(no_mangle)]
        pub extern "C" fn $name($($a: usize),*) -> c_int {
            if sim() {
                harness(|| vfs().mutate($lit));
                set_errno(libc::EPERM);
                return libc::EPERM;
            }
            let f = real!($lit, extern "C" fn($($a: usize),*) -> c_int);
            f($($a),*)
        }
    )*};
}
forbid_real! {
    posix_spawnp = "posix_spawnp"(a, b, c, d, e, f);
    posix_spawn = "posix_spawn"(a, b, c, d, e, f);
    setenv = "setenv"(a, b, c);
    unsetenv = "unsetenv"(a);
}
#[unsafe(no_mangle)]
pub extern "C" fn write(fd: c_int, buf: *const c_void, n: size_t) -> ssize_t {
    if sim() && SUT.with(|x| x.get()) {
        harness(|| vfs().mutate(&format!("write to descriptor {}", if fd >= FD_BASE { "of a file".into() } else { fd.to_string() })));
        return n as ssize_t;
    }
    ret(unsafe { raw6(libc::SYS_write, fd as usize, buf as usize, n, 0, 0, 0) })
}
#[unsafe(no_mangle)]
pub extern "C" fn writev(fd: c_int, iov: *const libc::iovec, cnt: c_int) -> ssize_t {
    if sim() && SUT.with(|x| x.get()) {
        harness(|| vfs().mutate("writev"));
        let mut n = 0;
        for i in 0..cnt as usize {
            n += unsafe { (*iov.add(i)).iov_len };
        }
        return n as ssize_t;
    }
    ret(unsafe { raw6(libc::SYS_writev, fd as usize, iov as usize, cnt as usize, 0, 0, 0) })
}
