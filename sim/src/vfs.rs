//! In-memory file system owned by the simulator, with fault plan and journal.

use crate::ctx::{self, F, S, choose};
use std::cell::UnsafeCell;
use std::collections::{BTreeMap, BTreeSet};
use std::sync::Arc;

pub type Bytes = Arc<Vec<u8>>;

pub enum Node {
    File(Bytes),
    Dir(BTreeMap<Vec<u8>, u64>),
    Link(Vec<u8>),
    Fifo,
}
pub struct Inode {
    pub node: Node,
    pub deny: bool,
}

pub struct Open {
    pub ino: u64,
    pub pos: usize,
    pub flags: i32,
    pub path: String,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug, PartialOrd, Ord)]
pub enum Op {
    Open,
    Read,
    Fstat,
    Stat,
    Lstat,
    Lseek,
    Realpath,
    Opendir,
    Readdir,
    Readlink,
    Getcwd,
    Close,
    Closedir,
    Access,
    Mutate,
}

#[derive(Clone, Debug)]
pub struct Sys {
    pub thread: usize,
    pub op: Op,
    pub path: String,
    pub ino: u64,
    pub ret: i64, // >=0 ok, <0 -errno
    pub fault: bool,
}

#[derive(Clone)]
pub enum Event {
    /// repoint / create a symlink
    Symlink { path: String, target: String },
    /// atomically replace a file (new inode)
    Replace { path: String, data: Bytes },
    /// overwrite in place (same inode)
    Overwrite { path: String, data: Bytes },
    Truncate { path: String, len: usize },
    Unlink { path: String },
}

#[derive(Default, Clone)]
pub struct Plan {
    /// benign faults: 0 = off, otherwise 1/rate of the eligible calls
    pub benign: usize,
    /// hard errors at the given global call numbers
    pub hard: Vec<(u64, i32)>,
    /// all calls from this number on fail with this errno (until healed)
    pub from: Option<(u64, i32)>,
    /// restrict hard errors to calls of one thread
    pub only_thread: Option<usize>,
    /// environment changes just before the given global call numbers
    pub events: Vec<(u64, Event)>,
    /// reads of this file return EOF at this offset
    pub eof_at: Option<(String, usize)>,
    /// directory enumeration order seed (0 = sorted)
    pub dir_seed: u64,
    /// d_type unknown
    pub dt_unknown: bool,
    /// stat reports this instead of the true size: 0 = true, 1 = zero, 2 = smaller, 3 = larger
    pub size_lie: u8,
}

pub struct Vfs {
    pub inodes: BTreeMap<u64, Inode>,
    pub next_ino: u64,
    pub cwd: String,
    pub fds: BTreeMap<i32, Open>,
    pub next_fd: i32,
    pub dirs: BTreeSet<usize>,
    pub plan: Plan,
    pub calls: u64,
    pub journal: Vec<Sys>,
    pub mutations: Vec<String>,
    pub fired: u64,
    pub fired_hard: u64,
    /// journal position of the last environment change
    pub changed_at: usize,
}

struct C(UnsafeCell<Option<Vfs>>);
unsafe impl Sync for C {}
static VFS: C = C(UnsafeCell::new(None));
#[allow(clippy::mut_from_ref)]
pub fn vfs() -> &'static mut Vfs {
    unsafe { (*VFS.0.get()).get_or_insert_with(Vfs::new) }
}
pub fn reset() {
    unsafe { *VFS.0.get() = Some(Vfs::new()) }
}

pub const FD_BASE: i32 = 1 << 20;

impl Vfs {
    fn new() -> Vfs {
        let mut inodes = BTreeMap::new();
        inodes.insert(1, Inode { node: Node::Dir(BTreeMap::new()), deny: false });
        Vfs {
            inodes,
            next_ino: 2,
            cwd: "/".into(),
            fds: BTreeMap::new(),
            next_fd: FD_BASE,
            dirs: BTreeSet::new(),
            plan: Plan::default(),
            calls: 0,
            journal: vec![],
            mutations: vec![],
            fired: 0,
            fired_hard: 0,
            changed_at: 0,
        }
    }
    /// Forget per-read bookkeeping (journal, call counter, plan), keep the tree.
    pub fn fresh(&mut self, plan: Plan) {
        self.plan = plan;
        self.calls = 0;
        self.journal.clear();
        self.mutations.clear();
        self.fired = 0;
        self.fired_hard = 0;
        self.changed_at = 0;
        self.fds.clear();
        self.dirs.clear();
        self.next_fd = FD_BASE;
    }
    fn new_inode(&mut self, node: Node) -> u64 {
        let i = self.next_ino;
        self.next_ino += 1;
        self.inodes.insert(i, Inode { node, deny: false });
        i
    }
    /// Harness-side helpers; `path` is absolute and literal.
    pub fn mkdirs(&mut self, path: &str) -> u64 {
        let mut cur = 1;
        for comp in path.split('/').filter(|c| !c.is_empty()) {
            let found = match &self.inodes[&cur].node {
                Node::Dir(d) => d.get(comp.as_bytes()).copied(),
                _ => panic!("mkdirs through non-dir {path}"),
            };
            cur = match found {
                Some(i) => i,
                None => {
                    let i = self.new_inode(Node::Dir(BTreeMap::new()));
                    if let Node::Dir(d) = &mut self.inodes.get_mut(&cur).unwrap().node {
                        d.insert(comp.as_bytes().to_vec(), i);
                    }
                    i
                }
            }
        }
        cur
    }
    fn put(&mut self, path: &str, node: Node) -> u64 {
        let (dir, name) = path.rsplit_once('/').unwrap();
        let d = self.mkdirs(dir);
        let i = self.new_inode(node);
        if let Node::Dir(m) = &mut self.inodes.get_mut(&d).unwrap().node {
            m.insert(name.as_bytes().to_vec(), i);
        }
        i
    }
    pub fn put_file(&mut self, path: &str, data: Bytes) -> u64 {
        if crate::props::EXPORT.load(std::sync::atomic::Ordering::Relaxed) {
            crate::export(path, &data);
        }
        self.put(path, Node::File(data))
    }
    pub fn put_link(&mut self, path: &str, target: &str) -> u64 {
        self.put(path, Node::Link(target.as_bytes().to_vec()))
    }
    pub fn put_fifo(&mut self, path: &str) -> u64 {
        self.put(path, Node::Fifo)
    }
    pub fn remove(&mut self, path: &str) {
        let (dir, name) = path.rsplit_once('/').unwrap();
        let d = self.mkdirs(dir);
        if let Node::Dir(m) = &mut self.inodes.get_mut(&d).unwrap().node {
            m.remove(name.as_bytes());
        }
    }
    pub fn lookup(&self, path: &str) -> Option<u64> {
        self.resolve(path.as_bytes(), false).ok().map(|r| r.0)
    }
    pub fn deny(&mut self, path: &str, deny: bool) {
        if let Some(i) = self.lookup(path) {
            self.inodes.get_mut(&i).unwrap().deny = deny;
        }
    }

    /// Resolve a path to (inode, canonical path).
    pub fn resolve(&self, path: &[u8], follow_last: bool) -> Result<(u64, String), i32> {
        if path.is_empty() {
            return Err(libc::ENOENT);
        }
        if path.len() >= 4096 {
            return Err(libc::ENAMETOOLONG);
        }
        let mut todo: Vec<Vec<u8>> = vec![];
        let push = |todo: &mut Vec<Vec<u8>>, p: &[u8]| {
            let mut comps: Vec<Vec<u8>> = p.split(|c| *c == b'/').filter(|c| !c.is_empty()).map(|c| c.to_vec()).collect();
            if p.ends_with(b"/") {
                comps.push(b".".to_vec());
            }
            for c in comps.into_iter().rev() {
                todo.push(c);
            }
        };
        // stack of (ino, name)
        let mut stack: Vec<(u64, Vec<u8>)> = vec![(1, vec![])];
        push(&mut todo, path);
        if path[0] != b'/' {
            let cwd = self.cwd.clone();
            push(&mut todo, cwd.trim_end_matches('/').as_bytes());
        }
        let mut links = 0;
        while let Some(c) = todo.pop() {
            let cur = stack.last().unwrap().0;
            let inode = &self.inodes[&cur];
            let dir = match &inode.node {
                Node::Dir(d) => d,
                _ => return Err(libc::ENOTDIR),
            };
            if c == b"." {
                continue;
            }
            if c == b".." {
                if stack.len() > 1 {
                    stack.pop();
                }
                continue;
            }
            if c.len() > 255 {
                return Err(libc::ENAMETOOLONG);
            }
            if inode.deny {
                return Err(libc::EACCES);
            }
            let ino = *dir.get(&c).ok_or(libc::ENOENT)?;
            if let Node::Link(t) = &self.inodes[&ino].node {
                let last = todo.is_empty();
                if !last || follow_last {
                    links += 1;
                    if links > 40 {
                        return Err(libc::ELOOP);
                    }
                    if t.is_empty() {
                        return Err(libc::ENOENT);
                    }
                    if t[0] == b'/' {
                        stack.truncate(1);
                    }
                    push(&mut todo, t);
                    continue;
                }
            }
            stack.push((ino, c));
        }
        let mut s = String::new();
        for (_, n) in &stack[1..] {
            s.push('/');
            s.push_str(&String::from_utf8_lossy(n));
        }
        if s.is_empty() {
            s.push('/');
        }
        Ok((stack.last().unwrap().0, s))
    }

    fn apply(&mut self, e: Event) {
        ctx::count("fault.concurrent_change");
        match e {
            Event::Symlink { path, target } => {
                self.put_link(&path, &target);
            }
            Event::Replace { path, data } => {
                self.put_file(&path, data);
            }
            Event::Overwrite { path, data } => {
                if let Some(i) = self.lookup(&path) {
                    self.inodes.get_mut(&i).unwrap().node = Node::File(data);
                }
            }
            Event::Truncate { path, len } => {
                if let Some(i) = self.lookup(&path) {
                    if let Node::File(b) = &mut self.inodes.get_mut(&i).unwrap().node {
                        let mut v = b.to_vec();
                        v.truncate(len);
                        *b = Arc::new(v);
                    }
                }
            }
            Event::Unlink { path } => self.remove(&path),
        }
    }

    /// Called at the start of every intercepted call; returns an injected errno.
    pub fn enter(&mut self, op: Op, path: &str) -> Option<i32> {
        let k = self.calls;
        self.calls += 1;
        ctx::ctx().sim_ns += 50_000;
        while let Some(pos) = self.plan.events.iter().position(|(n, _)| *n <= k) {
            let (_, e) = self.plan.events.remove(pos);
            ctx::trace(|| format!("    [event] before call {k}"));
            self.changed_at = self.journal.len();
            self.apply(e);
            self.fired += 1;
        }
        let me = crate::sched::current();
        if self.plan.only_thread.is_none_or(|t| t == me) {
            if let Some((n, e)) = self.plan.from {
                if k >= n && !matches!(op, Op::Close | Op::Closedir | Op::Mutate) {
                    ctx::count(&format!("fault.{}", errname(e)));
                    self.fired += 1;
                    self.fired_hard += 1;
                    self.note(op, path, 0, -(e as i64), true);
                    return Some(e);
                }
            }
            if let Some(pos) = self.plan.hard.iter().position(|(n, _)| *n <= k) {
                if !matches!(op, Op::Close | Op::Closedir | Op::Mutate) {
                    let (_, e) = self.plan.hard.remove(pos);
                    ctx::count(&format!("fault.{}", errname(e)));
                    self.fired += 1;
                    self.fired_hard += 1;
                    self.note(op, path, 0, -(e as i64), true);
                    return Some(e);
                }
            }
        }
        if self.plan.benign > 0 {
            if op == Op::Read || op == Op::Open {
                // EINTR is legal on slow devices for open/read
                if ctx::chance(F, 1, self.plan.benign * 3) {
                    ctx::count(if op == Op::Read { "fault.read_eintr" } else { "fault.open_eintr" });
                    self.fired += 1;
                    self.note(op, path, 0, -(libc::EINTR as i64), true);
                    return Some(libc::EINTR);
                }
            }
            if ctx::chance(F, 1, self.plan.benign * 6) {
                ctx::count("fault.slow_call");
                self.fired += 1;
                ctx::ctx().sim_ns += 1_000_000_000 * (1 + choose(F, 30) as u64);
            }
        }
        None
    }
    pub fn note(&mut self, op: Op, path: &str, ino: u64, ret: i64, fault: bool) {
        let thread = crate::sched::current();
        ctx::event(ctx::hash_bytes(path.as_bytes()) ^ (op as u64) << 50 ^ (ret as u64) << 3 ^ thread as u64);
        ctx::trace(|| {
            let r = if ret < 0 { errname((-ret) as i32).to_string() } else { ret.to_string() };
            format!("    t{thread} {op:?}({path}) = {r}{}", if fault { "   <- injected" } else { "" })
        });
        if self.journal.len() < 100_000 {
            self.journal.push(Sys { thread, op, path: path.to_string(), ino, ret, fault });
        }
    }

    pub fn open(&mut self, path: &[u8], flags: i32) -> Result<i32, i32> {
        let ps = String::from_utf8_lossy(path).into_owned();
        let wr = flags & (libc::O_WRONLY | libc::O_RDWR | libc::O_CREAT | libc::O_TRUNC | libc::O_APPEND);
        if wr != 0 {
            self.mutate(&format!("open for writing {ps}"));
            return Err(libc::EROFS);
        }
        if let Some(e) = self.enter(Op::Open, &ps) {
            return Err(e);
        }
        let r = self.resolve(path, flags & libc::O_NOFOLLOW == 0);
        let r = r.and_then(|(ino, _)| {
            let n = &self.inodes[&ino];
            if n.deny {
                return Err(libc::EACCES);
            }
            match n.node {
                Node::Link(_) => Err(libc::ELOOP),
                Node::Dir(_) => Ok(ino),
                Node::File(_) if flags & libc::O_DIRECTORY != 0 => Err(libc::ENOTDIR),
                Node::Fifo => Err(libc::ENXIO),
                _ => Ok(ino),
            }
        });
        match r {
            Ok(ino) => {
                let fd = self.next_fd;
                self.next_fd += 1;
                self.fds.insert(fd, Open { ino, pos: 0, flags, path: ps.clone() });
                self.note(Op::Open, &ps, ino, (fd - FD_BASE) as i64, false);
                Ok(fd)
            }
            Err(e) => {
                self.note(Op::Open, &ps, 0, -(e as i64), false);
                Err(e)
            }
        }
    }
    pub fn read(&mut self, fd: i32, buf: *mut u8, len: usize, at: Option<usize>) -> Result<usize, i32> {
        let (ino, pos, path) = match self.fds.get(&fd) {
            Some(o) => (o.ino, at.unwrap_or(o.pos), o.path.clone()),
            None => return Err(libc::EBADF),
        };
        if let Some(e) = self.enter(Op::Read, &path) {
            return Err(e);
        }
        let data = match &self.inodes[&ino].node {
            Node::File(b) => b.clone(),
            _ => {
                self.note(Op::Read, &path, ino, -(libc::EISDIR as i64), false);
                return Err(libc::EISDIR);
            }
        };
        let mut end = data.len();
        if let Some((p, off)) = &self.plan.eof_at {
            if *p == path && *off < end {
                end = *off;
                if pos + len >= end {
                    ctx::count("fault.early_eof");
                    self.fired += 1;
                }
            }
        }
        let mut n = end.saturating_sub(pos).min(len);
        let mut fault = false;
        if self.plan.benign > 0 && n > 1 && ctx::chance(F, 1, self.plan.benign) {
            let k = choose(F, 4);
            n = match k {
                0 => n - 1,
                1 => 1,
                2 => n / 2,
                _ => 1 + choose(F, n - 1),
            };
            ctx::count("fault.short_read");
            self.fired += 1;
            fault = true;
        }
        unsafe { std::ptr::copy_nonoverlapping(data.as_ptr().add(pos.min(data.len())), buf, n) };
        if at.is_none() {
            self.fds.get_mut(&fd).unwrap().pos = pos + n;
        }
        self.note(Op::Read, &path, ino, n as i64, fault);
        Ok(n)
    }
    /// (mode, size, ino)
    pub fn stat(&mut self, path: &[u8], follow: bool) -> Result<(u32, u64, u64), i32> {
        let ps = String::from_utf8_lossy(path).into_owned();
        let op = if follow { Op::Stat } else { Op::Lstat };
        if let Some(e) = self.enter(op, &ps) {
            return Err(e);
        }
        match self.resolve(path, follow) {
            Ok((ino, _)) => {
                self.note(op, &ps, ino, 0, false);
                Ok(self.meta(ino))
            }
            Err(e) => {
                self.note(op, &ps, 0, -(e as i64), false);
                Err(e)
            }
        }
    }
    pub fn fstat(&mut self, fd: i32) -> Result<(u32, u64, u64), i32> {
        let (ino, path) = match self.fds.get(&fd) {
            Some(o) => (o.ino, o.path.clone()),
            None => return Err(libc::EBADF),
        };
        if let Some(e) = self.enter(Op::Fstat, &path) {
            return Err(e);
        }
        self.note(Op::Fstat, &path, ino, 0, false);
        let (m, mut s, i) = self.meta(ino);
        if self.plan.size_lie != 0 && m & libc::S_IFMT == libc::S_IFREG {
            ctx::count("fault.stat_size_lie");
            self.fired += 1;
            s = match self.plan.size_lie {
                1 => 0,
                2 => s / 3,
                _ => s + 4097,
            };
        }
        Ok((m, s, i))
    }
    pub fn meta(&self, ino: u64) -> (u32, u64, u64) {
        match &self.inodes[&ino].node {
            Node::File(b) => (libc::S_IFREG | 0o644, b.len() as u64, ino),
            Node::Dir(_) => (libc::S_IFDIR | 0o755, 4096, ino),
            Node::Link(t) => (libc::S_IFLNK | 0o777, t.len() as u64, ino),
            Node::Fifo => (libc::S_IFIFO | 0o644, 0, ino),
        }
    }
    pub fn lseek(&mut self, fd: i32, off: i64, whence: i32) -> Result<i64, i32> {
        let (ino, pos, path) = match self.fds.get(&fd) {
            Some(o) => (o.ino, o.pos, o.path.clone()),
            None => return Err(libc::EBADF),
        };
        if let Some(e) = self.enter(Op::Lseek, &path) {
            return Err(e);
        }
        let size = self.meta(ino).1 as i64;
        let n = match whence {
            libc::SEEK_SET => off,
            libc::SEEK_CUR => pos as i64 + off,
            libc::SEEK_END => size + off,
            _ => return Err(libc::EINVAL),
        };
        if n < 0 {
            return Err(libc::EINVAL);
        }
        self.fds.get_mut(&fd).unwrap().pos = n as usize;
        Ok(n)
    }
    pub fn close(&mut self, fd: i32) -> Result<(), i32> {
        match self.fds.remove(&fd) {
            Some(o) => {
                self.enter(Op::Close, &o.path);
                self.note(Op::Close, &o.path, o.ino, 0, false);
                Ok(())
            }
            None => {
                self.mutate(&format!("close of a descriptor that is not open ({fd})"));
                Err(libc::EBADF)
            }
        }
    }
    pub fn realpath(&mut self, path: &[u8]) -> Result<String, i32> {
        let ps = String::from_utf8_lossy(path).into_owned();
        if let Some(e) = self.enter(Op::Realpath, &ps) {
            return Err(e);
        }
        match self.resolve(path, true) {
            Ok((ino, p)) => {
                self.note(Op::Realpath, &ps, ino, 0, false);
                Ok(p)
            }
            Err(e) => {
                self.note(Op::Realpath, &ps, 0, -(e as i64), false);
                Err(e)
            }
        }
    }
    pub fn readlink(&mut self, path: &[u8]) -> Result<Vec<u8>, i32> {
        let ps = String::from_utf8_lossy(path).into_owned();
        if let Some(e) = self.enter(Op::Readlink, &ps) {
            return Err(e);
        }
        let (ino, _) = self.resolve(path, false)?;
        match &self.inodes[&ino].node {
            Node::Link(t) => Ok(t.clone()),
            _ => Err(libc::EINVAL),
        }
    }
    /// Snapshot of the directory in the simulated enumeration order: (name, ino, d_type).
    pub fn opendir(&mut self, path: &[u8]) -> Result<(u64, Vec<(Vec<u8>, u64, u8)>), i32> {
        let ps = String::from_utf8_lossy(path).into_owned();
        if let Some(e) = self.enter(Op::Opendir, &ps) {
            return Err(e);
        }
        let r = self.resolve(path, true).and_then(|(ino, _)| if self.inodes[&ino].deny { Err(libc::EACCES) } else { Ok(ino) });
        let ino = match r {
            Ok(i) => i,
            Err(e) => {
                self.note(Op::Opendir, &ps, 0, -(e as i64), false);
                return Err(e);
            }
        };
        let list = self.list(ino);
        match list {
            Some(l) => {
                self.note(Op::Opendir, &ps, ino, 0, false);
                Ok((ino, l))
            }
            None => {
                self.note(Op::Opendir, &ps, 0, -(libc::ENOTDIR as i64), false);
                Err(libc::ENOTDIR)
            }
        }
    }
    pub fn list(&self, ino: u64) -> Option<Vec<(Vec<u8>, u64, u8)>> {
        let d = match &self.inodes[&ino].node {
            Node::Dir(d) => d,
            _ => return None,
        };
        let mut v: Vec<(Vec<u8>, u64, u8)> = vec![(b".".to_vec(), ino, libc::DT_DIR), (b"..".to_vec(), 1, libc::DT_DIR)];
        for (n, i) in d {
            let t = match self.inodes[i].node {
                Node::File(_) => libc::DT_REG,
                Node::Dir(_) => libc::DT_DIR,
                Node::Link(_) => libc::DT_LNK,
                Node::Fifo => libc::DT_FIFO,
            };
            v.push((n.clone(), *i, if self.plan.dt_unknown { libc::DT_UNKNOWN } else { t }));
        }
        if self.plan.dir_seed != 0 {
            let mut r = ctx::Rng::new(self.plan.dir_seed ^ ino);
            for i in (1..v.len()).rev() {
                v.swap(i, r.below(i + 1));
            }
        }
        Some(v)
    }
    pub fn mutate(&mut self, what: &str) {
        self.mutations.push(what.to_string());
        self.note(Op::Mutate, what, 0, 0, false);
    }
    pub fn leaks(&self) -> Vec<String> {
        let mut v: Vec<String> = self.fds.values().map(|o| format!("open file {}", o.path)).collect();
        if !self.dirs.is_empty() {
            v.push(format!("{} open directories", self.dirs.len()));
        }
        v
    }
    pub fn in_schedule(&self) -> usize {
        S
    }
}

pub fn errname(e: i32) -> &'static str {
    match e {
        libc::EIO => "EIO",
        libc::EACCES => "EACCES",
        libc::ENOENT => "ENOENT",
        libc::ENOTDIR => "ENOTDIR",
        libc::EMFILE => "EMFILE",
        libc::ENFILE => "ENFILE",
        libc::ENOMEM => "ENOMEM",
        libc::ELOOP => "ELOOP",
        libc::ESTALE => "ESTALE",
        libc::EINTR => "EINTR",
        libc::EPERM => "EPERM",
        libc::EROFS => "EROFS",
        libc::ETIMEDOUT => "ETIMEDOUT",
        libc::ENAMETOOLONG => "ENAMETOOLONG",
        libc::EISDIR => "EISDIR",
        libc::EOVERFLOW => "EOVERFLOW",
        libc::ENXIO => "ENXIO",
        libc::EBADF => "EBADF",
        libc::EINVAL => "EINVAL",
        libc::EAGAIN => "EAGAIN",
        _ => "E?",
    }
}
