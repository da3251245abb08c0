//! P18: proxied system calls. Every sequence is made on the real front end and, through libc, on a
//! mirrored directory with a reference descriptor table.
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::e2e::{Dir, FROMHOST, TOHOST};
use crate::imp::{args_for, guard, loader_for};
use carron::Emulator;
use std::ffi::CString;

const BLOCK: u64 = 0x8001_0000;
const NAME: u64 = 0x8001_0100;
const BUF: u64 = 0x8001_1000;
const WIN: u64 = 128;
const RAM_END: u64 = 0x1_0000_0000;

#[derive(Clone, Copy, Debug, PartialEq, Eq)]
enum At {
    /// absolute name, AT_FDCWD
    Abs,
    /// absolute name, 32-bit AT_FDCWD
    Abs32,
    /// relative to a guest descriptor
    Fd(u64),
}
#[derive(Clone, Copy, Debug)]
enum Op {
    Open(At, &'static str, i32, u32),
    Close(u64),
    Read(u64, u64),
    Write(u64, u64),
    Pread(u64, u64, i64),
    Pwrite(u64, u64, i64),
    Seek(u64, i64, u64),
    Fstat(u64),
    Fstatat(At, &'static str, i32),
    Unknown(u64),
    /// a data buffer that is not in the guest's memory
    ReadBad(u64, u64, u64),
    WriteBad(u64, u64, u64),
    PreadBad(u64),
    PwriteBad(u64),
    FstatBad(u64),
    OpenBad(u64, u64),
    /// name without terminator, or of length zero
    OpenNoNul(u64),
    StatNoNul(u64),
}
use Op::*;

struct Ref {
    table: Vec<Option<i32>>,
    win: Vec<u8>,
    dir: String,
}
impl Ref {
    fn new(dir: &str) -> Ref {
        Ref {
            table: (0..3).map(|k| Some(unsafe { libc::dup(k) })).collect(),
            win: vec![0; WIN as usize],
            dir: dir.to_string(),
        }
    }
    fn fd(&self, g: u64) -> i32 {
        if g < self.table.len() as u64 {
            self.table[g as usize].unwrap_or(-1)
        } else {
            -1
        }
    }
    fn err(r: i64) -> i64 {
        if r == -1 {
            -(unsafe { *libc::__errno_location() } as i64)
        } else {
            r
        }
    }
    fn alloc(&mut self, h: i32) -> i64 {
        match self.table.iter().position(|x| x.is_none()) {
            Some(k) => {
                self.table[k] = Some(h);
                k as i64
            }
            None => {
                self.table.push(Some(h));
                self.table.len() as i64 - 1
            }
        }
    }
}
impl Drop for Ref {
    fn drop(&mut self) {
        for h in self.table.iter().flatten() {
            unsafe { libc::close(*h) };
        }
    }
}

fn pattern(n: u64, k: u64) -> Vec<u8> {
    (0..n).map(|i| (i * 11 + k * 31 + 7) as u8).collect()
}

struct Env<'a> {
    emu: &'a mut Emulator,
    r: Ref,
    idir: String,
    rdir: String,
    step: u64,
}

pub fn emulator(xlen: u32, main_args: Vec<String>) -> Emulator {
    let image = crate::elf::Elf::new(xlen)
        .seg(0x8000_0000, vec![0; 4], 4)
        .sym("tohost", TOHOST)
        .sym("fromhost", FROMHOST)
        .build();
    let mut a = args_for("x");
    a.main_args = main_args;
    Emulator::new(loader_for(&image), a)
}

/// Make one request; the answer is argument word 0. Checks the handshake.
pub fn request(emu: &mut Emulator, args: &[u64; 8]) -> Result<i64, String> {
    request_at(emu, BLOCK, args)
}
pub fn request_at(emu: &mut Emulator, block: u64, args: &[u64; 8]) -> Result<i64, String> {
    let b = &mut emu.cpu.bus;
    for (k, &v) in args.iter().enumerate() {
        b.store64(block + 8 * k as u64, v).unwrap();
    }
    b.store64(FROMHOST, 0).unwrap();
    b.store64(TOHOST, 0).unwrap();
    if emu.check_tohost() {
        return Err("a request is seen although tohost is zero".into());
    }
    emu.cpu.bus.store64(TOHOST, block).unwrap();
    if !emu.check_tohost() {
        return Err("the request is not seen".into());
    }
    emu.handle_syscall();
    if emu.check_tohost() {
        return Err("the request is still pending after it was handled".into());
    }
    let b = &mut emu.cpu.bus;
    if b.load64(FROMHOST).unwrap() == 0 {
        return Err("the request is not acknowledged".into());
    }
    if b.load64(TOHOST).unwrap() != 0 {
        return Err("tohost is not cleared".into());
    }
    for k in 1..8 {
        let v = b.load64(block + 8 * k as u64).unwrap();
        if v != args[k] {
            return Err(format!(
                "argument word {k} changed from {:#x} to {v:#x}",
                args[k]
            ));
        }
    }
    Ok(b.load64(block).unwrap() as i64)
}

fn put(emu: &mut Emulator, a: u64, v: &[u8]) {
    for (k, b) in v.iter().enumerate() {
        emu.cpu.bus.store8(a + k as u64, *b as u64).unwrap();
    }
}
fn get(emu: &mut Emulator, a: u64, n: u64) -> Vec<u8> {
    (0..n)
        .map(|k| emu.cpu.bus.load8(a + k).unwrap() as u8)
        .collect()
}

/// The layout RISC-V proxy kernels expect of a stat buffer.
fn stat_bytes(s: &libc::stat) -> Vec<u8> {
    let mut v = vec![];
    let mut q = |x: u64| v.extend_from_slice(&x.to_le_bytes());
    q(s.st_dev);
    q(s.st_ino);
    q(s.st_mode as u64 | (s.st_nlink as u64) << 32);
    q(s.st_uid as u64 | (s.st_gid as u64) << 32);
    q(s.st_rdev);
    q(0);
    q(s.st_size as u64);
    q(s.st_blksize as u32 as u64);
    q(s.st_blocks as u64);
    q(s.st_atime as u64);
    q(0);
    q(s.st_mtime as u64);
    q(0);
    q(s.st_ctime as u64);
    q(0);
    q(0);
    v
}

impl Env<'_> {
    fn name(&mut self, at: At, n: &str) -> (u64, u64, CString, i32) {
        let full = |d: &str| {
            if n.is_empty() {
                String::new()
            } else {
                format!("{d}/{n}")
            }
        };
        let (dirfd, iname, rname, rdirfd) = match at {
            At::Abs => (
                -100i64 as u64,
                full(&self.idir),
                full(&self.rdir),
                libc::AT_FDCWD,
            ),
            At::Abs32 => (
                0xffff_ff9c,
                full(&self.idir),
                full(&self.rdir),
                libc::AT_FDCWD,
            ),
            At::Fd(g) => (g, n.to_string(), n.to_string(), self.r.fd(g)),
        };
        let mut b = iname.into_bytes();
        b.push(0);
        put(self.emu, NAME, &b);
        (dirfd, b.len() as u64, CString::new(rname).unwrap(), rdirfd)
    }

    fn apply(&mut self, op: Op) -> Result<(), String> {
        self.step += 1;
        let z = |n: u64, a: &[u64]| {
            let mut v = [0u64; 8];
            v[0] = n;
            v[1..1 + a.len()].copy_from_slice(a);
            v[7] = 0x7777;
            v
        };
        let mut want_win: Option<Vec<u8>> = None;
        let (got, want): (i64, Vec<i64>) = match op {
            Open(at, n, flags, mode) => {
                let (dirfd, len, rname, rdirfd) = self.name(at, n);
                let got = request(
                    self.emu,
                    &z(56, &[dirfd, NAME, len, flags as u64, mode as u64]),
                )?;
                let h =
                    Ref::err(unsafe { libc::openat(rdirfd, rname.as_ptr(), flags, mode) } as i64);
                let w = if h < 0 { h } else { self.r.alloc(h as i32) };
                (got, vec![w])
            }
            Close(g) => {
                let got = request(self.emu, &z(57, &[g]))?;
                let h = self.r.fd(g);
                let w = Ref::err(unsafe { libc::close(h) } as i64);
                if w == 0 {
                    self.r.table[g as usize] = None;
                }
                (got, vec![w])
            }
            Read(g, n) => {
                let got = request(self.emu, &z(63, &[g, BUF, n]))?;
                let mut v = vec![0u8; n as usize];
                let w = Ref::err(unsafe {
                    libc::read(self.r.fd(g), v.as_mut_ptr() as *mut _, n as usize)
                } as i64);
                if w > 0 {
                    self.r.win[..w as usize].copy_from_slice(&v[..w as usize]);
                }
                (got, vec![w])
            }
            Pread(g, n, off) => {
                let got = request(self.emu, &z(67, &[g, BUF, n, off as u64]))?;
                let mut v = vec![0u8; n as usize];
                let w = Ref::err(unsafe {
                    libc::pread(self.r.fd(g), v.as_mut_ptr() as *mut _, n as usize, off)
                } as i64);
                if w > 0 {
                    self.r.win[..w as usize].copy_from_slice(&v[..w as usize]);
                }
                (got, vec![w])
            }
            Write(g, n) | Pwrite(g, n, _) => {
                let v = pattern(n, self.step);
                put(self.emu, BUF, &v);
                self.r.win[..n as usize].copy_from_slice(&v);
                if let Pwrite(_, _, off) = op {
                    let got = request(self.emu, &z(68, &[g, BUF, n, off as u64]))?;
                    (
                        got,
                        vec![Ref::err(unsafe {
                            libc::pwrite(self.r.fd(g), v.as_ptr() as *const _, n as usize, off)
                        } as i64)],
                    )
                } else {
                    let got = request(self.emu, &z(64, &[g, BUF, n]))?;
                    (
                        got,
                        vec![Ref::err(unsafe {
                            libc::write(self.r.fd(g), v.as_ptr() as *const _, n as usize)
                        } as i64)],
                    )
                }
            }
            Seek(g, off, wh) => {
                let got = request(self.emu, &z(62, &[g, off as u64, wh]))?;
                (
                    got,
                    vec![Ref::err(unsafe {
                        libc::lseek(self.r.fd(g), off, wh as i32)
                    })],
                )
            }
            Fstat(g) => {
                let got = request(self.emu, &z(80, &[g, BUF]))?;
                let mut s: libc::stat = unsafe { std::mem::zeroed() };
                let h = self.r.fd(g);
                let w = Ref::err(unsafe { libc::fstat(h, &mut s) } as i64);
                if w == 0 {
                    // the same file on the emulator's side: found through the reference descriptor
                    let p = std::fs::read_link(format!("/proc/self/fd/{h}"))
                        .map_err(|e| e.to_string())?;
                    let p = p.to_string_lossy().replace(&self.rdir, &self.idir);
                    let c = CString::new(p.clone()).unwrap();
                    if p.starts_with(&self.idir) && unsafe { libc::stat(c.as_ptr(), &mut s) } != 0 {
                        return Err(format!("{op:?}: {p} does not exist"));
                    }
                    want_win = Some(stat_bytes(&s));
                }
                (got, vec![w])
            }
            Fstatat(at, n, flags) => {
                let (dirfd, len, rname, rdirfd) = self.name(at, n);
                let got = request(self.emu, &z(79, &[dirfd, NAME, len, BUF, flags as u64]))?;
                let mut s: libc::stat = unsafe { std::mem::zeroed() };
                let w = Ref::err(
                    unsafe { libc::fstatat(rdirfd, rname.as_ptr(), &mut s, flags) } as i64,
                );
                if w == 0 {
                    let base = match at {
                        At::Fd(_) => std::fs::read_link(format!("/proc/self/fd/{rdirfd}"))
                            .map_err(|e| e.to_string())?
                            .to_string_lossy()
                            .replace(&self.rdir, &self.idir),
                        _ => self.idir.clone(),
                    };
                    let c = CString::new(format!("{base}/{n}")).unwrap();
                    let r = unsafe {
                        if flags & libc::AT_SYMLINK_NOFOLLOW != 0 {
                            libc::lstat(c.as_ptr(), &mut s)
                        } else {
                            libc::stat(c.as_ptr(), &mut s)
                        }
                    };
                    if r != 0 {
                        return Err(format!("{op:?}: missing on the emulator's side"));
                    }
                    want_win = Some(stat_bytes(&s));
                }
                (got, vec![w])
            }
            Unknown(n) => (request(self.emu, &z(n, &[3, BUF, 8]))?, vec![-38]),
            // descriptor and buffer both bad: either error
            ReadBad(g, a, n) => {
                let ok = self.r.fd(g) >= 0;
                let size_eof = self.at_end(g);
                let got = request(self.emu, &z(63, &[g, a, n]))?;
                let mut w = vec![-14];
                if !ok {
                    w.push(-9);
                }
                w.extend(size_eof);
                (got, w)
            }
            WriteBad(g, a, n) => {
                let mut w = vec![-14];
                if !self.writable(g) {
                    w.push(-9);
                }
                (request(self.emu, &z(64, &[g, a, n]))?, w)
            }
            PreadBad(g) => {
                let mut w = vec![-14, -9];
                if self.r.fd(g) >= 0 && self.readable(g) {
                    w.pop();
                }
                w.extend([-21, -29, 0].iter().filter(|_| !self.plain(g)));
                if self.size(g) == Some(0) {
                    w.push(0);
                }
                (request(self.emu, &z(67, &[g, RAM_END - 3, 8, 0]))?, w)
            }
            PwriteBad(g) => {
                let mut w = vec![-14];
                if !self.writable(g) {
                    w.push(-9);
                }
                if !self.plain(g) {
                    w.extend([-29, -21]);
                }
                (request(self.emu, &z(68, &[g, 0x1000, 8, 0]))?, w)
            }
            FstatBad(g) => {
                let mut w = vec![-14];
                if self.r.fd(g) < 0 {
                    w.push(-9);
                }
                (request(self.emu, &z(80, &[g, RAM_END - 64]))?, w)
            }
            OpenBad(a, n) => (
                request(self.emu, &z(56, &[-100i64 as u64, a, n, 0, 0]))?,
                vec![-14],
            ),
            OpenNoNul(n) => {
                put(self.emu, NAME, b"f0f0f0f0");
                let got = request(self.emu, &z(56, &[-100i64 as u64, NAME, n, 0, 0]))?;
                (got, vec![-22, -14, -36, -2])
            }
            StatNoNul(n) => {
                put(self.emu, NAME, b"f0f0f0f0");
                let got = request(self.emu, &z(79, &[-100i64 as u64, NAME, n, BUF, 0]))?;
                (got, vec![-22, -14, -36, -2])
            }
        };
        if !want.contains(&got) {
            return Err(format!("{op:?}: spec {want:?}, carron {got}"));
        }
        if let Some(w) = want_win {
            self.r.win[..w.len()].copy_from_slice(&w);
        }
        let w = get(self.emu, BUF, WIN);
        if w != self.r.win {
            let k = (0..w.len()).find(|&k| w[k] != self.r.win[k]).unwrap();
            return Err(format!(
                "{op:?}: guest buffer byte {k}: spec {:#x}, carron {:#x}",
                self.r.win[k], w[k]
            ));
        }
        Ok(())
    }
    fn stat(&self, g: u64) -> Option<libc::stat> {
        let mut s: libc::stat = unsafe { std::mem::zeroed() };
        (unsafe { libc::fstat(self.r.fd(g), &mut s) } == 0).then_some(s)
    }
    fn plain(&self, g: u64) -> bool {
        self.stat(g)
            .map_or(false, |s| s.st_mode & libc::S_IFMT == libc::S_IFREG)
    }
    fn size(&self, g: u64) -> Option<i64> {
        self.stat(g).map(|s| s.st_size)
    }
    fn mode(&self, g: u64) -> i32 {
        unsafe { libc::fcntl(self.r.fd(g), libc::F_GETFL) }
    }
    fn readable(&self, g: u64) -> bool {
        let m = self.mode(g);
        m >= 0 && m & libc::O_ACCMODE != libc::O_WRONLY
    }
    fn writable(&self, g: u64) -> bool {
        let m = self.mode(g);
        m >= 0 && m & libc::O_ACCMODE != libc::O_RDONLY
    }
    /// what a read of nothing may give besides the buffer error
    fn at_end(&self, g: u64) -> Vec<i64> {
        let mut v = vec![];
        if !self.readable(g) {
            v.push(-9);
        }
        if !self.plain(g) {
            v.extend([-21, 0]);
        } else {
            let p = unsafe { libc::lseek(self.r.fd(g), 0, libc::SEEK_CUR) };
            if self.size(g).map_or(true, |s| p >= s) {
                v.push(0);
            }
        }
        v
    }
}

fn fill(d: &str) {
    // bring the directory back to its initial contents
    for e in std::fs::read_dir(d).unwrap().flatten() {
        let n = e.file_name();
        if !["f0", "d", "l"].contains(&n.to_str().unwrap()) {
            let _ = std::fs::remove_file(e.path());
        }
    }
    let _ = std::fs::create_dir(format!("{d}/d"));
    let _ = std::os::unix::fs::symlink("f0", format!("{d}/l"));
    std::fs::write(format!("{d}/f0"), b"hello world 0123456789").unwrap();
    std::fs::write(format!("{d}/d/g"), b"inner").unwrap();
    let _ = std::fs::remove_file(format!("{d}/d/n"));
}
/// All bytes of a file; of a large one its size and the data extents.
fn contents(p: &std::path::Path, len: u64) -> Vec<u8> {
    if len < 1 << 20 {
        return std::fs::read(p).unwrap();
    }
    use std::os::fd::AsRawFd;
    use std::os::unix::fs::FileExt;
    let f = std::fs::File::open(p).unwrap();
    let mut v = len.to_le_bytes().to_vec();
    let mut at = 0i64;
    loop {
        let a = unsafe { libc::lseek(f.as_raw_fd(), at, libc::SEEK_DATA) };
        if a < 0 {
            return v;
        }
        let b = unsafe { libc::lseek(f.as_raw_fd(), a, libc::SEEK_HOLE) };
        let mut buf = vec![0; (b - a) as usize];
        f.read_exact_at(&mut buf, a as u64).unwrap();
        // where an extent begins is the file system's choice
        for (k, &c) in buf.iter().enumerate() {
            if c != 0 {
                v.extend((a as u64 + k as u64).to_le_bytes());
                v.push(c);
            }
        }
        at = b;
    }
}
fn tree(d: &str) -> Vec<(String, u32, Vec<u8>)> {
    use std::os::unix::fs::PermissionsExt;
    let mut v = vec![];
    for p in ["", "d"] {
        for e in std::fs::read_dir(format!("{d}/{p}")).unwrap().flatten() {
            let m = std::fs::symlink_metadata(e.path()).unwrap();
            let data = if m.is_file() {
                contents(&e.path(), m.len())
            } else {
                vec![]
            };
            v.push((
                format!("{p}/{}", e.file_name().to_string_lossy()),
                m.permissions().mode(),
                data,
            ));
        }
    }
    v.sort();
    v
}

thread_local! {
    static DIRS: std::cell::RefCell<Option<(Dir, Dir)>> = const { std::cell::RefCell::new(None) };
}

fn run_ops(ctx: &mut Ctx, xlen: u32, ops: &[Op]) -> CaseResult {
    let dirs = DIRS
        .with(|d| d.borrow_mut().take())
        .unwrap_or_else(|| (Dir::new(), Dir::new()));
    fill(&dirs.0 .0);
    fill(&dirs.1 .0);
    let r = guard(|| {
        let mut emu = emulator(xlen, vec![]);
        let mut env = Env {
            emu: &mut emu,
            r: Ref::new(&dirs.1 .0),
            idir: dirs.0 .0.clone(),
            rdir: dirs.1 .0.clone(),
            step: 0,
        };
        let mut res = Ok(());
        for op in ops {
            res = env.apply(*op);
            if res.is_err() {
                break;
            }
        }
        // what is open can be closed, and nothing else
        if res.is_ok() {
            for g in 0..env.r.table.len() as u64 + 2 {
                res = env.apply(Close(g));
                if res.is_err() {
                    break;
                }
            }
        } else {
            for g in 0..12 {
                let _ = request(env.emu, &[57, g, 0, 0, 0, 0, 0, 0]);
            }
        }
        let _ = &env.r.dir;
        res?;
        let (a, b) = (tree(&dirs.0 .0), tree(&dirs.1 .0));
        if a != b {
            return Err(format!("files: spec {b:?}, carron {a:?}"));
        }
        Ok(())
    });
    DIRS.with(|d| *d.borrow_mut() = Some(dirs));
    for _ in ops {
        ctx.step_done();
    }
    ctx.state(&format!("{xlen}{ops:?}"));
    ctx.trace_done();
    let at = |t: String| format!("RV{xlen} {ops:x?}\n{t}");
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(t)) => bad("syscall", at(t)),
        Err(p) => bad("syscall:abort", at(format!("the emulator aborts: {p}"))),
    }
}

pub fn run(rep: &Report) {
    rep.note("reference: the same host calls through libc on a mirrored directory, with a lowest-free-first descriptor table");
    rep.note("left open: which error wins when descriptor and buffer are both bad, and a bad buffer at end of file");
    unsafe {
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY);
        libc::dup2(n, 0);
    }
    let rw = libc::O_RDWR;
    let cr = libc::O_CREAT;
    let al: Vec<Op> = vec![
        Open(At::Abs, "f0", libc::O_RDONLY, 0),
        Open(At::Abs, "f0", rw, 0),
        Open(At::Abs32, "new", rw | cr, 0o640),
        Open(At::Abs, "f0", libc::O_WRONLY | libc::O_APPEND, 0),
        Open(At::Abs, "f0", rw | libc::O_TRUNC, 0),
        Open(At::Abs, "new", rw | cr | libc::O_EXCL, 0o600),
        Open(At::Abs, "missing", libc::O_RDONLY, 0),
        Open(At::Abs, "d", libc::O_RDONLY | libc::O_DIRECTORY, 0),
        Open(At::Abs, "l", libc::O_RDONLY, 0),
        Open(At::Fd(3), "g", rw, 0),
        Open(At::Fd(3), "n", rw | cr, 0o644),
        Open(At::Fd(9), "g", rw, 0),
        Open(At::Abs, "", libc::O_RDONLY, 0),
        Close(0),
        Close(2),
        Close(3),
        Close(4),
        Close(9),
        Close(u64::MAX),
        Close(0x1_0000_0003),
        Read(3, 5),
        Read(3, 100),
        Read(4, 5),
        Read(9, 5),
        Read(3, 0),
        Write(3, 5),
        Write(3, 0),
        Write(4, 7),
        Write(9, 5),
        Pread(3, 6, 2),
        Pread(3, 6, -1),
        Pread(4, 60, 20),
        Pwrite(3, 4, 30),
        Pwrite(3, 4, -5),
        Pwrite(4, 3, 0),
        Seek(3, 4, 0),
        Seek(3, -2, 2),
        Seek(3, 3, 1),
        Seek(3, -9, 0),
        Seek(3, 0, 77),
        Seek(9, 0, 0),
        Fstat(3),
        Fstat(4),
        Fstat(0),
        Fstat(9),
        Fstatat(At::Abs, "f0", 0),
        Fstatat(At::Abs, "l", libc::AT_SYMLINK_NOFOLLOW),
        Fstatat(At::Abs, "missing", 0),
        Fstatat(At::Fd(3), "g", 0),
        Fstatat(At::Fd(8), "g", 0),
        Unknown(999),
        Unknown(0),
        Unknown(0x1_0000_0039),
        Unknown(1 << 63 | 64),
        ReadBad(3, 0x1000, 4),
        WriteBad(3, RAM_END - 2, 4),
        PreadBad(3),
        PwriteBad(3),
        FstatBad(3),
        OpenBad(0x2000, 4),
        OpenNoNul(4),
        StatNoNul(0),
    ];
    let n = al.len();
    let d = if rep.thorough { 4 } else { 3 };
    // the first operation opens something: other sequences are covered at depth 2
    let opens: Vec<Op> = al
        .iter()
        .copied()
        .filter(|o| matches!(o, Open(..)))
        .collect();
    let mut dims = vec![opens.len()];
    dims.extend(std::iter::repeat(n).take(d - 1));
    rep.space("any", &[2, n, n], |ctx, d| {
        run_ops(ctx, [32, 64][d[0]], &[al[d[1]], al[d[2]]])
    });
    rep.space("histories", &dims, |ctx, d| {
        let mut ops = vec![opens[d[0]]];
        ops.extend(d[1..].iter().map(|&k| al[k]));
        run_ops(ctx, 64, &ops)
    });
    // every other number is answered as unknown, whatever its upper bits
    let known = [56u64, 57, 62, 63, 64, 67, 68, 79, 80, 93, 2011];
    let mut numbers: Vec<u64> = (0..4096).filter(|n| !known.contains(n)).collect();
    for k in known {
        numbers.extend((12..64).map(|b| k | 1 << b));
    }
    rep.space("numbers", &[2, numbers.len()], |ctx, d| {
        let ops = [al[1], Unknown(numbers[d[1]]), Write(3, 5)];
        run_ops(ctx, [32, 64][d[0]], &ops)
    });
    // every combination of flags on every kind of name, then use of the descriptor
    let bits = [
        libc::O_CREAT,
        libc::O_EXCL,
        libc::O_TRUNC,
        libc::O_APPEND,
        libc::O_DIRECTORY,
        libc::O_NOFOLLOW,
        libc::O_CLOEXEC,
    ];
    let targets = ["f0", "new", "d", "l", "missing/x"];
    rep.space("flags", &[3, 128, targets.len(), 2], |ctx, d| {
        let acc = [libc::O_RDONLY, libc::O_WRONLY, libc::O_RDWR][d[0]];
        let f = (0..7).fold(acc, |f, k| f | if d[1] >> k & 1 == 1 { bits[k] } else { 0 });
        let ops = [
            Open(At::Abs, targets[d[2]], f, 0o604),
            Write(3, 5),
            Read(3, 7),
            Fstat(3),
        ];
        run_ops(ctx, [32, 64][d[3]], &ops)
    });
    // every permission mode of a new file, as the host's creation mask leaves it
    rep.space(
        "modes",
        &[4096, if rep.thorough { 2 } else { 1 }],
        |ctx, d| {
            let ops = [
                Open(At::Abs, "new", rw | cr, d[0] as u32),
                Write(3, 5),
                Fstatat(At::Abs, "new", 0),
            ];
            run_ops(ctx, [64, 32][d[1]], &ops)
        },
    );
    // descriptor allocation
    let al2: Vec<Op> = vec![
        Open(At::Abs, "f0", rw, 0),
        Open(At::Abs, "new", rw | cr, 0o600),
        Open(At::Abs, "missing", 0, 0),
        Close(0),
        Close(3),
        Close(4),
        Close(5),
        Write(3, 3),
        Write(4, 2),
        Read(0, 4),
        Pread(5, 6, 0),
        Seek(4, 1, 0),
    ];
    let n2 = al2.len();
    let mut dims = vec![2];
    dims.extend(std::iter::repeat(n2).take(if rep.thorough { 5 } else { 4 }));
    rep.space("descriptors", &dims, |ctx, d| {
        let mut ops = vec![
            Open(At::Abs, "f0", rw, 0),
            Open(At::Abs, "new", rw | cr, 0o600),
        ];
        if d[0] == 1 {
            ops.extend([Open(At::Abs, "d/g", rw, 0), Close(3)]);
        }
        ops.extend(d[1..].iter().map(|&k| al2[k]));
        run_ops(ctx, 64, &ops)
    });
    // transfer sizes and buffer positions, all byte values
    let sizes: Vec<u64> = (0..70)
        .chain([
            127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 4097, 65535, 65536, 70000, 0xf_ffff,
            0x10_0000, 0x10_0001,
        ])
        .collect();
    rep.space("sizes", &[2, sizes.len(), 5, 2], |ctx, d| {
        let n = sizes[d[1]];
        if n == 0 && d[2] > 2 {
            // an empty buffer past the end of RAM may be accepted or refused
            return Ok(());
        }
        let a = match d[2] {
            0 => BUF,
            1 => BUF + 3,
            2 => 0x9000_0000 - n / 2,
            3 => RAM_END - n,
            _ => RAM_END - n + 1,
        };
        let dir = Dir::new();
        let path = dir.put("f", b"");
        let r = guard(|| -> Result<(), String> {
            let mut emu = emulator([32, 64][d[0]], vec![]);
            let mut nm = path.clone().into_bytes();
            nm.push(0);
            put(&mut emu, NAME, &nm);
            let fd = request(
                &mut emu,
                &[
                    56,
                    -100i64 as u64,
                    NAME,
                    nm.len() as u64,
                    libc::O_RDWR as u64,
                    0,
                    0,
                    0,
                ],
            )?;
            if fd != 3 {
                return Err(format!("open gives {fd}"));
            }
            let v = pattern(n, 5);
            let out = d[2] == 4;
            let m = if out { n - 1 } else { n };
            put(&mut emu, a, &v[..m as usize]);
            let (w, rd) = if d[3] == 0 { (64, 63) } else { (68, 67) };
            let got = request(&mut emu, &[w, 3, a, n, 0, 0, 0, 0])?;
            let want = if out { -14 } else { n as i64 };
            if got != want {
                return Err(format!(
                    "write of {n} bytes at {a:#x}: spec {want}, carron {got}"
                ));
            }
            let file = std::fs::read(&path).unwrap();
            if file != if out { vec![] } else { v.clone() } {
                return Err(format!(
                    "write of {n} bytes at {a:#x}: {} bytes in the file differ",
                    file.len()
                ));
            }
            std::fs::write(&path, pattern(n, 9)).unwrap();
            request(&mut emu, &[62, 3, 0, 0, 0, 0, 0, 0])?;
            // one byte on either side must stay
            let lo = a - 1;
            emu.cpu.bus.store8(lo, 0x5a).unwrap();
            let hi = (a + n < RAM_END).then_some(a + n);
            if let Some(h) = hi {
                emu.cpu.bus.store8(h, 0xa5).unwrap();
            }
            let got = request(&mut emu, &[rd, 3, a, n, 0, 0, 0, 0])?;
            if got != want {
                return Err(format!(
                    "read of {n} bytes at {a:#x}: spec {want}, carron {got}"
                ));
            }
            let now = get(&mut emu, a, m);
            if now
                != if out {
                    v[..m as usize].to_vec()
                } else {
                    pattern(n, 9)
                }
            {
                return Err(format!("read of {n} bytes at {a:#x}: memory differs"));
            }
            let b = &mut emu.cpu.bus;
            if b.load8(lo).unwrap() as u8 != 0x5a
                || hi.map_or(false, |h| b.load8(h).unwrap() as u8 != 0xa5)
            {
                return Err(format!(
                    "read of {n} bytes at {a:#x} changed a neighbouring byte"
                ));
            }
            if request(&mut emu, &[57, 3, 0, 0, 0, 0, 0, 0])? != 0 {
                return Err("close fails".into());
            }
            for g in 0..3 {
                request(&mut emu, &[57, g, 0, 0, 0, 0, 0, 0])?;
            }
            Ok(())
        });
        ctx.step_done();
        ctx.trace_done();
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(t)) => bad("transfer", t),
            Err(p) => bad("syscall:abort", p),
        }
    });
    // positions and sizes beyond 31, 32 and 40 bits
    let ks = [
        0x7fff_ffff,
        0x8000_0000,
        0xffff_fffe,
        0x1_0000_0002,
        0x3_0000_0000,
        0x100_0000_0000,
        i64::MAX,
        i64::MIN,
        -0x1_0000_0000,
    ];
    let mut al3: Vec<Op> = vec![
        Read(3, 9),
        Write(3, 5),
        Fstat(3),
        Seek(3, 0, 2),
        Seek(3, 0, 1),
        Open(At::Abs, "f0", rw | libc::O_APPEND, 0),
        Write(4, 3),
    ];
    for &k in &ks {
        al3.extend([
            Seek(3, k, 0),
            Seek(3, k, 1),
            Seek(3, k, 2),
            Pread(3, 9, k),
            Pwrite(3, 5, k),
        ]);
    }
    let n3 = al3.len();
    let d3 = if rep.thorough { 4 } else { 3 };
    rep.space("offsets", &vec![n3; d3], |ctx, d| {
        let mut ops = vec![Open(At::Abs, "f0", rw, 0)];
        ops.extend(d.iter().map(|&k| al3[k]));
        run_ops(ctx, 64, &ops)
    });
    // many descriptors
    let opens: Vec<u64> = (1..14).chain([40]).collect();
    rep.space("many", &[opens.len(), 16, 16], |ctx, d| {
        let n = opens[d[0]];
        let pick = |k: usize| 3 + k as u64 * n.max(16) / 16;
        let mut ops = vec![Open(At::Abs, "f0", rw, 0); n as usize];
        ops.extend([
            Close(pick(d[1])),
            Close(pick(d[2])),
            Open(At::Abs, "d/g", rw, 0),
            Open(At::Abs, "new", rw | cr, 0o600),
            Open(At::Abs, "f0", rw, 0),
        ]);
        for g in [3, 2 + n, 3 + n, 4 + n, 5 + n, 6 + n, pick(d[1]), pick(d[2])] {
            ops.extend([Write(g, 1), Seek(g, 1, 0), Read(g, 4)]);
        }
        run_ops(ctx, 64, &ops)
    });
    // names: every byte, lengths, bytes after the terminator, places in memory; request blocks
    let mut names: Vec<Vec<u8>> = (1..=255u8)
        .filter(|b| ![b'/', b'.'].contains(b))
        .map(|b| vec![b])
        .collect();
    for k in (2..70).chain([100, 127, 128, 129, 200, 254, 255, 256, 257]) {
        names.push(pattern(k, 3).iter().map(|b| b'a' + b % 26).collect());
    }
    for k in [50usize, 500, 1000, 2000, 2040, 2041, 2042, 2050, 4000] {
        let mut v = b"./".repeat(k);
        v.extend(b"deep");
        names.push(v);
    }
    rep.space("names", &[names.len(), 3, 4, 3], |ctx, d| {
        let dir = Dir::new();
        let mut nm = names[d[0]].clone();
        let extra: &[u8] = [&b""[..], b"Z", b"tail/after"][d[1]];
        let rel = CString::new(nm.clone()).unwrap();
        nm.push(0);
        nm.extend(extra);
        let n = nm.len() as u64;
        let a = [NAME, 0x8000_0001, RAM_END - n, 0x9000_0000 - n / 2][d[2]];
        let block = [BLOCK, 0x8000_2000 - 32, RAM_END - 0x3000 - 64][d[3]];
        let r = guard(|| -> Result<(), String> {
            let mut emu = emulator(64, vec![]);
            let z = |n: u64, a: &[u64]| {
                let mut v = [0u64; 8];
                v[0] = n;
                v[1..1 + a.len()].copy_from_slice(a);
                v
            };
            let mut dn = dir.0.clone().into_bytes();
            dn.push(0);
            put(&mut emu, BUF, &dn);
            let dfl = (libc::O_RDONLY | libc::O_DIRECTORY) as u64;
            let cwd = -100i64 as u64;
            let got = request(&mut emu, &z(56, &[cwd, BUF, dn.len() as u64, dfl, 0]))?;
            if got != 3 {
                return Err(format!("open of the directory gives {got}"));
            }
            put(&mut emu, a, &nm);
            let fl = libc::O_RDWR | libc::O_CREAT | libc::O_EXCL;
            let hd = unsafe {
                libc::open(
                    CString::new(dir.0.clone()).unwrap().as_ptr(),
                    libc::O_RDONLY,
                )
            };
            // the same name through the host, and away again
            let h = Ref::err(unsafe { libc::openat(hd, rel.as_ptr(), fl, 0o600) } as i64);
            if h >= 0 {
                unsafe {
                    libc::close(h as i32);
                    libc::unlinkat(hd, rel.as_ptr(), 0);
                }
            }
            let want = if h < 0 { h } else { 4 };
            let got = request_at(&mut emu, block, &z(56, &[3, a, n, fl as u64, 0o600]))?;
            let mut s: libc::stat = unsafe { std::mem::zeroed() };
            let there = Ref::err(unsafe { libc::fstatat(hd, rel.as_ptr(), &mut s, 0) } as i64);
            let stat = request_at(&mut emu, block, &z(79, &[3, a, n, BUF, 0]))?;
            let sb = get(&mut emu, BUF, 128);
            unsafe { libc::close(hd) };
            for g in 0..5 {
                request(&mut emu, &z(57, &[g]))?;
            }
            if got != want {
                return Err(format!("open: spec {want}, carron {got}"));
            }
            if h >= 0 && there != 0 {
                return Err("the file has another name".into());
            }
            if stat != there || there == 0 && sb != stat_bytes(&s) {
                return Err(format!("stat: spec {there}, carron {stat}"));
            }
            Ok(())
        });
        ctx.step_done();
        ctx.trace_done();
        let at = |t: String| {
            let s = String::from_utf8_lossy(&names[d[0]]);
            format!(
                "name {s:?} ({} bytes) at {a:#x}, length {n}, request at {block:#x}\n{t}",
                s.len()
            )
        };
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(t)) => bad("names", at(t)),
            Err(p) => bad("syscall:abort", at(p)),
        }
    });
    // program arguments
    let long = "0123456789".repeat(1000);
    let lists: Vec<Vec<&str>> = vec![
        vec![],
        vec!["prog"],
        vec!["prog", "a"],
        vec!["prog", "", "b"],
        vec![
            "prog",
            "two words",
            "\u{e9}\u{4e2d}",
            "-x",
            "--",
            "=",
            "\\n",
        ],
        vec!["pk", "prog", "abcdefgh", "1234567"],
        vec![
            "prog", "x", "x", "x", "x", "x", "x", "x", "x", "x", "x", "x",
        ],
        vec!["argument"; 33],
        vec!["a"; 300],
        vec!["prog", &long, "end"],
    ];
    rep.space("arguments", &[2, lists.len(), 6, 3], |ctx, d| {
        let args: Vec<String> = lists[d[1]].iter().map(|s| s.to_string()).collect();
        let strings: usize = args.iter().map(|a| a.len() + 1).sum();
        let total = ((args.len() + 3) * 8 + strings) as u64;
        let limit = match d[2] {
            0 => total,
            1 => total - 1,
            2 => total + 1,
            3 => 0,
            4 => 4096,
            _ => u64::MAX >> 1,
        };
        let dst = [BUF, RAM_END - total, RAM_END - total + 1][d[3]];
        let r = guard(|| -> Result<(), String> {
            let mut emu = emulator([32, 64][d[0]], args.clone());
            let n = total.min(RAM_END - dst);
            put(&mut emu, dst - 4, &vec![0xcc; n as usize + 4]);
            let got = request(&mut emu, &[2011, dst, limit, 0, 0, 0, 0, 0])?;
            let mem = get(&mut emu, dst, n);
            let fits = limit >= total;
            if !fits || d[3] == 2 {
                let want = match (fits, d[3]) {
                    (false, 2) => vec![-12, -14],
                    (false, _) => vec![-12],
                    _ => vec![-14],
                };
                if !want.contains(&got) || mem.iter().any(|&b| b != 0xcc) {
                    return Err(format!(
                        "limit {limit} of {total}: spec {want:?} and nothing written, carron {got}"
                    ));
                }
                return Ok(());
            }
            if got != 0 {
                return Err(format!("limit {limit} of {total}: carron {got}"));
            }
            let q = |k: usize| u64::from_le_bytes(mem[8 * k..8 * k + 8].try_into().unwrap());
            let mut want = args.len() as u64;
            if q(0) != want {
                return Err(format!("argc: spec {want}, carron {}", q(0)));
            }
            for (k, a) in args.iter().enumerate() {
                let p = q(k + 1);
                if p < dst || p - dst + a.len() as u64 + 1 > n {
                    return Err(format!("argv[{k}] points to {p:#x}"));
                }
                let o = (p - dst) as usize;
                if &mem[o..o + a.len()] != a.as_bytes() || mem[o + a.len()] != 0 {
                    return Err(format!(
                        "argv[{k}]: spec {a:?}, carron {:?}",
                        String::from_utf8_lossy(&mem[o..])
                    ));
                }
            }
            want = q(args.len() + 1) | q(args.len() + 2);
            if want != 0 {
                return Err("argv or envp is not terminated".into());
            }
            if get(&mut emu, dst - 4, 4) != [0xcc; 4] {
                return Err("bytes before the buffer changed".into());
            }
            for g in 0..3 {
                request(&mut emu, &[57, g, 0, 0, 0, 0, 0, 0])?;
            }
            Ok(())
        });
        ctx.step_done();
        ctx.trace_done();
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(t)) => bad("arguments", format!("{args:?}: {t}")),
            Err(p) => bad("syscall:abort", p),
        }
    });
    rep.sample("open f0 -> 3, open new -> 4, close 3, open d/g -> 3 (lowest free), read 4 -> 0, close 4, write 4 -> -9".into());
}
