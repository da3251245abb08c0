//! Whole-emulator runs: assemble a guest program, run the real command line program on it.
#![allow(dead_code)]
use crate::asm::*;
use crate::elf::Elf;
use std::collections::HashMap;
use std::io::{Read, Write};
use std::os::fd::AsRawFd;
use std::os::unix::process::ExitStatusExt;
use std::process::{Command, Stdio};
use std::time::{Duration, Instant};

pub const BASE: u64 = 0x8000_0000;
pub const TOHOST: u64 = 0x8000_f000;
pub const FROMHOST: u64 = 0x8000_f040;
pub const UART: u64 = 0x1000_0000;

/// A tiny two-pass assembler.
pub struct Asm {
    pub xlen: u32,
    pub base: u64,
    pub code: Vec<u8>,
    labels: HashMap<String, usize>,
    fix: Vec<(usize, String, Option<(u32, u32, u32)>, u32)>,
    n: usize,
}
impl Asm {
    pub fn new(xlen: u32) -> Asm {
        Asm {
            xlen,
            base: BASE,
            code: vec![],
            labels: HashMap::new(),
            fix: vec![],
            n: 0,
        }
    }
    pub fn at(mut self, base: u64) -> Asm {
        self.base = base;
        self
    }
    pub fn w(&mut self, w: u32) -> &mut Asm {
        self.code.extend_from_slice(&w.to_le_bytes());
        self
    }
    pub fn h(&mut self, w: u16) -> &mut Asm {
        self.code.extend_from_slice(&w.to_le_bytes());
        self
    }
    pub fn ws(&mut self, ws: &[u32]) -> &mut Asm {
        for w in ws {
            self.w(*w);
        }
        self
    }
    pub fn here(&self) -> u64 {
        self.base + self.code.len() as u64
    }
    pub fn label(&mut self, l: &str) -> &mut Asm {
        assert!(self.labels.insert(l.to_string(), self.code.len()).is_none());
        self
    }
    pub fn fresh(&mut self) -> String {
        self.n += 1;
        format!(".{}", self.n)
    }
    pub fn addr(&self, l: &str) -> u64 {
        self.base + self.labels[l] as u64
    }
    pub fn br(&mut self, f3: u32, rs1: u32, rs2: u32, l: &str) -> &mut Asm {
        self.fix
            .push((self.code.len(), l.to_string(), Some((f3, rs1, rs2)), 0));
        self.w(0)
    }
    pub fn jal(&mut self, rd: u32, l: &str) -> &mut Asm {
        self.fix.push((self.code.len(), l.to_string(), None, rd));
        self.w(0)
    }
    pub fn align(&mut self, n: usize) -> &mut Asm {
        while self.code.len() % n != 0 {
            self.code.push(0);
        }
        self
    }
    /// load an address or constant; clobbers nothing else
    pub fn li(&mut self, rd: u32, v: u64) -> &mut Asm {
        let v = if self.xlen == 32 {
            v as u32 as i32 as i64
        } else {
            v as i64
        };
        if v == (v as i32) as i64 {
            let lo = (v << 52 >> 52) as i32;
            let hi = ((v - lo as i64) >> 12) as u32 & 0xfffff;
            if hi == 0 {
                return self.w(addi(rd, 0, lo));
            }
            self.w(lui(rd, hi));
            if lo != 0 {
                // addiw on RV64 so that 0x7fff_f800..0x7fff_ffff come out right
                self.w(i(lo, rd, 0, rd, if self.xlen == 64 { 0x1b } else { 0x13 }));
            }
            return self;
        }
        let lo = v << 52 >> 52;
        let hi = (v.wrapping_sub(lo)) >> 12;
        self.li(rd, hi as u64);
        self.w(i(12, rd, 1, rd, 0x13));
        if lo != 0 {
            self.w(addi(rd, rd, lo as i32));
        }
        self
    }
    /// store register `src` (xlen wide) at `addr`, clobbers `tmp`
    pub fn st(&mut self, src: u32, addr: u64, tmp: u32) -> &mut Asm {
        let f3 = if self.xlen == 32 { 2 } else { 3 };
        self.li(tmp, addr);
        self.w(store(f3, src, tmp, 0))
    }
    pub fn ld(&mut self, rd: u32, addr: u64) -> &mut Asm {
        let f3 = if self.xlen == 32 { 2 } else { 3 };
        self.li(rd, addr);
        self.w(load(f3, rd, rd, 0))
    }
    /// end the emulation by writing register `src` (an odd value) to tohost
    pub fn exit_reg(&mut self, src: u32) -> &mut Asm {
        self.st(src, TOHOST, 31);
        let l = self.fresh();
        self.label(&l);
        self.jal(0, &l)
    }
    pub fn exit(&mut self, v: u64) -> &mut Asm {
        self.li(30, v);
        self.exit_reg(30)
    }
    /// print a byte constant on the serial port, clobbers x30, x31
    pub fn putc(&mut self, c: u8) -> &mut Asm {
        self.li(31, UART);
        self.w(addi(30, 0, c as i32));
        self.w(store(0, 30, 31, 0))
    }
    /// print the bytes of a register, least significant first (the register is kept)
    pub fn put_reg(&mut self, r: u32) -> &mut Asm {
        self.li(31, UART);
        for k in 0..self.xlen as i32 / 8 {
            self.w(i(8 * k, r, 5, 30, 0x13));
            self.w(store(0, 30, 31, 0));
        }
        self
    }
    pub fn build(mut self) -> Vec<u8> {
        for (at, l, br, rd) in std::mem::take(&mut self.fix) {
            let off = self.labels[&l] as i32 - at as i32;
            let w = match br {
                Some((f3, rs1, rs2)) => b(off, rs2, rs1, f3),
                None => j(off, rd),
            };
            self.code[at..at + 4].copy_from_slice(&w.to_le_bytes());
        }
        self.code
    }
    pub fn elf(self) -> Vec<u8> {
        let (x, base) = (self.xlen, self.base);
        let code = self.build();
        let n = code.len() as u64;
        Elf::new(x)
            .seg(base, code, n)
            .sym("tohost", TOHOST)
            .sym("fromhost", FROMHOST)
            .build()
    }
}

pub struct Out {
    pub code: Option<i32>,
    pub signal: Option<i32>,
    pub timed_out: bool,
    pub out: Vec<u8>,
    pub err: String,
}

pub struct Dir(pub String);
impl Dir {
    pub fn new() -> Dir {
        let p = crate::imp::scratch_path("dir");
        std::fs::create_dir(&p).expect("scratch dir");
        Dir(p)
    }
    pub fn put(&self, name: &str, data: &[u8]) -> String {
        let p = format!("{}/{name}", self.0);
        std::fs::write(&p, data).expect("scratch file");
        p
    }
}
impl Drop for Dir {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn exe(name: &str) -> std::path::PathBuf {
    std::env::current_exe().unwrap().with_file_name(name)
}

/// Run the command line program in `dir`. `input`: chunks, each sent once that many bytes
/// have appeared on standard output after `mark`; standard input is closed after the last.
pub fn run(dir: &Dir, args: &[&str], mark: &[u8], input: &[(usize, Vec<u8>)], limit: f64) -> Out {
    run_until(dir, args, mark, input, b"", limit)
}

/// `until`: the program is stopped (and counts as timed out) once its output ends in these bytes.
pub fn run_until(
    dir: &Dir,
    args: &[&str],
    mark: &[u8],
    input: &[(usize, Vec<u8>)],
    until: &[u8],
    limit: f64,
) -> Out {
    let (bin, env) = ("carron-cli", &[]);
    run_bin(dir, bin, args, env, mark, input, until, limit)
}

pub fn run_env(dir: &Dir, bin: &str, args: &[&str], env: &[(&str, &str)], limit: f64) -> Out {
    run_bin(dir, bin, args, env, b"", &[], b"", limit)
}

#[allow(clippy::too_many_arguments)]
fn run_bin(
    dir: &Dir,
    bin: &str,
    args: &[&str],
    env: &[(&str, &str)],
    mark: &[u8],
    input: &[(usize, Vec<u8>)],
    until: &[u8],
    limit: f64,
) -> Out {
    let errp = format!("{}/.stderr", dir.0);
    let err = std::fs::File::create(&errp).unwrap();
    let mut child = Command::new(exe(bin))
        .args(args)
        .current_dir(&dir.0)
        .stdin(Stdio::piped())
        .stdout(Stdio::piped())
        .stderr(Stdio::from(err))
        .env_clear()
        .envs(env.iter().copied())
        .spawn()
        .expect("start carron-cli");
    let mut stdin = child.stdin.take();
    let mut stdout = child.stdout.take().unwrap();
    let t0 = Instant::now();
    let mut out = vec![];
    let mut next = 0;
    let mut start: Option<usize> = None;
    let mut timed_out = false;
    loop {
        if start.is_none() && !mark.is_empty() {
            start = out
                .windows(mark.len())
                .position(|w| w == mark)
                .map(|p| p + mark.len());
        }
        let seen = if mark.is_empty() {
            out.len()
        } else {
            start.map(|s| out.len() - s).unwrap_or(0)
        };
        while next < input.len() && (start.is_some() || input[next].0 == 0) && seen >= input[next].0
        {
            if let Some(s) = &mut stdin {
                let _ = s.write_all(&input[next].1);
                let _ = s.flush();
            }
            next += 1;
        }
        if next == input.len() {
            stdin = None;
        }
        let mut p = libc::pollfd {
            fd: stdout.as_raw_fd(),
            events: libc::POLLIN,
            revents: 0,
        };
        let n = unsafe { libc::poll(&mut p, 1, 50) };
        if n > 0 {
            let mut buf = [0u8; 65536];
            match stdout.read(&mut buf) {
                Ok(0) | Err(_) => break,
                Ok(k) => out.extend_from_slice(&buf[..k]),
            }
        }
        if t0.elapsed() > Duration::from_secs_f64(limit)
            || out.len() > 1 << 28
            || (!until.is_empty() && out.ends_with(until))
        {
            timed_out = true;
            let _ = child.kill();
            break;
        }
    }
    // the program may close its output and go on
    let st = loop {
        match child.try_wait().unwrap() {
            Some(s) => break s,
            None if t0.elapsed() > Duration::from_secs_f64(limit) => {
                timed_out = true;
                let _ = child.kill();
                break child.wait().unwrap();
            }
            None => std::thread::sleep(Duration::from_millis(1)),
        }
    };
    let err = std::fs::read(&errp).unwrap_or_default();
    let err = String::from_utf8_lossy(&err).into_owned();
    Out {
        code: st.code(),
        signal: st.signal(),
        timed_out,
        out,
        err,
    }
}

impl Out {
    pub fn after(&self, mark: &[u8]) -> Option<&[u8]> {
        self.out
            .windows(mark.len())
            .position(|w| w == mark)
            .map(|p| &self.out[p + mark.len()..])
    }
    pub fn show(&self) -> String {
        let tail =
            |s: &[u8]| String::from_utf8_lossy(&s[s.len().saturating_sub(300)..]).into_owned();
        format!(
            "exit code {:?} signal {:?} timed out {} output ({} bytes) ...{:?} stderr {:?}",
            self.code,
            self.signal,
            self.timed_out,
            self.out.len(),
            tail(&self.out),
            tail(self.err.as_bytes())
        )
    }
}
