//! P21: the emulation loop, end to end. A reference machine (reference hart, RAM, CLINT, console,
//! host interface, batches of 5000 instructions) runs each program of a bounded family; the real
//! command line program runs it too, and output, files and exit status have to be the same.
use crate::asm::*;
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::e2e::{run as launch, Asm, Dir, BASE, FROMHOST, TOHOST, UART};
use crate::model::{Hart, Mem, Outcome};

const RAMSZ: usize = 0x2_0000;
const BLOCK: u64 = 0x8000_e000;
const NAMEBUF: u64 = 0x8000_e100;
const REPORT: u64 = 0x8000_d000;
const DATA: u64 = 0x8000_8000;
const ROOT: u64 = 0x8001_0000;
const CLINT: u64 = 0x0200_0000;
/// surely past the end of RAM
const HIGH: u64 = 0x1_0000_0000;
const MARK: &[u8] = b"@@";

/// The reference machine around the reference hart.
pub(crate) struct Mach {
    ram: Vec<u8>,
    pub mtime: u64,
    pub cmp: u64,
    pub msip: u64,
    out: Vec<u8>,
    file: Vec<u8>,
    opened: bool,
}
impl Mach {
    pub fn new(image: &[u8]) -> Mach {
        let mut m = Mach {
            ram: vec![0; RAMSZ],
            mtime: 0,
            cmp: u64::MAX,
            msip: 0,
            out: vec![],
            file: vec![],
            opened: false,
        };
        m.ram[..image.len()].copy_from_slice(image);
        m
    }
    pub fn get(&self, pa: u64, n: u64) -> u64 {
        let o = (pa - BASE) as usize;
        (0..n as usize).fold(0, |v, k| v | (self.ram[o + k] as u64) << (8 * k))
    }
    fn put(&mut self, pa: u64, n: u64, v: u64) {
        let o = (pa - BASE) as usize;
        for k in 0..n as usize {
            self.ram[o + k] = (v >> (8 * k)) as u8;
        }
    }
    fn is_ram(pa: u64, n: u64) -> bool {
        pa >= BASE && pa + n <= BASE + RAMSZ as u64
    }
}
impl Mem for Mach {
    fn load(&mut self, pa: u64, n: u64) -> Result<u64, ()> {
        if Mach::is_ram(pa, n) {
            return Ok(self.get(pa, n));
        }
        let (t, c) = (self.mtime, self.cmp);
        let half = |v: u64, k: u64| {
            if n == 8 {
                v
            } else {
                v >> (8 * k) & 0xffff_ffff
            }
        };
        match pa {
            _ if pa == CLINT => Ok(self.msip),
            _ if pa == CLINT + 0xbff8 || pa == CLINT + 0xbffc => Ok(half(t, pa & 4)),
            _ if pa == CLINT + 0x4000 || pa == CLINT + 0x4004 => Ok(half(c, pa & 4)),
            _ if pa == UART + 5 && n == 1 => Ok(0x60),
            _ if (UART..UART + 0x100).contains(&pa) => panic!("program reads console register"),
            _ if pa < 0x1000_0100 || (BASE..HIGH).contains(&pa) => {
                panic!("program loads from {pa:#x}")
            }
            _ => Err(()),
        }
    }
    fn store(&mut self, pa: u64, n: u64, v: u64) -> Result<(), ()> {
        if Mach::is_ram(pa, n) {
            self.put(pa, n, v);
            return Ok(());
        }
        match pa {
            _ if pa == CLINT => self.msip = v & 1,
            _ if pa == CLINT + 0x4000 && n == 8 => self.cmp = v,
            _ if pa == CLINT + 0x4000 => self.cmp = self.cmp >> 32 << 32 | v & 0xffff_ffff,
            _ if pa == CLINT + 0x4004 => self.cmp = self.cmp << 32 >> 32 | v << 32,
            _ if pa == UART && n == 1 => self.out.push(v as u8),
            _ if pa < 0x1000_0100 || (BASE..HIGH).contains(&pa) => {
                panic!("program stores to {pa:#x}")
            }
            _ => return Err(()),
        }
        Ok(())
    }
}

struct Ran {
    out: Vec<u8>,
    file: Vec<u8>,
    status: u8,
}

/// Run the image on the reference machine. `lead`: instructions executed before the image.
fn reference(cx: &mut Ctx, xlen: u32, image: &[u8], lead: u64) -> Ran {
    let mut h = Hart::new(xlen);
    h.pc = BASE;
    let mut m = Mach::new(image);
    let mut n = lead;
    loop {
        h.mip = (h.mip & 2) | m.msip << 3 | if m.mtime >= m.cmp { 0xa0 } else { 0 };
        h.time = m.mtime;
        match h.step(&mut m) {
            Outcome::Retired | Outcome::Trapped(_) => {}
            o => panic!("program leaves the specified area: {o:?} at {:#x}", h.pc),
        }
        cx.step_done();
        let th = m.get(TOHOST, 4);
        if th != 0 {
            let th = m.get(TOHOST, 8);
            m.put(TOHOST, 8, 0);
            if th & 1 == 1 {
                return Ran {
                    out: m.out,
                    file: m.file,
                    status: th as u8,
                };
            }
            let a: Vec<u64> = (0..8).map(|k| m.get(th + 8 * k, 8)).collect();
            let buf =
                |m: &Mach| -> Vec<u8> { (0..a[3]).map(|k| m.get(a[2] + k, 1) as u8).collect() };
            let r = match (a[0], a[1]) {
                (64, 1) => {
                    let b = buf(&m);
                    m.out.extend(b);
                    a[3]
                }
                (64, 3) if m.opened => {
                    let b = buf(&m);
                    m.file.extend(b);
                    a[3]
                }
                (64, _) => -9i64 as u64,
                (56, _) => {
                    m.opened = true;
                    3
                }
                (93, _) => {
                    return Ran {
                        out: m.out,
                        file: m.file,
                        status: a[1] as u8,
                    }
                }
                _ => -38i64 as u64,
            };
            m.put(th, 8, r);
            m.put(FROMHOST, 8, 1);
        }
        n += 1;
        if n % 5000 == 0 {
            m.mtime += 50;
            cx.state(&(&h, m.mtime, m.out.len()));
        }
        assert!(n < 4_000_000, "program does not end");
    }
}

// ------------------------------------------------------------------ program parts

const S0: u32 = 8; // checksum
const S1: u32 = 9; // counter
const S2: u32 = 18; // interval
const S3: u32 = 19; // interrupts still to take

pub(crate) trait Parts {
    fn fold(&mut self, r: u32) -> &mut Self;
    fn sys(&mut self, num: u64, a: [Arg; 5]) -> &mut Self;
    fn text(&mut self, at: u64, s: &[u8]) -> &mut Self;
    fn next_timer(&mut self) -> &mut Self;
}
#[derive(Clone, Copy)]
pub(crate) enum Arg {
    V(u64),
    R(u32),
}
use Arg::*;
impl Parts for Asm {
    /// mix a register into the checksum (clobbers x29)
    fn fold(&mut self, r: u32) -> &mut Self {
        self.w(i(5, S0, 1, 29, 0x13)); // slli
        self.w(0x0000_0033 | S0 << 7 | S0 << 15 | 29 << 20); // add s0, s0, x29
        self.w(0x0000_4033 | S0 << 7 | S0 << 15 | r << 20) // xor s0, s0, r
    }
    /// a proxied system call; clobbers x28..x31, the result is left in the block
    fn sys(&mut self, num: u64, a: [Arg; 5]) -> &mut Self {
        let all = [V(num), a[0], a[1], a[2], a[3], a[4]];
        for (k, v) in all.iter().enumerate() {
            self.li(31, BLOCK + 8 * k as u64);
            if self.xlen == 64 {
                let r = match *v {
                    V(x) => {
                        self.li(28, x);
                        28
                    }
                    R(x) => x,
                };
                self.w(store(3, r, 31, 0));
                continue;
            }
            match *v {
                V(x) => {
                    self.li(28, x);
                    self.w(store(2, 28, 31, 0));
                    self.li(28, x >> 32);
                }
                R(x) => {
                    self.w(store(2, x, 31, 0));
                    self.w(i(31 | 0x400, x, 5, 28, 0x13)); // srai
                }
            }
            self.w(store(2, 28, 31, 4));
        }
        self.li(28, BLOCK);
        self.st(28, TOHOST, 31);
        let l = self.fresh();
        self.li(31, FROMHOST);
        self.label(&l);
        self.w(load(2, 28, 31, 0));
        self.br(0, 28, 0, &l);
        self.w(store(2, 0, 31, 0));
        self.w(store(2, 0, 31, 4))
    }
    /// put bytes into memory (word stores)
    fn text(&mut self, at: u64, s: &[u8]) -> &mut Self {
        for (k, c) in s.chunks(4).enumerate() {
            let mut v = [0u8; 4];
            v[..c.len()].copy_from_slice(c);
            self.li(30, u32::from_le_bytes(v) as i32 as u64);
            self.li(31, at + 4 * k as u64);
            self.w(store(2, 30, 31, 0));
        }
        self
    }
    /// mtimecmp = time + s2 (clobbers x28..x31)
    fn next_timer(&mut self) -> &mut Self {
        self.li(31, CLINT + 0xb000);
        self.w(addi(31, 31, 0x7f8));
        self.w(addi(31, 31, 0x7f8)).w(addi(31, 31, 8)); // 0xbff8
        if self.xlen == 64 {
            self.w(load(3, 28, 31, 0));
            self.w(r(0, S2, 28, 0, 28, 0x33));
            self.li(31, CLINT + 0x4000);
            self.w(store(3, 28, 31, 0))
        } else {
            self.w(load(2, 28, 31, 0));
            self.w(r(0, S2, 28, 0, 28, 0x33));
            self.li(31, CLINT + 0x4000);
            self.w(store(2, 28, 31, 0));
            self.w(store(2, 0, 31, 4))
        }
    }
}
fn csrr(rd: u32, n: u32) -> u32 {
    csr(2, rd, n, 0)
}
fn csrw(n: u32, rs: u32) -> u32 {
    csr(1, 0, n, rs)
}

pub const BODIES: &[&str] = &[
    "time",
    "traps",
    "timer-m",
    "timer-u",
    "timer-s",
    "memory",
    "software-interrupt",
    "lr-sc",
    "console",
    "system-calls",
    "paging",
    "self-modifying",
    "compressed",
    "jumps",
];

struct Prog {
    xlen: u32,
    body: usize,
    pad: usize,
    /// start with a 16-bit instruction
    odd: bool,
    /// report into a file instead of standard output
    to_file: bool,
    /// iterations
    n: u64,
}

/// A machine-mode handler that mixes each trap into the checksum. Exceptions are skipped,
/// timer interrupts re-arm, software interrupts are cleared.
fn handler(a: &mut Asm) {
    a.align(4);
    a.label("handler");
    a.w(csrr(5, 0x342));
    a.fold(5);
    a.w(csrr(6, 0x341));
    a.fold(6);
    a.w(csrr(7, 0x343));
    a.fold(7);
    a.w(csrr(7, 0xc01));
    a.fold(7);
    a.br(4, 5, 0, "h.int"); // blt cause, 0
                            // fault on the window page: map it and retry
    a.w(addi(28, 0, 13));
    a.br(0, 5, 28, "h.map");
    a.w(addi(28, 0, 8));
    a.br(0, 5, 28, "h.ecall");
    a.w(addi(28, 0, 9));
    a.br(0, 5, 28, "h.ecall");
    a.label("h.skip");
    // all instructions that trap on purpose have four bytes
    a.w(addi(6, 6, 4));
    a.w(csrw(0x341, 6));
    a.w(MRET);
    // ecall from below: x17 = 1 re-arms the timer, 2 unmaps the window, 3 ends
    a.label("h.ecall");
    a.w(addi(28, 0, 1));
    a.br(0, 17, 28, "h.arm");
    a.w(addi(28, 0, 2));
    a.br(0, 17, 28, "h.unmap");
    a.w(addi(28, 0, 3));
    a.br(1, 17, 28, "h.skip");
    a.jal(0, "report");
    a.label("h.arm");
    a.next_timer();
    a.jal(0, "h.skip");
    a.label("h.int");
    a.w(i(1, 5, 1, 5, 0x13)); // slli 1
    a.w(i(1, 5, 5, 5, 0x13)); // srli 1
    a.w(addi(28, 0, 3));
    a.br(0, 5, 28, "h.soft");
    a.fold(S1);
    a.w(addi(S3, S3, -1));
    a.br(0, S3, 0, "report-stop");
    a.next_timer();
    a.w(MRET);
    a.label("h.soft");
    a.li(31, CLINT);
    a.w(store(2, 0, 31, 0));
    a.w(MRET);
    let (pte, entry) = window(a.xlen);
    a.label("h.map");
    a.li(31, entry);
    a.li(28, pte);
    a.w(store(if a.xlen == 64 { 3 } else { 2 }, 28, 31, 0));
    a.w(SFENCE);
    a.w(MRET);
    a.label("h.unmap");
    a.li(31, entry);
    a.w(store(if a.xlen == 64 { 3 } else { 2 }, 0, 31, 0));
    a.w(SFENCE);
    a.jal(0, "h.skip");
    a.label("report-stop");
    a.jal(0, "report");
}
/// page-table entry (value, address) of the second view of RAM
fn window(xlen: u32) -> (u64, u64) {
    let leaf = BASE >> 2 | 0xdf; // D A U X W R V
    if xlen == 32 {
        (leaf, ROOT + 4 * 0x100)
    } else {
        (leaf, ROOT + 8)
    }
}
/// enter mode `mpp` (0 or 1) at label `l`
fn enter(a: &mut Asm, mpp: u64, l: &str) {
    a.li(28, 0x1800);
    a.w(csr(3, 0, 0x300, 28));
    a.li(28, mpp << 11 | 0x80);
    a.w(csr(2, 0, 0x300, 28));
    pmp_all(a);
    la(a, 28, l);
    a.w(csrw(0x341, 28));
    a.w(MRET);
}
fn pmp_all(a: &mut Asm) {
    a.w(addi(28, 0, -1));
    a.w(csrw(0x3b0, 28));
    a.w(addi(28, 0, 0x1f));
    a.w(csrw(0x3a0, 28));
}
/// load a label's address: a call over it, then an offset from the return address
fn la(a: &mut Asm, rd: u32, l: &str) {
    // trap vectors have to be aligned
    let odd = a.here() % 4 == 2;
    if odd {
        a.h(0x0001);
    }
    let f = a.fresh();
    a.jal(rd, &f);
    a.jal(0, l);
    a.label(&f);
    if odd {
        a.h(0x0001);
    }
}

fn program(p: &Prog) -> Vec<u8> {
    let mut a = Asm::new(p.xlen);
    if p.odd {
        a.h(0x0001); // c.nop
    }
    a.putc(MARK[0]);
    a.putc(MARK[1]);
    if p.to_file {
        a.text(NAMEBUF, b"out.bin\0");
        // AT_FDCWD, name, length, O_WRONLY|O_CREAT|O_TRUNC, 0644
        a.sys(
            56,
            [V(-100i64 as u64), V(NAMEBUF), V(8), V(0o1101), V(0o644)],
        );
    }
    a.li(S0, 0x1234);
    a.li(S1, 0);
    la(&mut a, 5, "handler-at");
    a.w(csrw(0x305, 5));
    for k in 0..p.pad {
        a.w(addi(20 + (k % 4) as u32, 0, k as i32));
    }
    let n = p.n;
    a.li(20, n);
    match BODIES[p.body] {
        "time" => {
            a.label("loop");
            a.w(csrr(5, 0xc01));
            a.fold(5);
            if p.xlen == 32 {
                a.w(csrr(5, 0xc81));
                a.fold(5);
            }
            a.w(addi(S1, S1, 1));
            a.br(1, S1, 20, "loop");
        }
        "traps" => {
            a.label("loop");
            a.w(ECALL);
            a.w(0xffff_ffff);
            a.w(addi(S1, S1, 1));
            a.w(EBREAK);
            a.li(24, DATA + 1);
            a.w(load(2, 25, 24, 0)); // misaligned
            a.w(store(1, 25, 24, 0));
            a.w(csr(1, 0, 0xc01, 5)); // read-only
            a.li(24, 0x3000_0000);
            a.w(load(2, 25, 24, 4)); // nothing there
            a.w(store(2, 25, 24, 8));
            a.br(1, S1, 20, "loop");
        }
        "timer-m" => {
            a.li(S2, 30 + p.pad as u64 % 90);
            a.li(S3, 6);
            a.next_timer();
            a.li(5, 0x80);
            a.w(csr(2, 0, 0x304, 5));
            a.w(csr(6, 0, 0x300, 8));
            a.label("loop");
            a.w(addi(S1, S1, 1));
            a.w(i(3, S1, 4, 7, 0x13));
            a.w(i(9, S1, 7, 7, 0x13));
            a.jal(0, "loop");
        }
        "timer-u" => {
            a.li(S2, 40 + p.pad as u64 % 50);
            a.li(S3, 5);
            a.next_timer();
            a.li(5, 0x80);
            a.w(csr(2, 0, 0x304, 5));
            a.w(addi(5, 0, 7));
            a.w(csrw(0x306, 5));
            a.w(csrw(0x106, 5));
            enter(&mut a, 0, "loop");
            a.label("loop");
            a.w(addi(S1, S1, 1));
            a.w(addi(17, 0, 0));
            a.w(ECALL);
            a.w(csrr(7, 0xc01));
            a.fold(7);
            a.jal(0, "loop");
        }
        "timer-s" => {
            // supervisor timer interrupts go to the supervisor, which asks machine mode to re-arm
            a.li(S2, 40 + p.pad as u64 % 60);
            a.li(S3, 5);
            a.next_timer();
            a.li(5, 0x20);
            a.w(csrw(0x303, 5));
            a.w(csrw(0x304, 5));
            la(&mut a, 5, "s-handler-at");
            a.w(csrw(0x105, 5));
            a.w(csr(6, 0, 0x300, 2)); // SIE
            enter(&mut a, 1, "loop");
            a.label("loop");
            a.w(addi(S1, S1, 1));
            a.w(i(7, S1, 4, 7, 0x13));
            a.jal(0, "loop");
            a.label("s-handler-at");
            a.jal(0, "s-handler");
            a.label("s-handler");
            a.w(csrr(5, 0x142));
            a.fold(5);
            a.w(csrr(5, 0x141));
            a.fold(5);
            a.w(csrr(5, 0x100));
            a.w(i(0x122, 5, 7, 5, 0x13)); // SPP, SPIE, SIE
            a.fold(5);
            a.fold(S1);
            a.w(addi(17, 0, 1));
            a.w(addi(S3, S3, -1));
            a.br(1, S3, 0, "s.go");
            a.w(addi(17, 0, 3));
            a.label("s.go");
            a.w(ECALL);
            a.w(SRET);
        }
        "memory" => {
            a.li(6, DATA);
            a.w(addi(7, 6, 0));
            a.label("loop");
            a.w(store(0, S1, 7, 3));
            a.w(store(1, S0, 7, 4));
            a.w(store(2, S0, 7, 8));
            a.w(load(0, 5, 7, 8));
            a.fold(5);
            a.w(load(5, 5, 7, 10));
            a.fold(5);
            a.w(load(2, 5, 7, 0));
            a.fold(5);
            if p.xlen == 64 {
                a.w(store(3, S0, 7, 16));
                a.w(load(6, 5, 7, 20));
                a.fold(5);
            }
            a.w(amo(0, 4, 5, 6, S1)); // amoadd
            a.fold(5);
            a.w(addi(7, 7, 8));
            a.w(i(0x3f, S1, 7, 5, 0x13));
            a.w(addi(S1, S1, 1));
            a.br(1, 5, 0, "m.on");
            a.w(addi(7, 6, 8));
            a.label("m.on");
            a.br(1, S1, 20, "loop");
        }
        "software-interrupt" => {
            a.w(addi(5, 0, 8));
            a.w(csr(2, 0, 0x304, 5));
            a.w(csr(6, 0, 0x300, 8));
            a.li(21, CLINT);
            a.w(addi(22, 0, 1));
            a.label("loop");
            a.w(addi(S1, S1, 1));
            a.w(store(2, 22, 21, 0));
            a.w(addi(S1, S1, 0)); // the interrupt is taken here
            a.fold(S1);
            a.br(1, S1, 20, "loop");
        }
        "lr-sc" => {
            // correct code retries, so the result does not depend on when a reservation is lost
            a.li(6, DATA);
            a.w(store(if p.xlen == 64 { 3 } else { 2 }, 0, 6, 0));
            let sz = p.xlen as u64 / 8;
            a.label("loop");
            a.label("retry");
            a.w(amo(2, sz, 5, 6, 0));
            a.w(addi(5, 5, 3));
            a.w(amo(3, sz, 7, 6, 5));
            a.br(1, 7, 0, "retry");
            a.w(addi(S1, S1, 1));
            a.br(1, S1, 20, "loop");
            a.w(load(if p.xlen == 64 { 3 } else { 2 }, 5, 6, 0));
            a.fold(5);
        }
        "console" => {
            a.li(6, UART);
            a.label("loop");
            a.w(load(0, 5, 6, 5));
            a.w(i(0x20, 5, 7, 5, 0x13));
            a.br(0, 5, 0, "loop");
            a.w(i(0x1f, S1, 7, 5, 0x13));
            a.w(addi(5, 5, 0x41));
            a.w(store(0, 5, 6, 0));
            a.w(addi(S1, S1, 1));
            a.br(1, S1, 20, "loop");
        }
        "system-calls" => {
            a.text(DATA, b"<abc>\n<defg>");
            a.li(6, UART);
            a.label("loop");
            a.w(i(7, S1, 7, 5, 0x13));
            a.sys(64, [V(1), V(DATA), R(5), V(0), V(0)]);
            a.w(addi(5, 0, 0x2e));
            a.w(store(0, 5, 6, 0));
            a.li(31, BLOCK);
            a.w(load(2, 7, 31, 0));
            a.fold(7);
            a.w(i(3, S1, 7, 5, 0x13));
            a.br(1, 5, 0, "no-bad");
            a.sys(64, [V(77), V(DATA), V(3), V(0), V(0)]);
            a.li(31, BLOCK);
            a.w(load(2, 7, 31, 0));
            a.fold(7);
            a.sys(999, [V(1), V(2), V(3), V(4), V(5)]);
            a.li(31, BLOCK);
            a.w(load(2, 7, 31, 0));
            a.fold(7);
            a.label("no-bad");
            a.w(addi(S1, S1, 1));
            a.br(1, S1, 20, "far");
            a.jal(0, "report");
            a.label("far");
            a.jal(0, "loop");
        }
        "paging" => {
            let (leaf, _) = window(p.xlen);
            let sz = p.xlen as u64 / 8;
            a.li(31, ROOT + sz * if p.xlen == 32 { 0x200 } else { 2 });
            a.li(28, leaf);
            a.w(store(if sz == 8 { 3 } else { 2 }, 28, 31, 0));
            a.li(
                28,
                if p.xlen == 32 { 1 << 31 } else { 8 << 60 } | ROOT >> 12,
            );
            a.w(csrw(0x180, 28));
            a.w(SFENCE);
            a.li(26, 0x4000_0000 + DATA - BASE);
            a.li(21, DATA);
            a.w(addi(17, 0, 2));
            enter(&mut a, 0, "loop");
            a.label("loop");
            a.w(addi(S1, S1, 1));
            a.w(store(2, S1, 21, 0));
            a.w(load(2, 5, 26, 0)); // through the second view, which may fault
            a.fold(5);
            a.w(i(7, S1, 7, 5, 0x13));
            a.br(1, 5, 0, "p.on");
            a.w(ECALL);
            a.label("p.on");
            a.br(1, S1, 20, "loop");
            a.w(addi(17, 0, 3));
            a.w(ECALL);
        }
        "self-modifying" => {
            la(&mut a, 6, "patch-at");
            a.li(21, addi(S0, S0, 1) as i32 as u64);
            a.li(22, 1 << 20);
            a.label("loop");
            a.w(r(0, 22, 21, 0, 21, 0x33)); // next immediate
            a.w(store(2, 21, 6, 0));
            a.w(0x0000_100f); // fence.i
            a.jal(1, "patch-at");
            a.w(addi(S1, S1, 1));
            a.br(1, S1, 20, "loop");
            a.jal(0, "sm.end");
            // the label's table entry and the patched instruction share this word
            a.label("patch-at");
            a.w(NOP);
            a.fold(S1);
            a.w(0x0000_8067); // ret
            a.label("sm.end");
        }
        "compressed" => {
            a.label("loop");
            a.h(0x0405); // c.addi s0, 1
            a.h(0x0412); // c.slli s0, 4
            a.fold(S0);
            a.h(0x0485); // c.addi s1, 1
            a.h(0x8426); // c.mv s0, s1
            a.h(0x942a + 0); // c.add s0, a0
            a.fold(S1);
            a.h(0x0001);
            a.br(1, S1, 20, "loop");
        }
        _ => {
            // jumps: calls, returns, taken and untaken branches
            a.label("loop");
            a.jal(1, "f1");
            a.w(addi(S1, S1, 1));
            a.br(4, S1, 0, "never");
            a.br(5, S1, 0, "j.on");
            a.label("never");
            a.w(addi(S0, S0, 99));
            a.label("j.on");
            a.br(1, S1, 20, "loop");
            a.jal(0, "report");
            a.label("f1");
            a.fold(1);
            a.w(addi(5, 1, 0));
            a.jal(1, "f2");
            a.w(i(0, 5, 0, 0, 0x67)); // jr x5
            a.label("f2");
            a.fold(1);
            a.w(i(0, 1, 0, 0, 0x67));
        }
    }
    if BODIES[p.body] != "timer-s" {
        a.jal(0, "report");
    }
    // the handler's address is taken through this jump
    a.align(4);
    a.label("handler-at");
    a.jal(0, "handler");
    handler(&mut a);
    a.label("report");
    a.w(csr(7, 0, 0x300, 8)); // interrupts off
    a.w(addi(21, S0, 0)).w(addi(22, S1, 0));
    if BODIES[p.body] == "lr-sc" {
        a.w(addi(23, 0, 0));
    } else {
        a.w(csrr(23, 0xc01));
    }
    let (f3, sz) = if p.xlen == 64 { (3, 8) } else { (2, 4) };
    a.li(31, REPORT);
    for k in 0..3 {
        a.w(store(f3, 21 + k, 31, sz * k as i32));
    }
    let fd = if p.to_file { 3 } else { 1 };
    a.sys(64, [V(fd), V(REPORT), V(3 * sz as u64), V(0), V(0)]);
    // both ways to end
    if p.pad % 2 == 0 {
        a.w(i(0xff, 21, 7, 5, 0x13));
        a.w(i(1, 5, 6, 5, 0x13));
        a.exit_reg(5);
    } else {
        a.w(i(0xff, 21, 7, 5, 0x13));
        a.sys(93, [R(5), V(0), V(0), V(0), V(0)]);
    }
    a.build()
}

fn iterations(body: usize, xlen: u32) -> u64 {
    match BODIES[body] {
        "traps" => 90,
        "system-calls" => {
            if xlen == 64 {
                150
            } else {
                170
            }
        }
        "memory" => 500,
        "software-interrupt" => 400,
        "paging" => 900,
        "console" => 1800,
        _ => 1500,
    }
}

pub(crate) fn image(xlen: u32, code: &[u8]) -> Vec<u8> {
    crate::elf::Elf::new(xlen)
        .seg(BASE, code.to_vec(), code.len() as u64)
        .sym("tohost", TOHOST)
        .sym("fromhost", FROMHOST)
        .build()
}

const LEVELS: &[Option<&str>] = &[
    None,
    Some("nolog"),
    Some("diff"),
    Some("info"),
    Some("debug"),
    Some("trace"),
];

fn one(cx: &mut Ctx, p: &Prog, lead: u64, level: Option<&str>) -> CaseResult {
    let code = program(p);
    assert!(code.len() < 0x8000, "program too long");
    let want = reference(cx, p.xlen, &code, lead);
    let dir = Dir::new();
    dir.put("prog", &image(p.xlen, &code));
    let lv = level.map(|l| format!("--loglv={l}"));
    let mut args = vec!["prog"];
    if let Some(l) = &lv {
        args.push(l);
    }
    let o = launch(&dir, &args, b"", &[], 60.0);
    let desc = format!(
        "RV{} program {:?}, {} leading instructions, 16-bit start {}, log level {level:?}",
        p.xlen, BODIES[p.body], p.pad, p.odd
    );
    if o.timed_out || o.signal.is_some() || o.code != Some(want.status as i32) {
        return bad(
            format!("status-{}", BODIES[p.body]),
            format!("{desc}\nwant exit status {}, got {}", want.status, o.show()),
        );
    }
    if p.to_file {
        let got = std::fs::read(format!("{}/out.bin", dir.0)).unwrap_or_default();
        if got != want.file {
            return bad(
                format!("file-{}", BODIES[p.body]),
                format!(
                    "{desc}\nreport (checksum, counter, time): want {:x?}, got {got:x?}",
                    want.file
                ),
            );
        }
    }
    // logging shares standard output
    if matches!(level, None | Some("nolog" | "diff")) {
        let got = o.after(MARK).map(|x| x.to_vec());
        let w = &want.out[MARK.len()..];
        if got.as_deref() != Some(w) {
            let g = got.unwrap_or_default();
            let at = g
                .iter()
                .zip(w)
                .position(|(a, b)| a != b)
                .unwrap_or(g.len().min(w.len()));
            return bad(
                format!("output-{}", BODIES[p.body]),
                format!(
                    "{desc}\noutput differs at byte {at}: want {} bytes ...{:x?}, got {} bytes ...{:x?}",
                    w.len(),
                    &w[at.saturating_sub(8)..(at + 24).min(w.len())],
                    g.len(),
                    &g[at.saturating_sub(8).min(g.len())..(at + 24).min(g.len())]
                ),
            );
        }
    }
    cx.trace_done();
    Ok(())
}

/// Every way to end with every status, after output of several lengths.
fn exits(cx: &mut Ctx, d: &[usize]) -> CaseResult {
    let xlen = if d[0] == 0 { 32 } else { 64 };
    let (v, way, high, len) = (d[1] as u64, d[2], d[3], d[4]);
    if way == 0 && v % 2 == 0 {
        return Ok(());
    }
    let v = v | match high {
        0 => 0,
        1 => 0x100,
        2 => 0xffff_ff00,
        _ => 0x1_2345_6700,
    };
    let v = if xlen == 32 { v & 0xffff_ffff } else { v };
    let n = [0usize, 1, 1023, 5000][len];
    let mut a = Asm::new(xlen);
    a.putc(b'@').putc(b'@');
    let mut want = vec![];
    if n > 0 {
        // half on the console, half by system call, no newline
        a.li(5, n as u64);
        a.li(6, UART);
        a.label("l");
        a.w(addi(7, 0, 0x55));
        a.w(store(0, 7, 6, 0));
        a.w(addi(5, 5, -1));
        a.br(1, 5, 0, "l");
        want.extend(vec![0x55; n]);
        a.text(DATA, b"end without newline");
        a.sys(64, [V(1), V(DATA), V(19), V(0), V(0)]);
        want.extend(b"end without newline");
        a.putc(b'!');
        want.push(b'!');
    }
    if way == 0 {
        a.exit(v);
    } else {
        // a 32-bit guest passes a sign-extended word
        a.sys(93, [V(v), V(0), V(0), V(0), V(0)]);
    }
    let dir = Dir::new();
    dir.put("prog", &image(xlen, &a.build()));
    let o = launch(&dir, &["prog"], b"", &[], 30.0);
    cx.step_done();
    cx.state(&d);
    let desc = format!(
        "RV{xlen}, {} {v:#x} after {n} bytes of output",
        if way == 0 {
            "tohost"
        } else {
            "exit system call with"
        }
    );
    if o.code != Some((v & 0xff) as i32) {
        return bad("exit-status", format!("{desc}\n{}", o.show()));
    }
    if o.after(MARK) != Some(&want[..]) {
        return bad(
            "exit-output",
            format!("{desc}\noutput is incomplete: {}", o.show()),
        );
    }
    cx.trace_done();
    Ok(())
}

/// Everything typed reaches the guest, in order, whatever the chunking and the guest's pace.
fn echo(cx: &mut Ctx, d: &[usize]) -> CaseResult {
    let xlen = if d[0] == 0 { 32 } else { 64 };
    let (pattern, delay, irq) = (d[1], [0u64, 300, 9000][d[2]], d[3]);
    let long: Vec<u8> = (0..150u8)
        .map(|k| if k % 50 == 49 { b'\n' } else { b'a' + k % 26 })
        .collect();
    let one: Vec<u8> = (0..100u8).map(|k| b'0' + k % 10).chain([b'\n']).collect();
    let bin: Vec<u8> = (0..=255u8).collect();
    let chunks: Vec<(usize, Vec<u8>)> = match pattern {
        0 => vec![(0, b"a\n".to_vec())],
        1 => vec![(0, b"no newline".to_vec())],
        2 => vec![
            (0, b"one\n".to_vec()),
            (4, b"two\n".to_vec()),
            (8, b"three".to_vec()),
        ],
        3 => vec![(0, b"\n\n\n".to_vec()), (3, b"x\n".to_vec())],
        4 => vec![(0, long)],
        5 => vec![(0, one)],
        6 => vec![(0, bin)],
        7 => vec![(0, b"first\nsecond\nthird\n".to_vec())],
        _ => vec![
            (0, b"split ".to_vec()),
            (0, b"line\n".to_vec()),
            (11, vec![0, 0xff, 0x0a]),
        ],
    };
    let all: Vec<u8> = chunks.iter().flat_map(|c| c.1.clone()).collect();
    let mut a = Asm::new(xlen);
    a.putc(b'@').putc(b'@');
    a.li(6, UART);
    a.li(9, all.len() as u64);
    if irq == 1 {
        // received-data interrupt through the PLIC, wait with wfi
        a.li(7, 0x0c00_0004);
        a.w(addi(5, 0, 1));
        a.w(store(2, 5, 7, 0));
        a.li(7, 0x0c00_2000);
        a.w(addi(5, 0, 2));
        a.w(store(2, 5, 7, 0));
        a.li(7, 0x0c20_0000);
        a.w(store(2, 0, 7, 0));
        a.w(addi(5, 0, 1));
        a.w(store(0, 5, 6, 1));
        la(&mut a, 5, "h-at");
        a.w(csrw(0x305, 5));
        a.li(5, 0x800);
        a.w(csr(2, 0, 0x304, 5));
        a.w(csr(6, 0, 0x300, 8));
        a.label("wait");
        a.w(WFI);
        a.jal(0, "wait");
        a.align(4);
        a.label("h-at");
        a.jal(0, "h");
        a.label("h");
        a.li(7, 0x0c20_0004);
        a.w(load(2, 21, 7, 0)); // claim
        a.w(addi(5, 0, 1));
        a.br(1, 21, 5, "wrong");
        a.jal(0, "drain");
        a.label("done-one");
        a.li(7, 0x0c20_0004);
        a.w(store(2, 21, 7, 0));
        a.w(MRET);
        a.label("wrong");
        a.exit(99);
    }
    a.label("drain");
    a.w(load(0, 5, 6, 5));
    a.w(i(1, 5, 7, 5, 0x13));
    a.br(0, 5, 0, if irq == 1 { "done-one-far" } else { "drain" });
    a.w(load(4, 7, 6, 0));
    a.w(store(0, 7, 6, 0));
    if delay > 0 {
        a.li(5, delay);
        a.label("d");
        a.w(addi(5, 5, -1));
        a.br(1, 5, 0, "d");
    }
    a.w(addi(9, 9, -1));
    a.br(0, 9, 0, "end");
    a.jal(0, "drain");
    if irq == 1 {
        a.label("done-one-far");
        a.jal(0, "done-one");
    }
    a.label("end");
    a.exit(5);
    let dir = Dir::new();
    dir.put("prog", &image(xlen, &a.build()));
    let o = launch(&dir, &["prog"], MARK, &chunks, 60.0);
    cx.step_done();
    cx.state(&d);
    let desc = format!(
        "RV{xlen}, input {chunks:?}, {} between reads, {}",
        delay,
        if irq == 1 {
            "interrupt driven"
        } else {
            "polling"
        }
    );
    if o.code != Some(5) || o.after(MARK) != Some(&all[..]) {
        return bad(
            "echo",
            format!("{desc}\nwant the same bytes back; {}", o.show()),
        );
    }
    cx.trace_done();
    Ok(())
}

/// instructions from reset to the image
pub(crate) fn lead(xlen: u32) -> u64 {
    let imp = crate::imp::Imp::new(xlen);
    let mut cpu = imp.cpu;
    for n in 0..40 {
        if cpu.pc() & 0xffff_ffff == BASE {
            return n;
        }
        let _ = crate::imp::guard(|| cpu.exec_one_cycle().is_ok());
    }
    0
}

/// Without both host words there is no host channel: the words are plain memory.
fn channel(cx: &mut Ctx, d: &[usize]) -> CaseResult {
    let xlen = 32 + 32 * d[0] as u32;
    let which = d[1];
    let v = [1u64, 0xf1, DATA, 0xffff_ffff][d[2]];
    let w = if xlen == 32 { 2 } else { 3 };
    let mut a = Asm::new(xlen);
    a.putc(b'@').putc(b'@');
    // a request to write three bytes to standard output
    for (k, x) in [64u64, 1, DATA + 0x80, 3, 0, 0, 0, 0].iter().enumerate() {
        a.li(5, *x);
        a.st(5, DATA + 8 * k as u64, 6);
    }
    a.li(5, 0x0041_4141);
    a.st(5, DATA + 0x80, 6);
    a.li(8, v);
    a.st(8, TOHOST, 6);
    a.li(9, 77);
    a.st(9, FROMHOST, 6);
    a.li(5, 6000);
    a.label("l");
    a.w(addi(5, 5, -1));
    a.br(1, 5, 0, "l");
    a.li(6, TOHOST);
    a.w(load(w, 7, 6, 0));
    a.br(1, 7, 8, "no");
    a.li(6, FROMHOST);
    a.w(load(w, 7, 6, 0));
    a.br(1, 7, 9, "no");
    for c in b"untouched." {
        a.putc(*c);
    }
    a.label("end");
    a.jal(0, "end");
    a.label("no");
    for c in b"changed." {
        a.putc(*c);
    }
    a.jal(0, "end");
    let code = a.build();
    let n = code.len() as u64;
    let mut e = crate::elf::Elf::new(xlen).seg(BASE, code, n);
    if which == 1 {
        e = e.sym("tohost", TOHOST);
    }
    if which == 2 {
        e = e.sym("fromhost", FROMHOST);
    }
    if which == 3 {
        e = e.sym("tohost_", TOHOST).sym("_fromhost", FROMHOST);
    }
    let dir = Dir::new();
    dir.put("prog", &e.build());
    let o = crate::e2e::run_until(&dir, &["prog"], MARK, &[], b".", 60.0);
    cx.step_done();
    cx.state(&d);
    if o.code.is_some() || o.after(MARK) != Some(b"untouched.") {
        return bad(
            "channel",
            format!(
                "RV{xlen}, {}, {v:#x} stored in the host word\n{}",
                [
                    "no symbols",
                    "only tohost",
                    "only fromhost",
                    "similarly named symbols"
                ][which],
                o.show()
            ),
        );
    }
    cx.trace_done();
    Ok(())
}

pub fn run(r: &Report) {
    r.note("a trap taken counts as one of the 5000 instructions of a batch");
    r.note("programs do not depend on when a reservation is lost, on the value acknowledging a request, or on host timing");
    let leads = std::sync::Mutex::new([0u64; 2]);
    r.space("lead", &[2], |_, d| {
        let n = lead(32 + 32 * d[0] as u32);
        leads.lock().unwrap()[d[0]] = n;
        if n == 0 {
            return bad("lead", "the image is not reached from reset");
        }
        Ok(())
    });
    if r.only.is_some() {
        // replays need the lead too
        *leads.lock().unwrap() = [5, 5];
    }
    let leads = *leads.lock().unwrap();
    let nb = BODIES.len();
    let pads = if r.thorough { 160 } else { 24 };
    r.space("programs", &[2, nb, pads, 2], |c, d| {
        let xlen = 32 + 32 * d[0] as u32;
        let p = Prog {
            xlen,
            body: d[1],
            pad: d[2],
            odd: d[3] == 1,
            to_file: false,
            n: iterations(d[1], xlen),
        };
        one(c, &p, leads[d[0]], None)
    });
    let pads = if r.thorough { 12 } else { 2 };
    r.space("log-levels", &[2, nb, LEVELS.len(), pads], |c, d| {
        let xlen = 32 + 32 * d[0] as u32;
        let p = Prog {
            xlen,
            body: d[1],
            pad: 3 + 5 * d[3],
            odd: d[3] == 1,
            to_file: true,
            n: iterations(d[1], xlen) / 8,
        };
        one(c, &p, leads[d[0]], LEVELS[d[2]])
    });
    let (highs, lens) = if r.thorough { (4, 4) } else { (2, 2) };
    r.space("exits", &[2, 256, 2, highs, lens], |c, d| {
        let mut d = d.to_vec();
        if !c.rep.thorough {
            // quick: with long output only every 16th status
            if d[4] == 1 {
                if d[1] % 16 != 1 && d[1] % 16 != 6 {
                    return Ok(());
                }
                d[4] = 3;
            }
            d[3] *= 2 + d[0];
        }
        exits(c, &d)
    });
    r.space("echo", &[2, 9, 3, 2], echo);
    r.space("channel", &[2, 4, 4], channel);
}
