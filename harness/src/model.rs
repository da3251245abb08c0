//! Reference model of one RISC-V hart (RV32/RV64 IMAC, Zicsr, M/S/U, Sv32/Sv39,
//! PMP, mcontrol triggers), written from the ISA manuals and deliberately plain.
//! It is the oracle every CPU-level exploration compares the implementation with.

pub const M: u8 = 3;
pub const S: u8 = 1;
pub const U: u8 = 0;

#[derive(Clone, Copy, PartialEq, Eq, Debug, Hash, PartialOrd, Ord)]
pub enum Acc {
    Fetch,
    Load,
    Store,
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub struct Trap {
    pub cause: u64, // exception code, or INT|code
    pub tval: u64,
}
pub const INT: u64 = 1 << 63;

/// Physical memory as the model sees it.
pub trait Mem {
    /// Err(()) = access fault
    fn load(&mut self, pa: u64, size: u64) -> Result<u64, ()>;
    fn store(&mut self, pa: u64, size: u64, val: u64) -> Result<(), ()>;
    fn fetch16(&mut self, pa: u64) -> Result<u16, ()> {
        self.load(pa, 2).map(|v| v as u16)
    }
    /// page-table entry read
    fn load_pte(&mut self, pa: u64, size: u64) -> Result<u64, ()> {
        self.load(pa, size)
    }
}

pub const RAM_BASE: u64 = 0x8000_0000;
pub const RAM_SIZE: u64 = 0x8000_0000;

/// RAM whose unspecified bytes are zero. Small: a handful of live bytes.
#[derive(Clone, Default)]
pub struct Ram {
    pub bytes: Vec<(u64, u8)>,
    pub writes: Vec<(u64, u64)>, // (pa, size) stored by the hart since last clear
}
impl Ram {
    pub fn byte(&self, pa: u64) -> u8 {
        for &(a, b) in &self.bytes {
            if a == pa {
                return b;
            }
        }
        0
    }
    pub fn put(&mut self, pa: u64, size: u64, val: u64) {
        for i in 0..size {
            let v = (val >> (8 * i)) as u8;
            match self.bytes.iter_mut().find(|e| e.0 == pa + i) {
                Some(e) => e.1 = v,
                None => self.bytes.push((pa + i, v)),
            }
        }
    }
    pub fn get(&self, pa: u64, size: u64) -> u64 {
        (0..size).fold(0, |v, i| v | (self.byte(pa + i) as u64) << (8 * i))
    }
    pub fn ok(pa: u64, size: u64) -> bool {
        pa >= RAM_BASE && pa - RAM_BASE <= RAM_SIZE - size
    }
}
impl Mem for Ram {
    fn load(&mut self, pa: u64, size: u64) -> Result<u64, ()> {
        if !Ram::ok(pa, size) {
            return Err(());
        }
        Ok(self.get(pa, size))
    }
    fn store(&mut self, pa: u64, size: u64, val: u64) -> Result<(), ()> {
        if !Ram::ok(pa, size) {
            return Err(());
        }
        self.put(pa, size, val);
        self.writes.push((pa, size));
        Ok(())
    }
}

#[derive(Clone, PartialEq, Eq, Debug, Hash)]
pub struct Hart {
    pub xlen: u32,
    pub pc: u64,
    pub x: [u64; 32],
    pub prv: u8,
    pub mstatus: u64,
    pub medeleg: u64,
    pub mideleg: u64,
    pub mie: u64,
    pub mip: u64,
    pub mtvec: u64,
    pub mcounteren: u64,
    pub mscratch: u64,
    pub mepc: u64,
    pub mcause: u64,
    pub mtval: u64,
    pub stvec: u64,
    pub scounteren: u64,
    pub sscratch: u64,
    pub sepc: u64,
    pub scause: u64,
    pub stval: u64,
    pub satp: u64,
    pub pmpcfg: [u8; 16],
    pub pmpaddr: [u64; 16],
    pub tselect: u64,
    pub tdata1: [u64; 8],
    pub tdata2: [u64; 8],
    pub time: u64,
    /// reservation: address and width of the last LR
    pub resv: Option<(u64, u64)>,
    /// set when something between LR and SC makes success optional
    pub resv_weak: bool,
}

pub const MST_SIE: u64 = 1 << 1;
pub const MST_MIE: u64 = 1 << 3;
pub const MST_SPIE: u64 = 1 << 5;
pub const MST_MPIE: u64 = 1 << 7;
pub const MST_SPP: u64 = 1 << 8;
pub const MST_MPP: u64 = 3 << 11;
pub const MST_FS: u64 = 3 << 13;
pub const MST_MPRV: u64 = 1 << 17;
pub const MST_SUM: u64 = 1 << 18;
pub const MST_MXR: u64 = 1 << 19;
pub const MST_TVM: u64 = 1 << 20;
pub const MST_TW: u64 = 1 << 21;
pub const MST_TSR: u64 = 1 << 22;
/// mstatus fields whose value the model defines (others are WARL/WPRI freedom)
pub const MST_DEFINED: u64 = MST_SIE
    | MST_MIE
    | MST_SPIE
    | MST_MPIE
    | MST_SPP
    | MST_MPP
    | MST_FS
    | MST_MPRV
    | MST_SUM
    | MST_MXR
    | MST_TVM
    | MST_TW
    | MST_TSR;
/// fields visible and writable through sstatus
pub const SST_DEFINED: u64 = MST_SIE | MST_SPIE | MST_SPP | MST_FS | MST_SUM | MST_MXR;
/// supervisor-level interrupt bits the model defines
pub const S_INTS: u64 = (1 << 1) | (1 << 5) | (1 << 9);
pub const ALL_INTS: u64 = 0xaaa;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Outcome {
    Retired,
    Trapped(Trap),
    /// The specification leaves the result open: the model state is meaningless.
    Unspecified,
    /// SC whose success is optional; model state holds the failing outcome.
    MaySucceed {
        pa: u64,
        size: u64,
        val: u64,
        rd: usize,
    },
}

enum Ex {
    T(Trap),
    Unspec,
    May {
        pa: u64,
        size: u64,
        val: u64,
        rd: usize,
    },
}
impl From<Trap> for Ex {
    fn from(t: Trap) -> Ex {
        Ex::T(t)
    }
}
fn tr<R>(cause: u64, tval: u64) -> Result<R, Ex> {
    Err(Ex::T(Trap { cause, tval }))
}

pub fn sext(v: u64, bits: u32) -> u64 {
    (((v << (64 - bits)) as i64) >> (64 - bits)) as u64
}
fn bits(v: u32, hi: u32, lo: u32) -> u32 {
    (v >> lo) & ((1u64 << (hi - lo + 1)) - 1) as u32
}

impl Hart {
    pub fn new(xlen: u32) -> Hart {
        Hart {
            xlen,
            pc: 0x1000,
            x: [0; 32],
            prv: M,
            mstatus: 0,
            medeleg: 0,
            mideleg: 0,
            mie: 0,
            mip: 0,
            mtvec: 0,
            mcounteren: 0,
            mscratch: 0,
            mepc: 0,
            mcause: 0,
            mtval: 0,
            stvec: 0,
            scounteren: 0,
            sscratch: 0,
            sepc: 0,
            scause: 0,
            stval: 0,
            satp: 0,
            pmpcfg: [0; 16],
            pmpaddr: [0; 16],
            tselect: 0,
            tdata1: [0; 8],
            tdata2: [0; 8],
            time: 0,
            resv: None,
            resv_weak: false,
        }
    }
    pub fn w(&self, v: u64) -> u64 {
        if self.xlen == 32 {
            v & 0xffff_ffff
        } else {
            v
        }
    }
    /// value as signed XLEN integer
    fn sx(&self, v: u64) -> i64 {
        if self.xlen == 32 {
            v as u32 as i32 as i64
        } else {
            v as i64
        }
    }
    fn set(&mut self, rd: usize, v: u64) {
        if rd != 0 {
            self.x[rd] = self.w(v);
        }
    }

    // ---------------------------------------------------------------- traps
    pub fn take_trap(&mut self, t: Trap) {
        let int = t.cause & INT != 0;
        let code = t.cause & 63;
        let deleg = if int { self.mideleg } else { self.medeleg };
        let cause_csr = if int {
            (1u64 << (self.xlen - 1)) | code
        } else {
            code
        };
        let tval = self.w(t.tval);
        if self.resv.is_some() {
            self.resv_weak = true;
        }
        if self.prv != M && (deleg >> code) & 1 == 1 {
            self.scause = cause_csr;
            self.sepc = self.w(self.pc);
            self.stval = tval;
            let sie = self.mstatus & MST_SIE != 0;
            self.mstatus &= !(MST_SPIE | MST_SIE | MST_SPP);
            if sie {
                self.mstatus |= MST_SPIE;
            }
            if self.prv == S {
                self.mstatus |= MST_SPP;
            }
            self.prv = S;
            self.pc = self.vector(self.stvec, int, code);
        } else {
            self.mcause = cause_csr;
            self.mepc = self.w(self.pc);
            self.mtval = tval;
            let mie = self.mstatus & MST_MIE != 0;
            self.mstatus &= !(MST_MPIE | MST_MIE | MST_MPP);
            if mie {
                self.mstatus |= MST_MPIE;
            }
            self.mstatus |= (self.prv as u64) << 11;
            self.prv = M;
            self.pc = self.vector(self.mtvec, int, code);
        }
    }
    fn vector(&self, tvec: u64, int: bool, code: u64) -> u64 {
        let base = tvec & !3;
        self.w(if int && tvec & 3 == 1 {
            base + 4 * code
        } else {
            base
        })
    }

    /// The interrupt the hart must take now, if any.
    pub fn interrupt(&self) -> Option<u64> {
        const ORDER: [u64; 6] = [11, 3, 7, 9, 1, 5];
        let pend = self.mip & self.mie;
        let m_on = self.prv < M || self.mstatus & MST_MIE != 0;
        let s_on = self.prv < S || (self.prv == S && self.mstatus & MST_SIE != 0);
        if m_on {
            for c in ORDER {
                if (pend & !self.mideleg) >> c & 1 == 1 {
                    return Some(c);
                }
            }
        }
        if s_on {
            for c in ORDER {
                if (pend & self.mideleg) >> c & 1 == 1 {
                    return Some(c);
                }
            }
        }
        None
    }

    // ------------------------------------------------------- address path
    fn fault(kind: Acc, page: bool) -> u64 {
        match (kind, page) {
            (Acc::Fetch, false) => 1,
            (Acc::Load, false) => 5,
            (Acc::Store, false) => 7,
            (Acc::Fetch, true) => 12,
            (Acc::Load, true) => 13,
            (Acc::Store, true) => 15,
        }
    }

    fn trigger_hit(&self, kind: Acc, va: u64) -> bool {
        for i in 0..8 {
            let t = self.tdata1[i];
            if (t >> (self.xlen - 4)) & 15 != 2 {
                continue;
            }
            let mode = match self.prv {
                M => t >> 6 & 1,
                S => t >> 4 & 1,
                _ => t >> 3 & 1,
            };
            let k = match kind {
                Acc::Fetch => t >> 2 & 1,
                Acc::Store => t >> 1 & 1,
                Acc::Load => t & 1,
            };
            if mode == 1 && k == 1 && self.tdata2[i] == va {
                return true;
            }
        }
        false
    }

    pub fn pmp_ok(&self, kind: Acc, pa: u64, size: u64, prv: u8) -> bool {
        let mut any = false;
        for i in 0..16 {
            let c = self.pmpcfg[i];
            let a = c >> 3 & 3;
            if a == 0 {
                continue;
            }
            any = true;
            // [lo, hi) in bytes
            let (lo, hi): (u128, u128) = match a {
                1 => {
                    let lo = if i == 0 {
                        0
                    } else {
                        (self.pmpaddr[i - 1] as u128) << 2
                    };
                    (lo, (self.pmpaddr[i] as u128) << 2)
                }
                2 => {
                    let b = (self.pmpaddr[i] as u128) << 2;
                    (b, b + 4)
                }
                _ => {
                    let n = self.pmpaddr[i].trailing_ones();
                    let len = 8u128 << n;
                    let mask = len - 1;
                    let b = ((self.pmpaddr[i] as u128) << 2) & !mask;
                    (b, b + len)
                }
            };
            let first = pa as u128;
            let last = first + size as u128;
            let overlap = first < hi && lo < last;
            if !overlap || lo >= hi {
                continue;
            }
            let inside = lo <= first && last <= hi;
            if !inside {
                return false; // partial match always fails
            }
            if prv == M && c & 0x80 == 0 {
                return true;
            }
            return match kind {
                Acc::Load => c & 1 != 0,
                Acc::Store => c & 2 != 0,
                Acc::Fetch => c & 4 != 0,
            };
        }
        prv == M || !any
    }

    pub fn eff_prv(&self, kind: Acc) -> u8 {
        if kind != Acc::Fetch && self.mstatus & MST_MPRV != 0 {
            (self.mstatus >> 11 & 3) as u8
        } else {
            self.prv
        }
    }

    /// virtual -> physical, including PMP. Does not include triggers or alignment.
    pub fn translate(&self, mem: &mut dyn Mem, kind: Acc, va: u64, size: u64) -> Result<u64, Trap> {
        let prv = self.eff_prv(kind);
        let pf = Trap {
            cause: Hart::fault(kind, true),
            tval: va,
        };
        let af = Trap {
            cause: Hart::fault(kind, false),
            tval: va,
        };
        let paging = prv != M
            && if self.xlen == 32 {
                self.satp >> 31 & 1 == 1
            } else {
                self.satp >> 60 == 8
            };
        let pa = if !paging {
            va
        } else {
            let (levels, ptesize, vpnbits, ppnmask) = if self.xlen == 32 {
                (2u64, 4u64, 10u64, (1u64 << 22) - 1)
            } else {
                (3, 8, 9, (1u64 << 44) - 1)
            };
            if self.xlen == 64 && sext(va, 39) != va {
                return Err(pf);
            }
            let mut a = (self.satp & ppnmask) << 12;
            let mut i = levels - 1;
            loop {
                let vpn = va >> (12 + vpnbits * i) & ((1 << vpnbits) - 1);
                let at = a + vpn * ptesize;
                if !self.pmp_ok(Acc::Load, at, ptesize, S) {
                    return Err(af);
                }
                let pte = mem.load_pte(at, ptesize).map_err(|_| af)?;
                let (v, r, w, x, u, ad, d) = (
                    pte & 1 != 0,
                    pte & 2 != 0,
                    pte & 4 != 0,
                    pte & 8 != 0,
                    pte & 16 != 0,
                    pte & 64 != 0,
                    pte & 128 != 0,
                );
                if !v || (!r && w) {
                    return Err(pf);
                }
                let ppn = pte >> 10 & ppnmask;
                if !r && !x {
                    if i == 0 {
                        return Err(pf);
                    }
                    a = ppn << 12;
                    i -= 1;
                    continue;
                }
                let perm = match kind {
                    Acc::Fetch => x,
                    Acc::Load => r || (x && self.mstatus & MST_MXR != 0),
                    Acc::Store => w,
                };
                let who = match prv {
                    U => u,
                    _ => !u || (kind != Acc::Fetch && self.mstatus & MST_SUM != 0),
                };
                let low = (1u64 << (vpnbits * i)) - 1;
                if !perm || !who || ppn & low != 0 || !ad || (kind == Acc::Store && !d) {
                    return Err(pf);
                }
                let vpnlow = va >> 12 & low;
                break ((ppn | vpnlow) << 12) | (va & 0xfff);
            }
        };
        if !self.pmp_ok(kind, pa, size, prv) {
            return Err(af);
        }
        Ok(pa)
    }

    /// data address: trigger, translation, alignment
    fn data_addr(&self, mem: &mut dyn Mem, kind: Acc, va: u64, size: u64) -> Result<u64, Ex> {
        if self.trigger_hit(kind, va) {
            return tr(3, va);
        }
        let pa = self.translate(mem, kind, va, size);
        if va % size != 0 {
            if pa.is_err() {
                return Err(Ex::Unspec); // either order is allowed
            }
            return tr(if kind == Acc::Load { 4 } else { 6 }, va);
        }
        Ok(pa?)
    }
    fn load(&self, mem: &mut dyn Mem, va: u64, size: u64) -> Result<u64, Ex> {
        let va = self.w(va);
        let pa = self.data_addr(mem, Acc::Load, va, size)?;
        match mem.load(pa, size) {
            Ok(v) => Ok(v),
            Err(()) => tr(5, va),
        }
    }
    fn store(&mut self, mem: &mut dyn Mem, va: u64, size: u64, val: u64) -> Result<(), Ex> {
        let va = self.w(va);
        let pa = self.data_addr(mem, Acc::Store, va, size)?;
        match mem.store(pa, size, val) {
            Ok(()) => {
                if let Some((a, n)) = self.resv {
                    if pa < a + n && a < pa + size {
                        self.resv_weak = true;
                    }
                }
                Ok(())
            }
            Err(()) => tr(7, va),
        }
    }

    // ---------------------------------------------------------------- step
    pub fn step(&mut self, mem: &mut dyn Mem) -> Outcome {
        if let Some(c) = self.interrupt() {
            let t = Trap {
                cause: INT | c,
                tval: 0,
            };
            self.take_trap(t);
            return Outcome::Trapped(t);
        }
        self.step_noint(mem)
    }
    pub fn step_noint(&mut self, mem: &mut dyn Mem) -> Outcome {
        let save = self.clone();
        match self.fetch_exec(mem) {
            Ok(()) => Outcome::Retired,
            Err(Ex::T(t)) => {
                *self = save;
                self.take_trap(t);
                Outcome::Trapped(t)
            }
            Err(Ex::Unspec) => Outcome::Unspecified,
            Err(Ex::May { pa, size, val, rd }) => Outcome::MaySucceed { pa, size, val, rd },
        }
    }

    fn fetch_half(&self, mem: &mut dyn Mem, va: u64) -> Result<u16, Ex> {
        let pa = self.translate(mem, Acc::Fetch, va, 2)?;
        match mem.fetch16(pa) {
            Ok(v) => Ok(v),
            Err(()) => tr(1, va),
        }
    }

    fn fetch_exec(&mut self, mem: &mut dyn Mem) -> Result<(), Ex> {
        let pc = self.w(self.pc);
        if self.trigger_hit(Acc::Fetch, pc) {
            return tr(3, pc);
        }
        let lo = self.fetch_half(mem, pc)?;
        if lo & 3 != 3 {
            return match expand(lo, self.xlen) {
                Some(i) => self.exec(mem, i, 2, lo as u64),
                None => tr(2, lo as u64),
            };
        }
        let hi = self.fetch_half(mem, self.w(pc.wrapping_add(2)))?;
        let i = (hi as u32) << 16 | lo as u32;
        self.exec(mem, i, 4, i as u64)
    }

    fn exec(&mut self, mem: &mut dyn Mem, i: u32, ilen: u64, raw: u64) -> Result<(), Ex> {
        let ill = || tr(2, raw);
        let pc = self.w(self.pc);
        let mut next = self.w(pc.wrapping_add(ilen));
        let rd = bits(i, 11, 7) as usize;
        let rs1 = bits(i, 19, 15) as usize;
        let rs2 = bits(i, 24, 20) as usize;
        let f3 = bits(i, 14, 12);
        let f7 = bits(i, 31, 25);
        let a = self.x[rs1];
        let b = self.x[rs2];
        let imm_i = sext((i >> 20) as u64, 12);
        let imm_s = sext((bits(i, 31, 25) << 5 | bits(i, 11, 7)) as u64, 12);
        let imm_b = sext(
            (bits(i, 31, 31) << 12
                | bits(i, 7, 7) << 11
                | bits(i, 30, 25) << 5
                | bits(i, 11, 8) << 1) as u64,
            13,
        );
        let imm_u = sext((i & 0xffff_f000) as u64, 32);
        let imm_j = sext(
            (bits(i, 31, 31) << 20
                | bits(i, 19, 12) << 12
                | bits(i, 20, 20) << 11
                | bits(i, 30, 21) << 1) as u64,
            21,
        );
        let rv64 = self.xlen == 64;
        let shmask = (self.xlen - 1) as u64;
        match i & 0x7f {
            0x37 => self.set(rd, imm_u),
            0x17 => self.set(rd, pc.wrapping_add(imm_u)),
            0x6f => {
                let t = self.w(pc.wrapping_add(imm_j));
                self.set(rd, next);
                next = t;
            }
            0x67 => {
                if f3 != 0 {
                    return ill();
                }
                let t = self.w(a.wrapping_add(imm_i)) & !1;
                self.set(rd, next);
                next = t;
            }
            0x63 => {
                let taken = match f3 {
                    0 => a == b,
                    1 => a != b,
                    4 => self.sx(a) < self.sx(b),
                    5 => self.sx(a) >= self.sx(b),
                    6 => a < b,
                    7 => a >= b,
                    _ => return ill(),
                };
                if taken {
                    next = self.w(pc.wrapping_add(imm_b));
                }
            }
            0x03 => {
                let va = a.wrapping_add(imm_i);
                let v = match f3 {
                    0 => sext(self.load(mem, va, 1)?, 8),
                    1 => sext(self.load(mem, va, 2)?, 16),
                    2 => sext(self.load(mem, va, 4)?, 32),
                    3 if rv64 => self.load(mem, va, 8)?,
                    4 => self.load(mem, va, 1)?,
                    5 => self.load(mem, va, 2)?,
                    6 if rv64 => self.load(mem, va, 4)?,
                    _ => return ill(),
                };
                self.set(rd, v);
            }
            0x23 => {
                let size = match f3 {
                    0 => 1,
                    1 => 2,
                    2 => 4,
                    3 if rv64 => 8,
                    _ => return ill(),
                };
                self.store(mem, a.wrapping_add(imm_s), size, b)?;
            }
            0x13 => {
                let sh = if rv64 {
                    bits(i, 25, 20)
                } else {
                    bits(i, 24, 20)
                } as u64;
                let top = if rv64 { bits(i, 31, 26) << 1 } else { f7 };
                let v = match f3 {
                    0 => a.wrapping_add(imm_i),
                    1 if top == 0 => a << sh,
                    2 => (self.sx(a) < imm_i as i64) as u64,
                    3 => (a < self.w(imm_i)) as u64,
                    4 => a ^ imm_i,
                    5 if top == 0 => a >> sh,
                    5 if top == 0x20 => (self.sx(a) >> sh) as u64,
                    6 => a | imm_i,
                    7 => a & imm_i,
                    _ => return ill(),
                };
                self.set(rd, v);
            }
            0x33 => {
                let sh = b & shmask;
                let n = self.xlen;
                let (ua, ub) = (a as u128, b as u128);
                let (sa, sb) = (self.sx(a), self.sx(b));
                let v = match (f7, f3) {
                    (0, 0) => a.wrapping_add(b),
                    (0x20, 0) => a.wrapping_sub(b),
                    (0, 1) => a << sh,
                    (0, 2) => (sa < sb) as u64,
                    (0, 3) => (a < b) as u64,
                    (0, 4) => a ^ b,
                    (0, 5) => a >> sh,
                    (0x20, 5) => (sa >> sh) as u64,
                    (0, 6) => a | b,
                    (0, 7) => a & b,
                    (1, 0) => a.wrapping_mul(b),
                    (1, 1) => ((sa as i128 * sb as i128) >> n) as u64,
                    (1, 2) => ((sa as i128).wrapping_mul(ub as i128) >> n) as u64,
                    (1, 3) => ((ua * ub) >> n) as u64,
                    (1, 4) => {
                        if b == 0 {
                            u64::MAX
                        } else {
                            (sa as i128 / sb as i128) as u64
                        }
                    }
                    (1, 5) => {
                        if b == 0 {
                            u64::MAX
                        } else {
                            a / b
                        }
                    }
                    (1, 6) => {
                        if b == 0 {
                            a
                        } else {
                            (sa as i128 % sb as i128) as u64
                        }
                    }
                    (1, 7) => {
                        if b == 0 {
                            a
                        } else {
                            a % b
                        }
                    }
                    _ => return ill(),
                };
                self.set(rd, v);
            }
            0x1b if rv64 => {
                let sh = bits(i, 24, 20);
                let v = match (f3, f7) {
                    (0, _) => sext(a.wrapping_add(imm_i), 32),
                    (1, 0) => sext((a as u32).wrapping_shl(sh) as u64, 32),
                    (5, 0) => sext((a as u32 >> sh) as u64, 32),
                    (5, 0x20) => ((a as u32 as i32) >> sh) as i64 as u64,
                    _ => return ill(),
                };
                self.set(rd, v);
            }
            0x3b if rv64 => {
                let (wa, wb) = (a as u32, b as u32);
                let (sa, sb) = (wa as i32 as i64, wb as i32 as i64);
                let sh = wb & 31;
                let r32: u32 = match (f7, f3) {
                    (0, 0) => wa.wrapping_add(wb),
                    (0x20, 0) => wa.wrapping_sub(wb),
                    (0, 1) => wa << sh,
                    (0, 5) => wa >> sh,
                    (0x20, 5) => ((wa as i32) >> sh) as u32,
                    (1, 0) => wa.wrapping_mul(wb),
                    (1, 4) => {
                        if wb == 0 {
                            u32::MAX
                        } else {
                            (sa / sb) as u32
                        }
                    }
                    (1, 5) => {
                        if wb == 0 {
                            u32::MAX
                        } else {
                            wa / wb
                        }
                    }
                    (1, 6) => {
                        if wb == 0 {
                            wa
                        } else {
                            (sa % sb) as u32
                        }
                    }
                    (1, 7) => {
                        if wb == 0 {
                            wa
                        } else {
                            wa % wb
                        }
                    }
                    _ => return ill(),
                };
                self.set(rd, sext(r32 as u64, 32));
            }
            0x0f => {
                if f3 > 1 {
                    return ill();
                }
            }
            0x2f => self.amo(mem, i, raw)?,
            0x73 => match f3 {
                0 => match i {
                    0x0000_0073 => return tr(8 + self.prv as u64, 0),
                    0x0010_0073 => return tr(3, pc),
                    0x1020_0073 => {
                        if self.prv == U || (self.prv == S && self.mstatus & MST_TSR != 0) {
                            return ill();
                        }
                        next = self.xepc(self.sepc);
                        let spie = self.mstatus & MST_SPIE != 0;
                        self.prv = if self.mstatus & MST_SPP != 0 { S } else { U };
                        self.mstatus &= !(MST_SIE | MST_SPP);
                        self.mstatus |= MST_SPIE;
                        if spie {
                            self.mstatus |= MST_SIE;
                        }
                    }
                    0x3020_0073 => {
                        if self.prv != M {
                            return ill();
                        }
                        next = self.xepc(self.mepc);
                        let mpie = self.mstatus & MST_MPIE != 0;
                        self.prv = (self.mstatus >> 11 & 3) as u8;
                        self.mstatus &= !(MST_MIE | MST_MPP);
                        self.mstatus |= MST_MPIE;
                        if mpie {
                            self.mstatus |= MST_MIE;
                        }
                    }
                    0x1050_0073 => {
                        if self.prv != M && self.mstatus & MST_TW != 0 {
                            // may complete or trap
                            return Err(Ex::Unspec);
                        }
                    }
                    _ if f7 == 0x09 && rd == 0 => {
                        if self.prv == U || (self.prv == S && self.mstatus & MST_TVM != 0) {
                            return ill();
                        }
                    }
                    _ => return ill(),
                },
                4 => return ill(),
                _ => {
                    let csr = i >> 20;
                    let src = if f3 & 4 != 0 { rs1 as u64 } else { a };
                    let writes = f3 & 3 == 1 || rs1 != 0;
                    match self.csr_access(csr, writes) {
                        Access::Illegal => return ill(),
                        Access::Unspecified => return Err(Ex::Unspec),
                        Access::Ok => {}
                    }
                    let old = self.csr_read(csr);
                    if writes {
                        let new = match f3 & 3 {
                            1 => src,
                            2 => self.csr_read_for_rmw(csr) | src,
                            _ => self.csr_read_for_rmw(csr) & !src,
                        };
                        self.csr_write(csr, self.w(new));
                    }
                    self.set(rd, old);
                }
            },
            _ => return ill(),
        }
        self.pc = next;
        Ok(())
    }

    fn xepc(&self, v: u64) -> u64 {
        v & !1
    }

    fn amo(&mut self, mem: &mut dyn Mem, i: u32, raw: u64) -> Result<(), Ex> {
        let ill = || tr(2, raw);
        let (rd, rs1, rs2) = (
            bits(i, 11, 7) as usize,
            bits(i, 19, 15) as usize,
            bits(i, 24, 20) as usize,
        );
        let size: u64 = match bits(i, 14, 12) {
            2 => 4,
            3 if self.xlen == 64 => 8,
            _ => return ill(),
        };
        let f5 = bits(i, 31, 27);
        let va = self.x[rs1];
        let b = self.x[rs2];
        let ext = |v: u64| if size == 4 { sext(v, 32) } else { v };
        match f5 {
            2 => {
                if rs2 != 0 {
                    return ill();
                }
                let pa = self.data_addr(mem, Acc::Load, va, size)?;
                let v = match mem.load(pa, size) {
                    Ok(v) => v,
                    Err(()) => return tr(5, va),
                };
                self.set(rd, ext(v));
                self.resv = Some((pa, size));
                self.resv_weak = false;
            }
            3 => {
                let pa = self.data_addr(mem, Acc::Store, va, size)?;
                let held = self.resv.take();
                let weak = std::mem::replace(&mut self.resv_weak, false);
                let b = b;
                match held {
                    Some((a, n)) if a == pa && n == size && !weak => match mem.store(pa, size, b) {
                        Ok(()) => self.set(rd, 0),
                        Err(()) => return tr(7, va),
                    },
                    Some((a, n))
                        if a <= pa + size && pa <= a + n && (a != pa || n != size || weak) =>
                    {
                        // overlapping but different width, or own store in between: optional
                        if a < pa + size && pa < a + n {
                            self.set(rd, 1);
                            self.pc = self.w(self.pc.wrapping_add(4));
                            return Err(Ex::May {
                                pa,
                                size,
                                val: b,
                                rd,
                            });
                        }
                        self.set(rd, 1);
                    }
                    _ => self.set(rd, 1),
                }
            }
            _ => {
                let w = |v: u64| if size == 4 { v & 0xffff_ffff } else { v };
                let s = |v: u64| {
                    if size == 4 {
                        v as u32 as i32 as i64
                    } else {
                        v as i64
                    }
                };
                let f: Box<dyn Fn(u64, u64) -> u64> = match f5 {
                    0 => Box::new(|x, y| x.wrapping_add(y)),
                    1 => Box::new(|_, y| y),
                    4 => Box::new(|x, y| x ^ y),
                    8 => Box::new(|x, y| x | y),
                    12 => Box::new(|x, y| x & y),
                    16 => Box::new(move |x, y| if s(x) < s(y) { x } else { y }),
                    20 => Box::new(move |x, y| if s(x) > s(y) { x } else { y }),
                    24 => Box::new(move |x, y| if w(x) < w(y) { x } else { y }),
                    28 => Box::new(move |x, y| if w(x) > w(y) { x } else { y }),
                    _ => return ill(),
                };
                let pa = self.data_addr(mem, Acc::Store, va, size)?;
                // an AMO needs both permissions; reported as store/AMO fault
                let old = match mem.load(pa, size) {
                    Ok(v) => v,
                    Err(()) => return tr(7, va),
                };
                if mem.store(pa, size, w(f(old, b))).is_err() {
                    return tr(7, va);
                }
                if let Some((a, n)) = self.resv {
                    if pa < a + n && a < pa + size {
                        self.resv_weak = true;
                    }
                }
                self.set(rd, ext(old));
            }
        }
        Ok(())
    }

    // ---------------------------------------------------------------- CSRs
    pub fn csr_access(&self, csr: u32, write: bool) -> Access {
        let need = (csr >> 8 & 3) as u8;
        if self.prv < need {
            return Access::Illegal;
        }
        if csr >> 10 == 3 && write {
            return Access::Illegal;
        }
        // counters
        let lowhalf = (0xc00..0xc20).contains(&csr);
        let highhalf = (0xc80..0xca0).contains(&csr) && self.xlen == 32;
        if (lowhalf || highhalf) && self.prv != M {
            let bit = csr & 31;
            if self.mcounteren >> bit & 1 == 0 || (self.prv == U && self.scounteren >> bit & 1 == 0)
            {
                return Access::Illegal;
            }
        }
        if csr == 0x180 && self.prv == S && self.mstatus & MST_TVM != 0 {
            return Access::Illegal;
        }
        if self.csr_known(csr) {
            Access::Ok
        } else {
            Access::Unspecified
        }
    }
    /// CSRs whose behaviour the model defines
    pub fn csr_known(&self, csr: u32) -> bool {
        match csr {
            0x100 | 0x104 | 0x105 | 0x106 | 0x140..=0x144 | 0x180 => true,
            0x300 | 0x302..=0x306 | 0x340..=0x344 => true,
            0x3a0..=0x3a3 => self.xlen == 32 || csr & 1 == 0,
            0x3b0..=0x3bf => true,
            0x7a0..=0x7a2 => true,
            0xc01 => true,
            0xc81 => self.xlen == 32,
            0xf11..=0xf14 => true,
            _ => false,
        }
    }
    /// SD: the floating-point state is dirty
    fn sd(&self) -> u64 {
        ((self.mstatus & MST_FS == MST_FS) as u64) << (self.xlen - 1)
    }
    /// locked PMP entries ignore writes, and so does the base of a locked TOR entry
    fn pmp_locked(&self, i: usize) -> bool {
        self.pmpcfg[i] & 0x80 != 0
    }
    fn pmpaddr_locked(&self, i: usize) -> bool {
        self.pmp_locked(i) || (i < 15 && self.pmp_locked(i + 1) && self.pmpcfg[i + 1] >> 3 & 3 == 1)
    }
    fn uxl(&self) -> u64 {
        if self.xlen == 64 {
            2 << 32
        } else {
            0
        }
    }
    fn sview(&self) -> u64 {
        self.mideleg & S_INTS
    }
    pub fn csr_read(&self, csr: u32) -> u64 {
        let v = match csr {
            0x100 => (self.mstatus & SST_DEFINED) | self.uxl() | self.sd(),
            0x104 => self.mie & self.sview(),
            0x105 => self.stvec,
            0x106 => self.scounteren,
            0x140 => self.sscratch,
            0x141 => self.xepc(self.sepc),
            0x142 => self.scause,
            0x143 => self.stval,
            0x144 => self.mip & self.sview(),
            0x180 => self.satp,
            0x300 => self.mstatus | if self.xlen == 64 { 0xa << 32 } else { 0 } | self.sd(),
            0x302 => self.medeleg,
            0x303 => self.mideleg,
            0x304 => self.mie,
            0x305 => self.mtvec,
            0x306 => self.mcounteren,
            0x340 => self.mscratch,
            0x341 => self.xepc(self.mepc),
            0x342 => self.mcause,
            0x343 => self.mtval,
            0x344 => self.mip,
            0x3a0..=0x3a3 => {
                let n = if self.xlen == 32 { 4 } else { 8 };
                let first = (csr - 0x3a0) as usize * 4;
                (0..n).fold(0, |v, k| v | (self.pmpcfg[first + k] as u64) << (8 * k))
            }
            0x3b0..=0x3bf => self.pmpaddr[(csr - 0x3b0) as usize],
            0x7a0 => self.tselect,
            0x7a1 => self.tdata1[self.tselect as usize],
            0x7a2 => self.tdata2[self.tselect as usize],
            0xc01 => self.time,
            0xc81 => self.time >> 32,
            0xf12 => 5,
            0xf11 | 0xf13 | 0xf14 => 0,
            _ => unreachable!(),
        };
        self.w(v)
    }
    fn csr_read_for_rmw(&self, csr: u32) -> u64 {
        self.csr_read(csr)
    }
    pub fn csr_write(&mut self, csr: u32, v: u64) {
        let v = self.w(v);
        match csr {
            0x100 => self.mstatus = (self.mstatus & !SST_DEFINED) | (v & SST_DEFINED),
            0x104 => {
                let m = self.sview();
                self.mie = (self.mie & !m) | (v & m)
            }
            0x105 => self.stvec = v,
            0x106 => self.scounteren = v,
            0x140 => self.sscratch = v,
            0x141 => self.sepc = v & !1,
            0x142 => self.scause = v,
            0x143 => self.stval = v,
            0x144 => {
                let m = self.sview() & 2;
                self.mip = (self.mip & !m) | (v & m)
            }
            0x180 => {
                if self.xlen == 32 || matches!(v >> 60, 0 | 8) {
                    self.satp = v
                }
            }
            0x300 => {
                let old = self.mstatus & MST_MPP;
                self.mstatus = v & MST_DEFINED;
                if self.mstatus & MST_MPP == 2 << 11 {
                    self.mstatus = (self.mstatus & !MST_MPP) | old; // no such mode
                }
            }
            0x302 => self.medeleg = v,
            0x303 => self.mideleg = v,
            0x304 => self.mie = v,
            0x305 => self.mtvec = v,
            0x306 => self.mcounteren = v,
            0x340 => self.mscratch = v,
            0x341 => self.mepc = v & !1,
            0x342 => self.mcause = v,
            0x343 => self.mtval = v,
            // the other bits follow their devices
            0x344 => self.mip = (self.mip & !2) | (v & 2),
            0x3a0..=0x3a3 => {
                let n = if self.xlen == 32 { 4 } else { 8 };
                let first = (csr - 0x3a0) as usize * 4;
                for k in 0..n {
                    if !self.pmp_locked(first + k) {
                        self.pmpcfg[first + k] = (v >> (8 * k)) as u8;
                    }
                }
            }
            0x3b0..=0x3bf => {
                let i = (csr - 0x3b0) as usize;
                if !self.pmpaddr_locked(i) {
                    self.pmpaddr[i] = v
                }
            }
            0x7a0 => {
                if v < 8 {
                    self.tselect = v
                }
            }
            0x7a1 => {
                // address-match triggers only; anything else reads back as no trigger
                let ty = v >> (self.xlen - 4) & 15;
                self.tdata1[self.tselect as usize] = if ty == 2 {
                    2 << (self.xlen - 4) | (v & 0x5f)
                } else {
                    0
                }
            }
            0x7a2 => self.tdata2[self.tselect as usize] = v,
            _ => unreachable!(),
        }
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Access {
    Ok,
    Illegal,
    Unspecified,
}

/// Expand a 16-bit instruction to its 32-bit equivalent; None = illegal/reserved.
pub fn expand(h: u16, xlen: u32) -> Option<u32> {
    let h = h as u32;
    let b = |hi: u32, lo: u32| bits(h, hi, lo);
    let rv64 = xlen == 64;
    let rdp = b(4, 2) + 8;
    let rs1p = b(9, 7) + 8;
    let rd = b(11, 7);
    let rs2 = b(6, 2);
    let i_type = |imm: u32, rs1: u32, f3: u32, rd: u32, op: u32| {
        (imm & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
    };
    let s_type = |imm: u32, rs2: u32, rs1: u32, f3: u32| {
        bits(imm, 11, 5) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | bits(imm, 4, 0) << 7 | 0x23
    };
    let r_type = |f7: u32, rs2: u32, rs1: u32, f3: u32, rd: u32, op: u32| {
        f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
    };
    let imm6 = sext((b(12, 12) << 5 | b(6, 2)) as u64, 6) as u32;
    let shamt = b(12, 12) << 5 | b(6, 2);
    let jal = |rd: u32| {
        let o = sext(
            (b(12, 12) << 11
                | b(11, 11) << 4
                | b(10, 9) << 8
                | b(8, 8) << 10
                | b(7, 7) << 6
                | b(6, 6) << 7
                | b(5, 3) << 1
                | b(2, 2) << 5) as u64,
            12,
        ) as u32;
        bits(o, 20, 20) << 31
            | bits(o, 10, 1) << 21
            | bits(o, 11, 11) << 20
            | bits(o, 19, 12) << 12
            | rd << 7
            | 0x6f
    };
    let branch = |f3: u32| {
        let o = sext(
            (b(12, 12) << 8 | b(11, 10) << 3 | b(6, 5) << 6 | b(4, 3) << 1 | b(2, 2) << 5) as u64,
            9,
        ) as u32;
        bits(o, 12, 12) << 31
            | bits(o, 10, 5) << 25
            | rs1p << 15
            | f3 << 12
            | bits(o, 4, 1) << 8
            | bits(o, 11, 11) << 7
            | 0x63
    };
    let shift_ok = rv64 || shamt < 32;
    match (h & 3, b(15, 13)) {
        (0, 0) => {
            let imm = b(12, 11) << 4 | b(10, 7) << 6 | b(6, 6) << 2 | b(5, 5) << 3;
            if imm == 0 {
                return None;
            }
            Some(i_type(imm, 2, 0, rdp, 0x13))
        }
        (0, 2) | (0, 6) => {
            let imm = b(12, 10) << 3 | b(6, 6) << 2 | b(5, 5) << 6;
            Some(if b(15, 13) == 2 {
                i_type(imm, rs1p, 2, rdp, 0x03)
            } else {
                s_type(imm, rdp, rs1p, 2)
            })
        }
        (0, 3) | (0, 7) if rv64 => {
            let imm = b(12, 10) << 3 | b(6, 5) << 6;
            Some(if b(15, 13) == 3 {
                i_type(imm, rs1p, 3, rdp, 0x03)
            } else {
                s_type(imm, rdp, rs1p, 3)
            })
        }
        (1, 0) => Some(i_type(imm6, rd, 0, rd, 0x13)),
        (1, 1) if rv64 => {
            if rd == 0 {
                return None;
            }
            Some(i_type(imm6, rd, 0, rd, 0x1b))
        }
        (1, 1) => Some(jal(1)),
        (1, 2) => Some(i_type(imm6, 0, 0, rd, 0x13)),
        (1, 3) if rd == 2 => {
            let imm = sext(
                (b(12, 12) << 9 | b(6, 6) << 4 | b(5, 5) << 6 | b(4, 3) << 7 | b(2, 2) << 5) as u64,
                10,
            ) as u32;
            if imm == 0 {
                return None;
            }
            Some(i_type(imm, 2, 0, 2, 0x13))
        }
        (1, 3) => {
            if imm6 == 0 {
                return None;
            }
            Some(imm6 << 12 | rd << 7 | 0x37)
        }
        (1, 4) => match b(11, 10) {
            0 if shift_ok => Some(i_type(shamt, rs1p, 5, rs1p, 0x13)),
            1 if shift_ok => Some(i_type(0x400 | shamt, rs1p, 5, rs1p, 0x13)),
            2 => Some(i_type(imm6, rs1p, 7, rs1p, 0x13)),
            3 => match (b(12, 12), b(6, 5)) {
                (0, 0) => Some(r_type(0x20, rdp, rs1p, 0, rs1p, 0x33)),
                (0, 1) => Some(r_type(0, rdp, rs1p, 4, rs1p, 0x33)),
                (0, 2) => Some(r_type(0, rdp, rs1p, 6, rs1p, 0x33)),
                (0, 3) => Some(r_type(0, rdp, rs1p, 7, rs1p, 0x33)),
                (1, 0) if rv64 => Some(r_type(0x20, rdp, rs1p, 0, rs1p, 0x3b)),
                (1, 1) if rv64 => Some(r_type(0, rdp, rs1p, 0, rs1p, 0x3b)),
                _ => None,
            },
            _ => None,
        },
        (1, 5) => Some(jal(0)),
        (1, 6) => Some(branch(0)),
        (1, 7) => Some(branch(1)),
        (2, 0) if shift_ok => Some(i_type(shamt, rd, 1, rd, 0x13)),
        (2, 2) => {
            if rd == 0 {
                return None;
            }
            Some(i_type(
                b(12, 12) << 5 | b(6, 4) << 2 | b(3, 2) << 6,
                2,
                2,
                rd,
                0x03,
            ))
        }
        (2, 3) if rv64 => {
            if rd == 0 {
                return None;
            }
            Some(i_type(
                b(12, 12) << 5 | b(6, 5) << 3 | b(4, 2) << 6,
                2,
                3,
                rd,
                0x03,
            ))
        }
        (2, 4) => match (b(12, 12), rd, rs2) {
            (0, 0, 0) => None,
            (0, _, 0) => Some(i_type(0, rd, 0, 0, 0x67)),
            (0, _, _) => Some(r_type(0, rs2, 0, 0, rd, 0x33)),
            (1, 0, 0) => Some(0x0010_0073),
            (1, _, 0) => Some(i_type(0, rd, 0, 1, 0x67)),
            _ => Some(r_type(0, rs2, rd, 0, rd, 0x33)),
        },
        (2, 6) => Some(s_type(b(12, 9) << 2 | b(8, 7) << 6, rs2, 2, 2)),
        (2, 7) if rv64 => Some(s_type(b(12, 10) << 3 | b(9, 7) << 6, rs2, 2, 3)),
        _ => None,
    }
}
