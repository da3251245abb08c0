//! P22: containment. Every instruction sequence up to a depth over an alphabet of everything
//! user and supervisor code can try, from many machine configurations, on the real Cpu. The
//! invariants are checked on the implementation's own state before and after each instruction.
use crate::asm::*;
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::imp::{Imp, StepRes, MSIP, MTIMECMP};
use crate::model::{Hart, Ram, SST_DEFINED};
use carron::bus::Device;

const UCODE: u64 = 0x8000_0000;
const SCODE: u64 = 0x8000_1000;
const MMEM: u64 = 0x8000_2000; // 8 KiB, machine only
const UDATA: u64 = 0x8000_4000;
const SDATA: u64 = 0x8000_5000;
const RO: u64 = 0x8000_6000;
const ALIAS: u64 = 0x8000_7000; // another name of MMEM
const TABLES: u64 = 0x8001_0000;
/// what fills machine memory and supervisor data
const M_SECRET: u8 = 0xa7;
const S_SECRET: u8 = 0xb6;
const MEND: u64 = MMEM + 0x1000;

const M_CSRS: &[usize] = &[
    0x301, 0x302, 0x303, 0x305, 0x306, 0x340, 0x341, 0x342, 0x343, 0x3a0, 0x3a1, 0x3a2, 0x3a3,
    0x3b0, 0x3b1, 0x3b2, 0x3b3, 0x3bf, 0x7a0, 0x7a1, 0x7a2, 0xf14,
];
const S_CSRS: &[usize] = &[0x105, 0x106, 0x140, 0x141, 0x142, 0x143, 0x180];

/// UIE and UPIE
const U_FIELDS: u64 = 0x11;

#[derive(Clone, PartialEq)]
struct Snap {
    pc: u64,
    prv: u8,
    mstatus: u64,
    mie: u64,
    mip: u64,
    m: Vec<u64>,
    s: Vec<u64>,
    x: [u64; 32],
}
fn odd_pmp(xlen: u32, n: usize) -> bool {
    xlen == 64 && (0x3a0..0x3a4).contains(&n) && n % 2 == 1
}
fn snap(imp: &Imp) -> Snap {
    let mut x = [0; 32];
    for (k, v) in x.iter_mut().enumerate() {
        *v = imp.x(k);
    }
    let rd = |n: &usize| {
        if odd_pmp(imp.xlen, *n) {
            0
        } else {
            imp.csr(*n)
        }
    };
    Snap {
        pc: imp.pc(),
        prv: imp.cpu.verif_priv(),
        mstatus: imp.csr(0x300),
        mie: imp.csr(0x304),
        mip: imp.csr(0x344),
        m: M_CSRS.iter().map(rd).collect(),
        s: S_CSRS.iter().map(rd).collect(),
        x,
    }
}
impl Snap {
    fn mcsr(&self, n: usize) -> u64 {
        self.m[M_CSRS.iter().position(|&k| k == n).unwrap()]
    }
    fn scsr(&self, n: usize) -> u64 {
        self.s[S_CSRS.iter().position(|&k| k == n).unwrap()]
    }
}

fn same(what: &str, names: &[usize], a: &[u64], b: &[u64], except: &[usize]) -> Result<(), String> {
    for (k, &n) in names.iter().enumerate() {
        if a[k] != b[k] && !except.contains(&n) {
            return Err(format!(
                "{what}: csr {n:#x} changed from {:#x} to {:#x}",
                a[k], b[k]
            ));
        }
    }
    Ok(())
}
fn masked(what: &str, a: u64, b: u64, may: u64) -> Result<(), String> {
    if (a ^ b) & !may != 0 {
        return Err(format!("{what} changed from {a:#x} to {b:#x}"));
    }
    Ok(())
}

/// One step from below machine mode. `insn`: what was executed, when known.
fn invariant(xlen: u32, o: &Snap, n: &Snap, insn: Option<u32>) -> Result<(), String> {
    let top = xlen - 1;
    let sd = 1u64 << top;
    // the reserved modes of the trap vector leave the address open
    let vector = |tvec: u64, cause: u64, pc: u64| -> u64 {
        let base = tvec & !3;
        if tvec & 2 != 0 {
            pc
        } else if tvec & 3 == 1 && cause >> top & 1 == 1 {
            base + 4 * (cause & 0xff)
        } else {
            base
        }
    };
    let name = |p: u8| ["user", "supervisor", "?", "machine"][p as usize];
    // what has to trap
    if let Some(i) = insn {
        let c = i >> 20;
        let f3 = i >> 12 & 7;
        let is_csr = i & 0x7f == 0x73 && f3 & 3 != 0;
        let need = if is_csr && (c >> 8 & 3) as u8 > o.prv {
            Some("access to a more privileged CSR")
        } else if is_csr && c == 0x180 && o.prv == 1 && o.mstatus >> 20 & 1 == 1 {
            Some("satp access with TVM set")
        } else if i == MRET {
            Some("mret")
        } else if i == SRET && (o.prv == 0 || o.mstatus >> 22 & 1 == 1) {
            Some("sret")
        } else if i & 0xfe00_7fff == SFENCE && (o.prv == 0 || o.mstatus >> 20 & 1 == 1) {
            Some("sfence.vma")
        } else if i == ECALL {
            Some("ecall")
        } else {
            None
        };
        if let Some(w) = need {
            // a trap to the same level: supervisor handling its own exceptions
            let own = o.prv == 1
                && n.prv == 1
                && n.pc == vector(n.scsr(0x105), n.scsr(0x142), n.pc)
                && n.scsr(0x141) == o.pc;
            if n.prv <= o.prv && !own {
                return Err(format!("{w} in {} mode does not trap", name(o.prv)));
            }
        }
    }
    let trap_mst: u64;
    if n.prv > o.prv {
        if o.x != n.x {
            return Err("a trap changes general registers".into());
        }
        if n.prv == 3 {
            trap_mst = 0x1888;
            let (cause, epc) = (n.mcsr(0x342), n.mcsr(0x341));
            if n.pc != vector(o.mcsr(0x305), cause, n.pc) || epc != o.pc {
                return Err(format!(
                    "machine mode is entered at {:#x} with mepc {epc:#x} from {:#x}, mtvec {:#x}",
                    n.pc,
                    o.pc,
                    o.mcsr(0x305)
                ));
            }
            let (mpp, mpie, mie) = (
                (n.mstatus >> 11 & 3) as u8,
                n.mstatus >> 7 & 1,
                n.mstatus >> 3 & 1,
            );
            if mpp != o.prv || mpie != o.mstatus >> 3 & 1 || mie != 0 {
                return Err(format!(
                    "mstatus is {:#x} after {:#x}",
                    n.mstatus, o.mstatus
                ));
            }
            let deleg = if cause >> top & 1 == 1 {
                o.mcsr(0x303)
            } else {
                o.mcsr(0x302)
            };
            if deleg >> (cause & 31) & 1 == 1 {
                return Err(format!("machine mode takes the delegated cause {cause:#x}"));
            }
            same(
                "trap to machine mode",
                M_CSRS,
                &o.m,
                &n.m,
                &[0x341, 0x342, 0x343],
            )?;
            same("trap to machine mode", S_CSRS, &o.s, &n.s, &[])?;
        } else {
            trap_mst = 0x122;
            let (cause, epc) = (n.scsr(0x142), n.scsr(0x141));
            if n.pc != vector(o.scsr(0x105), cause, n.pc) || epc != o.pc {
                return Err(format!(
                    "supervisor mode is entered at {:#x} with sepc {epc:#x} from {:#x}, stvec {:#x}",
                    n.pc, o.pc, o.scsr(0x105)
                ));
            }
            let (spp, spie, sie) = (n.mstatus >> 8 & 1, n.mstatus >> 5 & 1, n.mstatus >> 1 & 1);
            if spp != 0 || spie != o.mstatus >> 1 & 1 || sie != 0 {
                return Err(format!(
                    "mstatus is {:#x} after {:#x}",
                    n.mstatus, o.mstatus
                ));
            }
            let deleg = if cause >> top & 1 == 1 {
                o.mcsr(0x303)
            } else {
                o.mcsr(0x302)
            };
            if deleg >> (cause & 31) & 1 == 0 {
                return Err(format!(
                    "supervisor mode takes cause {cause:#x}, which is not delegated"
                ));
            }
            same("trap to supervisor mode", M_CSRS, &o.m, &n.m, &[])?;
            same(
                "trap to supervisor mode",
                S_CSRS,
                &o.s,
                &n.s,
                &[0x141, 0x142, 0x143],
            )?;
        }
        masked("trap: mstatus", o.mstatus, n.mstatus, trap_mst)?;
        masked("trap: mie", o.mie, n.mie, 0)?;
    } else if o.prv == 0 {
        same("user mode", M_CSRS, &o.m, &n.m, &[])?;
        same("user mode", S_CSRS, &o.s, &n.s, &[])?;
        // ustatus shows the two user-level interrupt bits
        masked("user mode: mstatus", o.mstatus, n.mstatus, U_FIELDS)?;
        masked("user mode: mie", o.mie, n.mie, 0)?;
    } else {
        same("supervisor mode", M_CSRS, &o.m, &n.m, &[])?;
        let sret = insn.is_none_or(|i| i == SRET);
        if n.prv == 0 && (!sret || o.mstatus >> 8 & 1 != 0) {
            return Err("supervisor mode falls to user mode".into());
        }
        let mprv = if sret { 1 << 17 } else { 0 };
        masked(
            "supervisor mode: mstatus",
            o.mstatus,
            n.mstatus,
            SST_DEFINED | sd | mprv | U_FIELDS | 3 << 15,
        )?;
        masked("supervisor mode: mie", o.mie, n.mie, o.mcsr(0x303))?;
        // of the pending bits only the delegated software interrupt is writable
        masked("supervisor mode: mip", o.mip, n.mip, o.mcsr(0x303) & 2)?;
    }
    if o.prv == 0 || n.prv > o.prv {
        masked("mip", o.mip, n.mip, 0)?;
    }
    Ok(())
}

const MEM_REGS: &[(u32, u64)] = &[
    (10, UDATA + 0x10),
    (11, SDATA + 0x10),
    (12, MMEM + 0x10),
    (13, ALIAS + 0x10),
    (14, TABLES),
    (15, MSIP),
    (16, MTIMECMP),
    (18, RO + 0x10),
    (19, MMEM - 4),
    (20, 0x1000),
];

/// v as loaded from bytes of value s
fn secret(s: u8, v: u64, xlen: u32) -> bool {
    let s = s as u64;
    let all = 0x0101_0101_0101_0101 * s;
    [8u32, 16, 32, 64].iter().filter(|&&n| n <= xlen).any(|&n| {
        let p = all >> (64 - n);
        let sx = crate::model::sext(p, n) & if xlen == 32 { 0xffff_ffff } else { u64::MAX };
        v == p || v == sx
    })
}

struct World {
    h: Hart,
    ram: Ram,
    lines: u64,
    paging: bool,
}

/// The configurations: bit 0 mode, 1 translation, 2 delegation, 3 pending interrupts, 4 TVM/TW/TSR,
/// 5 vectored trap tables and MXR/SUM.
fn world(xlen: u32, cfg: usize) -> World {
    let bit = |k: usize| cfg >> k & 1 == 1;
    let (sup, paging, deleg, ints, hyper, vec) = (bit(0), bit(1), bit(2), bit(3), bit(4), bit(5));
    let mut h = Hart::new(xlen);
    let mut ram = Ram::default();
    h.prv = sup as u8;
    h.pc = if sup { SCODE } else { UCODE } + 0x40;
    h.mtvec = MEND | vec as u64;
    h.stvec = (SCODE + 0x800) | vec as u64;
    if deleg {
        h.medeleg = 0xb1ff;
        h.mideleg = 0x222;
    }
    let mut lines = 0;
    h.mstatus = 0x80; // MPIE
    if ints {
        h.mie = 0x222;
        h.mip = 0x202;
        lines = 0x200;
        h.mstatus |= 2;
    }
    if hyper {
        h.mstatus |= 7 << 20;
    }
    if vec {
        h.mstatus |= 3 << 18;
    }
    h.mcounteren = 7;
    h.scounteren = 7;
    h.mscratch = 0x5151;
    h.sscratch = 0x6161;
    h.mepc = MEND + 0x40;
    h.sepc = UCODE + 0x80;
    // machine memory is closed, the first 128 KiB of RAM are open, devices are closed
    h.pmpaddr[0] = (MMEM >> 2) | 0x3ff;
    h.pmpcfg[0] = 0x18;
    h.pmpaddr[1] = (UCODE >> 2) | 0x3fff;
    h.pmpcfg[1] = 0x1f;
    for (a, b) in [(MMEM, M_SECRET), (SDATA, S_SECRET)] {
        for k in 0..0x30 {
            ram.put(a + k, 1, b as u64);
        }
    }
    for k in 0..0x30 {
        ram.put(RO + k, 1, 0x33);
        ram.put(UDATA + k, 1, 0x44);
    }
    if paging {
        let sz = xlen as u64 / 8;
        // the tables of the 4 KiB pages around RAM's base; the last level is at TABLES + 0x2000
        let last = TABLES + 0x2000;
        if xlen == 32 {
            ram.put(TABLES + 4 * 0x200, 4, last >> 2 | 1);
            h.satp = 1 << 31 | TABLES >> 12;
        } else {
            ram.put(TABLES + 8 * 2, 8, (TABLES + 0x1000) >> 2 | 1);
            ram.put(TABLES + 0x1000, 8, last >> 2 | 1);
            h.satp = 8 << 60 | TABLES >> 12;
        }
        let mut page = |va: u64, pa: u64, flags: u64| {
            ram.put(last + (va >> 12 & 0x1ff) * sz, sz, pa >> 2 | flags | 0xc1);
        };
        const R: u64 = 2;
        const W: u64 = 4;
        const X: u64 = 8;
        const U: u64 = 16;
        page(UCODE, UCODE, U | R | X);
        page(SCODE, SCODE, R | X);
        page(MMEM, MMEM, U | R | W | X);
        page(MEND, MEND, R | W | X);
        page(UDATA, UDATA, U | R | W);
        page(SDATA, SDATA, R | W);
        page(RO, RO, U | R);
        page(ALIAS, MMEM, U | R | W | X);
        page(TABLES, TABLES, R);
    }
    for &(r, v) in MEM_REGS {
        h.x[r as usize] = v;
    }
    let w = |v: u64| if xlen == 32 { v & 0xffff_ffff } else { v };
    h.x[21] = w(u64::MAX);
    h.x[22] = w(0x1888 | 1 << 17);
    h.x[24] = SCODE + 0x40;
    h.x[25] = MEND + 0x40;
    World {
        h,
        ram,
        lines,
        paging,
    }
}

/// The bytes that must stay as they are.
fn guarded(prv: u8, paging: bool) -> Vec<(u64, u64)> {
    let mut v = vec![(MMEM, 0x40), (MEND, 0x50)];
    if paging {
        v.push((RO, 0x40));
        v.push((TABLES + 0x2000, 0x80));
        v.push((TABLES, 0x20));
        v.push((TABLES + 0x800, 8));
        if prv == 0 {
            v.push((SDATA, 0x40));
            v.push((SCODE, 0x20));
        }
    }
    v
}

fn sequence(cx: &mut Ctx, w: &World, seq: &[u32], label: &str) -> CaseResult {
    let xlen = w.h.xlen;
    let imp = cx.imp(xlen);
    imp.lines(w.lines);
    imp.load(&w.h);
    imp.load_ram(&w.ram);
    let mut placed: Vec<u64> = vec![];
    let mut k = 0;
    let mut steps = 0;
    let mut res = Ok(());
    let mut o = snap(imp);
    let mut states = vec![];
    let mem_of = |imp: &Imp, prv: u8, paging: bool| -> Vec<u8> {
        guarded(prv, paging)
            .iter()
            .flat_map(|&(a, n)| (a..a + n).map(|x| imp.get8(x)).collect::<Vec<_>>())
            .collect()
    };
    while k < seq.len() && steps < 3 * seq.len() + 3 {
        steps += 1;
        if o.prv == 3 {
            // the firmware returns at once; interrupts stay off from now on
            imp.set_csr(0x304, 0);
            for i in 0..4 {
                imp.put8(o.pc + i, (MRET >> (8 * i)) as u8);
                placed.push(o.pc + i);
            }
            if !matches!(imp.step(), StepRes::Ok) {
                res = bad("abort", "mret panics");
                break;
            }
            let back = imp.cpu.verif_priv();
            if back == 3 {
                break;
            }
            for i in 0..4 {
                imp.put8(o.pc + i, 0);
            }
            o = snap(imp);
            continue;
        }
        let page = o.pc & !0xfff;
        let i = seq[k];
        let here = page == UCODE || page == SCODE;
        if here {
            let n = if i & 3 == 3 { 4 } else { 2 };
            for j in 0..n {
                imp.put8(o.pc + j, (i >> (8 * j)) as u8);
                placed.push(o.pc + j);
            }
        }
        // supervisor code may have switched translation off
        let paging = w.paging && o.scsr(0x180) == w.h.satp;
        let before = mem_of(imp, o.prv, paging);
        let dev = (
            imp.cpu.bus.clint.load32(MSIP).ok(),
            imp.cpu.bus.clint.load64(MTIMECMP).ok(),
        );
        k += 1;
        if let StepRes::Panic(m) = imp.step() {
            res = bad("abort", format!("after {k} instructions: panic {m}"));
            break;
        }
        let n = snap(imp);
        states.push((n.pc, n.prv, n.mstatus, n.mip, n.mie));
        // an interrupt means the instruction did not run
        let (mc, sc) = (n.mcsr(0x342), n.scsr(0x142));
        let top = xlen - 1;
        let by_int = (n.prv == 3 && mc >> top == 1)
            || (n.prv == 1
                && n.scsr(0x141) == o.pc
                && sc >> top == 1
                && n.pc & !0xff == SCODE + 0x800);
        let known = here && !by_int;
        let r = invariant(xlen, &o, &n, known.then_some(i)).and_then(|()| {
            if mem_of(imp, o.prv, paging) != before {
                return Err("memory this mode may not write has changed".to_string());
            }
            if dev
                != (
                    imp.cpu.bus.clint.load32(MSIP).ok(),
                    imp.cpu.bus.clint.load64(MTIMECMP).ok(),
                )
            {
                return Err("a device closed by PMP has changed".to_string());
            }
            let mut closed = vec![M_SECRET];
            if o.prv == 0 && paging {
                closed.push(S_SECRET);
            }
            for b in closed {
                if let Some(r) = (1..32).find(|&r| n.x[r] != o.x[r] && secret(b, n.x[r], xlen)) {
                    return Err(format!(
                        "x{r} holds {:#x}, which this mode may not read",
                        n.x[r]
                    ));
                }
            }
            Ok(())
        });
        if let Err(m) = r {
            res = bad(
                label.to_string(),
                format!(
                    "in {} mode at {:#x}, instruction {}: {m}",
                    ["user", "supervisor"][o.prv as usize],
                    o.pc,
                    if known {
                        format!("{i:#x}")
                    } else {
                        "fetch or interrupt".into()
                    }
                ),
            );
            break;
        }
        o = n;
    }
    let imp = cx.imp(xlen);
    for a in placed {
        imp.put8(a, 0);
    }
    // writable memory goes back too
    for b in [UDATA, SDATA, RO, MMEM - 0x10, ALIAS, TABLES] {
        for x in b..b + 0x70 {
            imp.put8(x, 0);
        }
    }
    imp.clear_ram(&w.ram);
    for s in &states {
        cx.step_done();
        cx.state(s);
    }
    cx.trace_done();
    if matches!(&res, Err((k, _)) if k == "abort") {
        cx.drop_imp(xlen);
    }
    res.map_err(|(k, t)| {
        let s: Vec<String> = seq.iter().map(|i| format!("{i:#x}")).collect();
        (
            k,
            format!(
                "{}\nsequence: {}\n{t}",
                crate::lock::fmt_hart(&w.h),
                s.join(", ")
            ),
        )
    })
}

const CSR_LIST: &[u32] = &[
    0x100, 0x104, 0x105, 0x106, 0x140, 0x141, 0x142, 0x143, 0x144, 0x180, 0x300, 0x301, 0x302,
    0x303, 0x304, 0x305, 0x306, 0x340, 0x341, 0x342, 0x343, 0x344, 0x3a0, 0x3b0, 0x3b1, 0x7a0,
    0x7a1, 0x7a2, 0xc00, 0xc01, 0xc02, 0xb00, 0xf14,
];

/// everything, or (small) the part used at greater depth
fn alphabet(xlen: u32, small: bool) -> Vec<u32> {
    let mut v = vec![
        ECALL,
        EBREAK,
        MRET,
        SRET,
        WFI,
        SFENCE,
        0xffff_ffff,
        0x0000_100f,
        NOP,
        r(0, 0, 0, 0, 0, 0x73) | 0x0020_0000, // uret
    ];
    for &(p, _) in MEM_REGS {
        v.push(load(2, 5, p, 0));
        v.push(store(2, 21, p, 0));
        v.push(amo(1, 4, 5, p, 21)); // amoswap
        if !small {
            v.push(load(4, 5, p, 1));
            v.push(store(0, 21, p, 1));
            v.push(amo(2, 4, 5, p, 0));
            v.push(amo(3, 4, 6, p, 21));
            if xlen == 64 {
                v.push(amo(0, 8, 5, p, 21));
                v.push(amo(2, 8, 5, p, 0));
                v.push(amo(3, 8, 6, p, 21));
                v.push(load(3, 5, p, 0));
                v.push(store(3, 21, p, 8));
            }
            if (8..16).contains(&p) {
                // c.lw, c.sw
                v.push(0x4000 | (p - 8) << 7 | 1 << 2);
                v.push(0xc000 | (p - 8) << 7 | 1 << 2);
            }
        }
    }
    for p in [10, 11, 12, 13, 18, 24, 25] {
        v.push(i(0, p, 0, 1, 0x67));
    }
    for &c in CSR_LIST {
        if small && (0x3a0..0x3c0).contains(&c) {
            continue;
        }
        v.push(csr(1, 5, c, 21));
        if small && c >= 0x300 {
            continue;
        }
        v.push(csr(3, 5, c, 21));
        v.push(csr(2, 5, c, 22));
        if !small {
            v.push(csr(2, 5, c, 0));
            v.push(csr(5, 5, c, 0));
            v.push(csr(6, 0, c, 31));
        }
    }
    v
}

pub fn run(r: &Report) {
    r.note("after a trap into machine mode the firmware returns at once with interrupts off");
    r.note("machine memory and devices are closed by PMP; page tables are read-only for supervisor code and closed to user code");
    let th = r.thorough;
    for xlen in [32u32, 64] {
        let all = alphabet(xlen, false);
        let small = alphabet(xlen, true);
        let worlds: Vec<World> = (0..64).map(|c| world(xlen, c)).collect();
        // quick: half of the worlds; whether trap tables are vectored goes with the parity
        let wn = if th { 64 } else { 32 };
        let pick = |k: usize| {
            if th {
                k
            } else {
                k | (k.count_ones() as usize & 1) << 5
            }
        };
        // every SYSTEM instruction with a few operand choices
        r.space(&format!("system{xlen}"), &[wn, 4096, 8, 3], |c, d| {
            let (rd, rs) = [(0, 0), (5, 21), (0, 21)][d[3]];
            let i = (d[1] as u32) << 20 | rs << 15 | (d[2] as u32) << 12 | rd << 7 | 0x73;
            sequence(c, &worlds[pick(d[0])], &[i], "system")
        });
        // every 16-bit instruction
        let step = if th { 1 } else { 4 };
        r.space(
            &format!("compressed{xlen}"),
            &[64 / step, 0xc000],
            |c, d| {
                let q = (d[1] as u32) / 0x4000;
                let i = (d[1] as u32 & 0x3fff) << 2 | q;
                sequence(c, &worlds[d[0] * step + d[1] % step], &[i], "compressed")
            },
        );
        let n = all.len();
        r.space(&format!("pairs{xlen}"), &[wn, n, n], |c, d| {
            sequence(c, &worlds[pick(d[0])], &[all[d[1]], all[d[2]]], "pair")
        });
        let n = small.len();
        let worlds_n = if th { 64 } else { 2 };
        r.space(&format!("triples{xlen}"), &[worlds_n, n, n, n], |c, d| {
            // quick: user code with everything delegated, supervisor code without
            let cfg = if th { d[0] } else { [14, 3][d[0]] };
            sequence(
                c,
                &worlds[cfg],
                &[small[d[1]], small[d[2]], small[d[3]]],
                "triple",
            )
        });
    }
}
