//! P17: every physical access reaches its owner or faults.
use crate::asm::*;
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::imp::{Imp, StepRes, MSIP, PLIC};
use std::cell::RefCell;
use std::collections::HashMap;

const UART: u64 = 0x1000_0000;
const CLINT: u64 = 0x0200_0000;
const RAM_SIZE: u64 = 1 << 31;
const MROM: u64 = 0x1000;

thread_local! {
    static IMPS: RefCell<HashMap<(u32, u64), Imp>> = RefCell::new(HashMap::new());
}

fn make(xlen: u32, base: u64) -> Imp {
    let image = crate::elf::Elf::new(xlen).seg(base, vec![0; 4], 4).build();
    Imp::with_image(xlen, &image)
}
fn with_imp<R>(xlen: u32, base: u64, f: impl FnOnce(&mut Imp) -> R) -> R {
    let mut imp = IMPS
        .with(|m| m.borrow_mut().remove(&(xlen, base)))
        .unwrap_or_else(|| make(xlen, base));
    let r = f(&mut imp);
    IMPS.with(|m| m.borrow_mut().insert((xlen, base), imp));
    r
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Reg {
    Mrom,
    Clint,
    Uart,
    Plic,
    Ram,
    None,
}

struct Map {
    base: u64,
    rom: u64,
}
impl Map {
    fn at(&self, a: u64) -> Reg {
        let within = |b: u64, n: u64| a >= b && a - b < n;
        if within(MROM, self.rom) {
            Reg::Mrom
        } else if within(CLINT, 0x1_0000) {
            Reg::Clint
        } else if within(UART, 0x100) {
            Reg::Uart
        } else if within(PLIC, 0x100_0000) {
            Reg::Plic
        } else if within(self.base, RAM_SIZE) {
            Reg::Ram
        } else {
            Reg::None
        }
    }
    /// None when the bytes do not belong to one region
    fn span(&self, a: u64, n: u64) -> Reg {
        let last = a.wrapping_add(n - 1);
        let r = self.at(a);
        if self.at(last) == r && last >= a {
            r
        } else {
            Reg::None
        }
    }
    fn boundaries(&self) -> Vec<u64> {
        vec![
            MROM,
            MROM + self.rom,
            CLINT,
            CLINT + 0x1_0000,
            UART,
            UART + 0x100,
            PLIC,
            PLIC + 0x100_0000,
            self.base,
            self.base.wrapping_add(RAM_SIZE),
        ]
    }
}
/// the length of the boot ROM, as the bus answers
fn rom_len(imp: &mut Imp) -> u64 {
    (0..0x10000)
        .take_while(|&k| imp.cpu.bus.load8(MROM + k).is_ok())
        .count() as u64
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
enum Kind {
    Load { f3: u32, size: u64, c: bool },
    Store { size: u64, c: bool },
    Lr(u64),
    Sc(u64),
    Amo(u64),
}
use Kind::*;
fn kinds(xlen: u32) -> Vec<Kind> {
    let mut v = vec![
        Load {
            f3: 0,
            size: 1,
            c: false,
        },
        Load {
            f3: 4,
            size: 1,
            c: false,
        },
        Load {
            f3: 1,
            size: 2,
            c: false,
        },
        Load {
            f3: 5,
            size: 2,
            c: false,
        },
        Load {
            f3: 2,
            size: 4,
            c: false,
        },
        Load {
            f3: 2,
            size: 4,
            c: true,
        },
        Store { size: 1, c: false },
        Store { size: 2, c: false },
        Store { size: 4, c: false },
        Store { size: 4, c: true },
        Lr(4),
        Sc(4),
        Amo(4),
    ];
    if xlen == 64 {
        v.extend([
            Load {
                f3: 6,
                size: 4,
                c: false,
            },
            Load {
                f3: 3,
                size: 8,
                c: false,
            },
            Load {
                f3: 3,
                size: 8,
                c: true,
            },
            Store { size: 8, c: false },
            Store { size: 8, c: true },
            Lr(8),
            Sc(8),
            Amo(8),
        ]);
    }
    v
}
fn size(k: Kind) -> u64 {
    match k {
        Load { size, .. } | Store { size, .. } | Lr(size) | Sc(size) | Amo(size) => size,
    }
}
fn is_store(k: Kind) -> bool {
    !matches!(k, Load { .. } | Lr(_))
}
/// x8 base, x9 data / destination (compressed forms use the same)
fn encode(k: Kind) -> (u32, u64) {
    let lg = |s: u64| s.trailing_zeros();
    match k {
        Load { f3, c: false, .. } => (load(f3, 9, 8, 0), 4),
        Store { size, c: false } => (store(lg(size), 9, 8, 0), 4),
        Load { size: 4, .. } => (0x4004, 2),
        Load { .. } => (0x6004, 2),
        Store { size: 4, .. } => (0xc004, 2),
        Store { .. } => (0xe004, 2),
        Lr(s) => (amo(2, s, 9, 8, 0), 4),
        Sc(s) => (amo(3, s, 9, 8, 10), 4),
        Amo(s) => (amo(1, s, 9, 8, 10), 4),
    }
}
const DATA: u64 = 0x8877_6655_c3b2_a190;

/// A device-independent snapshot of what must not change.
fn quiet(imp: &mut Imp, ring: &[u64]) {
    let b = &mut imp.cpu.bus;
    for (o, v) in [(4u64, 0x18u64), (3, 3), (2, 7), (1, 0), (7, 0x77)] {
        let _ = b.store8(UART + o, v);
    }
    let _ = b.store32(MSIP, 0);
    for k in 0..8u64 {
        let _ = b.store64(CLINT + 0x100 + 8 * k, 0x1111_2222_3333_4400 + k);
    }
    let _ = b.store64(CLINT, 0);
    let _ = b.store64(CLINT + 0xfff8, 0x0102_0304_0506_0708);
    imp.timer(0, u64::MAX);
    for &a in ring {
        imp.put8(a, (a * 7 + 3) as u8);
    }
}

struct Obs {
    rom: Vec<u8>,
    clint: Vec<u64>,
    plic: Vec<u64>,
    uart: Vec<u64>,
}
fn observe(imp: &mut Imp, rom: u64, near: u64) -> Obs {
    let b = &mut imp.cpu.bus;
    let e = |r: Result<u64, _>| r.unwrap_or(0xdead_dead);
    let mut cl = vec![0u64, 0x100, 0x108, 0x138, 0x4000, 0xbff8, 0xfff8];
    if near >= CLINT && near < CLINT + 0x1_0000 {
        let o = (near - CLINT) & !7;
        cl.extend([o.saturating_sub(8), o, (o + 8).min(0xfff8)]);
    }
    let mut pl = vec![4u64, 8, 0x7c, 0x2000, 0x2080, 0x20_0000, 0x20_1000];
    if near >= PLIC && near < PLIC + 0x100_0000 {
        pl.extend([0x2004]);
    }
    Obs {
        rom: (0..rom)
            .map(|k| b.load8(MROM + k).map_err(|_| ()).unwrap_or(0x1ff) as u8)
            .collect(),
        clint: cl
            .iter()
            .map(|&o| e(b.load64(CLINT + o).map_err(|_| ())))
            .collect(),
        plic: pl
            .iter()
            .map(|&o| e(b.load32(PLIC + o).map_err(|_| ())))
            .collect(),
        uart: [1u64, 3, 4, 7]
            .iter()
            .map(|&o| e(b.load8(UART + o).map_err(|_| ())))
            .collect(),
    }
}

struct Acc {
    xlen: u32,
    base: u64,
    va: u64,
    pa: u64,
    kind: Kind,
    /// Some(satp, table bytes): run from supervisor mode
    paged: Option<(u64, Vec<(u64, u64, u64)>)>,
}

fn access(ctx: &mut Ctx, a: &Acc) -> CaseResult {
    let (xlen, base, k) = (a.xlen, a.base, a.kind);
    let sz = size(k);
    let code = base + 0x4000;
    let tvec = base + 0x5000;
    let res = with_imp(xlen, base, |imp| {
        let map = Map {
            base,
            rom: rom_len(imp),
        };
        let top = base + RAM_SIZE;
        let ring: Vec<u64> = (base..base + 80)
            .chain(top - 80..top)
            .chain(if map.at(a.pa) == Reg::Ram {
                a.pa.saturating_sub(16).max(base)..(a.pa + 24).min(top)
            } else {
                0..0
            })
            .filter(|x| !(code..code + 8).contains(x))
            .collect();
        imp.lines(0);
        quiet(imp, &ring);
        let c = &mut imp.cpu;
        c.verif_set_pc(0);
        c.verif_reset();
        c.verif_set_csr(0x305, tvec);
        c.regs.write(Some(8), a.va);
        c.regs.write(Some(9), DATA);
        c.regs.write(Some(10), DATA);
        c.verif_set_pc(code);
        if let Some((satp, tables)) = &a.paged {
            for &(p, n, v) in tables {
                for j in 0..n {
                    imp.put8(p + j, (v >> (8 * j)) as u8);
                }
            }
            // supervisor code needs an open protection entry
            imp.set_csr(0x3b0, u64::MAX >> 10);
            imp.set_csr(0x3a0, 0x1f);
            imp.set_csr(0x180, *satp);
            imp.cpu.verif_set_priv(1);
        }
        let (w, len) = encode(k);
        for j in 0..len {
            imp.put8(code + j, (w >> (8 * j)) as u8);
        }
        let before = observe(imp, map.rom, a.pa);
        let ram0: Vec<u8> = ring.iter().map(|&x| imp.get8(x)).collect();
        let old: Vec<u8> = match map.span(a.pa, sz) {
            Reg::Ram => (0..sz).map(|j| imp.get8(a.pa + j)).collect(),
            Reg::Mrom => (0..sz)
                .map(|j| before.rom[(a.pa - MROM + j) as usize])
                .collect(),
            _ => vec![],
        };
        let words = match map.span(a.pa, sz) {
            Reg::Clint if sz >= 4 && a.pa % sz == 0 => {
                let v = imp.cpu.bus.load64(a.pa & !7).unwrap_or(0);
                Some(if sz == 8 {
                    v
                } else {
                    v >> (8 * (a.pa & 4)) & 0xffff_ffff
                })
            }
            _ => None,
        };
        if let StepRes::Panic(p) = imp.step() {
            // the device may be inconsistent: build a fresh machine
            *imp = make(xlen, base);
            return bad("abort", format!("the emulator aborts: {p}"));
        }
        let after = observe(imp, map.rom, a.pa);
        let ram1: Vec<u8> = ring.iter().map(|&x| imp.get8(x)).collect();
        let x9 = imp.x(9);
        let fits = |v: u64| if xlen == 32 { v & 0xffff_ffff } else { v };
        let trapped = imp.pc() == tvec;
        let cause = imp.csr(0x342);
        let reg = map.span(a.pa, sz);
        let misaligned = a.pa % sz != 0;
        let acc_cause = if is_store(k) { 7 } else { 5 };
        // what is allowed
        let rmw = matches!(k, Lr(_) | Sc(_) | Amo(_));
        let (may_ok, may_fault) = match reg {
            _ if misaligned => (false, true),
            Reg::None => (matches!(k, Sc(_)), true),
            Reg::Ram => (true, false),
            Reg::Mrom => (!is_store(k) || matches!(k, Sc(_)), is_store(k) || rmw),
            Reg::Clint => (sz >= 4, sz < 4 || rmw),
            Reg::Uart => (sz == 1 || matches!(k, Sc(_)), sz != 1),
            // reserved registers either read as nothing or fault
            Reg::Plic => {
                let o = a.pa - PLIC;
                let known = o < 0x2100 || (0x20_0000..0x20_2000).contains(&o);
                (sz >= 4 || matches!(k, Sc(_)), sz < 4 || rmw || !known)
            }
        };
        let same_ram = ram0 == ram1;
        if trapped {
            if !may_fault {
                return bad("fault", format!("{reg:?}: traps with cause {cause}"));
            }
            let ok_cause = cause == acc_cause || misaligned && cause == acc_cause - 1;
            if !ok_cause || imp.csr(0x343) != fits(a.va) || imp.csr(0x341) != fits(code) {
                return bad(
                    "trap",
                    format!(
                        "{reg:?}: spec cause {acc_cause}{} tval {:#x}, carron cause {cause} tval {:#x} epc {:#x}",
                        if misaligned { " or the misaligned one" } else { "" },
                        fits(a.va),
                        imp.csr(0x343),
                        imp.csr(0x341)
                    ),
                );
            }
            if x9 != fits(DATA) {
                return bad(
                    "effect",
                    format!("{reg:?}: a faulting access changed its register to {x9:#x}"),
                );
            }
            if !same_ram
                || before.rom != after.rom
                || before.clint != after.clint
                || before.plic != after.plic
                || before.uart != after.uart
            {
                return bad(
                    "effect",
                    format!("{reg:?}: a faulting access changed something"),
                );
            }
            return Ok(());
        }
        if imp.pc() != fits(code + encode(k).1) {
            return bad("pc", format!("{reg:?}: pc {:#x}", imp.pc()));
        }
        if !may_ok {
            return bad(
                "no-fault",
                format!("{reg:?}: the access completes, x9 {x9:#x}"),
            );
        }
        if before.rom != after.rom {
            return bad("rom", format!("{reg:?}: the boot ROM changed"));
        }
        // only the owner changes
        if reg != Reg::Clint && before.clint != after.clint
            || reg != Reg::Plic && before.plic != after.plic
            || reg != Reg::Uart && before.uart != after.uart
        {
            return bad("owner", format!("{reg:?}: another region changed"));
        }
        let sext = |v: u64| {
            let v = match k {
                Load { f3: 4..=6, .. } => v,
                _ if sz == 8 => v,
                _ => (v << (64 - 8 * sz)) as i64 as u64 >> 0 as u64,
            };
            match k {
                Load { f3: 4..=6, .. } => fits(v),
                _ if sz == 8 => v,
                _ => fits(((v as i64) >> (64 - 8 * sz)) as u64),
            }
        };
        let mut want = ram0.clone();
        if reg == Reg::Ram && is_store(k) {
            if !matches!(k, Sc(_)) {
                for j in 0..sz {
                    let v = if let Amo(_) = k { DATA } else { DATA };
                    for (i, &x) in ring.iter().enumerate() {
                        if x == a.pa + j {
                            want[i] = (v >> (8 * j)) as u8;
                        }
                    }
                }
            }
        }
        if ram1 != want {
            let i = (0..want.len()).find(|&i| ram1[i] != want[i]).unwrap();
            return bad(
                "ram",
                format!(
                    "{reg:?}: byte {:#x} is {:#x}, spec {:#x}",
                    ring[i], ram1[i], want[i]
                ),
            );
        }
        match k {
            Load { .. } | Lr(_) | Amo(_) if !old.is_empty() => {
                let v = old.iter().rev().fold(0u64, |v, &b| v << 8 | b as u64);
                if x9 != sext(v) {
                    return bad(
                        "value",
                        format!("{reg:?}: spec {:#x}, carron {x9:#x}", sext(v)),
                    );
                }
            }
            Load { .. } if words.is_some() => {
                if x9 != sext(words.unwrap()) {
                    return bad(
                        "value",
                        format!("{reg:?}: spec {:#x}, carron {x9:#x}", sext(words.unwrap())),
                    );
                }
            }
            Load { .. } if reg == Reg::Plic && x9 != 0 => {
                return bad(
                    "value",
                    format!("{reg:?}: nothing is set up there, carron {x9:#x}"),
                );
            }
            Store { .. } if reg == Reg::Clint => {
                let v = imp.cpu.bus.load64(a.pa & !7).unwrap_or(0);
                let got = if sz == 8 {
                    v
                } else {
                    v >> (8 * (a.pa & 4)) & 0xffff_ffff
                };
                let w = if sz == 8 { DATA } else { DATA & 0xffff_ffff };
                if got != w {
                    return bad(
                        "value",
                        format!("{reg:?}: register reads {got:#x} after storing {w:#x}"),
                    );
                }
            }
            Sc(_) if x9 == 0 => {
                return bad("sc", "a store-conditional without a reservation succeeds")
            }
            _ => (),
        }
        Ok(())
    });
    // leave no tables or interrupt-controller settings behind
    with_imp(xlen, base, |imp| {
        if let Some((_, t)) = &a.paged {
            for &(p, n, _) in t {
                for j in 0..n {
                    imp.put8(p + j, 0);
                }
            }
        }
        if a.pa >= PLIC && a.pa < PLIC + 0x100_0000 {
            imp.cpu.bus.plic = Default::default();
        }
        if a.pa >= CLINT && a.pa < CLINT + 0x1_0000 && sz <= 8 {
            let _ = imp.cpu.bus.store64(a.pa & !7, 0);
        }
    });
    ctx.step_done();
    ctx.trace_done();
    ctx.state(&(xlen, base, a.pa, format!("{k:?}"), a.paged.is_some()));
    res.map_err(|(key, t)| {
        (
            format!("phys:{key}"),
            format!(
                "RV{xlen}, RAM at {base:#x}, {k:?} at {:#x} (physical {:#x}, paged {}): {t}",
                a.va,
                a.pa,
                a.paged.is_some()
            ),
        )
    })
}

fn addresses(map: &Map, xlen: u32) -> Vec<u64> {
    let mut v = vec![];
    let w = 24;
    let mut pts = map.boundaries();
    pts.extend([
        0,
        0x8000_0000,
        0xffff_fff0,
        0x1_0000_0000,
        1 << 63,
        u64::MAX - 24,
        0x3_ffff_fff0,
        1 << 56,
        0x1000_1000,
        0x200_0000 + 0xbff8,
        0x200_0000 + 0x4000,
        PLIC + 0x2000,
        PLIC + 0x2100,
        PLIC + 0x20_0000,
        PLIC + 0x20_1000,
        PLIC + 0x20_2000,
        PLIC + 0x1000,
    ]);
    // every region again, 4 GiB up: truncated addresses must not alias
    for b in map.boundaries() {
        pts.push(b.wrapping_add(1 << 32));
        pts.push(b | 1 << 63);
    }
    for p in pts {
        for d in 0..2 * w {
            let a = p.wrapping_sub(w).wrapping_add(d);
            v.push(if xlen == 32 { a & 0xffff_ffff } else { a });
        }
    }
    v.sort();
    v.dedup();
    v
}

pub fn run(rep: &Report) {
    rep.note("atomics on devices and the boot ROM may complete or fault; reserved controller registers may read as zero or fault; for a misaligned access that would also fault either exception is accepted");
    rep.note(
        "store-conditional is tried without a reservation: it fails or faults, and never stores",
    );
    let configs: &[(u32, u64)] = &[
        (32, 0x8000_0000),
        (64, 0x8000_0000),
        (32, 0x4000_0000),
        (64, 0x8020_0000),
        (64, 0x1_0000_0000),
        (64, 0x4000_0000),
    ];
    for &(xlen, base) in configs {
        let map = with_imp(xlen, base, |i| Map {
            base,
            rom: rom_len(i),
        });
        let ad = addresses(&map, xlen);
        let ks = kinds(xlen);
        // code and tables live in RAM: keep accesses off them
        rep.space(
            &format!("windows{xlen}-{base:x}"),
            &[ad.len(), ks.len()],
            |ctx, d| {
                access(
                    ctx,
                    &Acc {
                        xlen,
                        base,
                        va: ad[d[0]],
                        pa: ad[d[0]],
                        kind: ks[d[1]],
                        paged: None,
                    },
                )
            },
        );
    }
    // whole regions
    for xlen in [32u32, 64] {
        let base = 0x8000_0000;
        let ks = kinds(xlen);
        let rom = with_imp(xlen, base, rom_len);
        rep.space(
            &format!("rom{xlen}"),
            &[rom as usize + 16, ks.len()],
            |ctx, d| {
                let a = MROM - 8 + d[0] as u64;
                access(
                    ctx,
                    &Acc {
                        xlen,
                        base,
                        va: a,
                        pa: a,
                        kind: ks[d[1]],
                        paged: None,
                    },
                )
            },
        );
        rep.space(&format!("uart{xlen}"), &[0x120, ks.len()], |ctx, d| {
            let a = UART - 16 + d[0] as u64;
            access(
                ctx,
                &Acc {
                    xlen,
                    base,
                    va: a,
                    pa: a,
                    kind: ks[d[1]],
                    paged: None,
                },
            )
        });
        rep.space(&format!("clint{xlen}"), &[0x1_0000, ks.len()], |ctx, d| {
            let a = CLINT + d[0] as u64;
            access(
                ctx,
                &Acc {
                    xlen,
                    base,
                    va: a,
                    pa: a,
                    kind: ks[d[1]],
                    paged: None,
                },
            )
        });
        // the controller: the register area densely, then every page
        let mut pa: Vec<u64> = (0..0x2200).step_by(4).collect();
        pa.extend((0x20_0000..0x20_2100).step_by(4));
        if rep.thorough {
            pa.extend((0..0x100_0000).step_by(4));
        }
        pa.extend(
            (0..0x100_0000u64)
                .step_by(0x1000)
                .flat_map(|p| [p, p + 4, p + 0xffc]),
        );
        rep.space(&format!("plic{xlen}"), &[pa.len(), ks.len()], |ctx, d| {
            let a = PLIC + pa[d[0]];
            access(
                ctx,
                &Acc {
                    xlen,
                    base,
                    va: a,
                    pa: a,
                    kind: ks[d[1]],
                    paged: None,
                },
            )
        });
    }
    // through address translation: the page of every boundary, mapped at another address
    for &(xlen, base) in &[
        (32u32, 0x8000_0000u64),
        (64, 0x8000_0000),
        (64, 0x8020_0000),
    ] {
        let map = with_imp(xlen, base, |i| Map {
            base,
            rom: rom_len(i),
        });
        let mut pages: Vec<u64> = map
            .boundaries()
            .iter()
            .flat_map(|&b| [b & !0xfff, (b.wrapping_sub(1)) & !0xfff])
            .collect();
        pages.extend([
            0,
            0x1_0000_0000,
            0x2_8000_0000,
            0x3_ffff_f000,
            0x1_0200_0000,
            0x1_1000_0000,
        ]);
        if xlen == 64 {
            pages.extend([0xff_ffff_ffff_f000, 0x80_0000_0000_0000, 0x80_8000_0000]);
        } else {
            pages.retain(|&p| p < 1 << 34);
        }
        pages.sort();
        pages.dedup();
        let mut offs: Vec<u64> = (0..24).chain(0xff0..0x1000).chain(0xf0..0x110).collect();
        let r = map.rom & 0xfff;
        offs.extend(r - 16..(r + 16).min(0x1000));
        offs.sort();
        offs.dedup();
        let ks = kinds(xlen);
        rep.space(
            &format!("paged{xlen}-{base:x}"),
            &[pages.len(), offs.len(), ks.len()],
            |ctx, d| {
                let (page, off) = (pages[d[0]], offs[d[1]]);
                let code = base + 0x4000;
                let va = 0x3000_5000u64;
                let mut t = vec![];
                let root = base + 0x8000;
                let satp;
                let e = |pa: u64, f: u64| pa >> 12 << 10 | f;
                if xlen == 32 {
                    satp = 1 << 31 | root >> 12;
                    let l0 = base + 0x9000;
                    let l0c = base + 0xa000;
                    t.push((root + 4 * (va >> 22), 4, e(l0, 1)));
                    t.push((l0 + 4 * (va >> 12 & 0x3ff), 4, e(page, 0xc7)));
                    t.push((root + 4 * (code >> 22), 4, e(l0c, 1)));
                    t.push((l0c + 4 * (code >> 12 & 0x3ff), 4, e(code, 0xcf)));
                } else {
                    satp = 8 << 60 | root >> 12;
                    let (l1, l0) = (base + 0x9000, base + 0xa000);
                    let (l1c, l0c) = (base + 0xb000, base + 0xc000);
                    t.push((root + 8 * (va >> 30 & 0x1ff), 8, e(l1, 1)));
                    t.push((l1 + 8 * (va >> 21 & 0x1ff), 8, e(l0, 1)));
                    t.push((l0 + 8 * (va >> 12 & 0x1ff), 8, e(page, 0xc7)));
                    t.push((root + 8 * (code >> 30 & 0x1ff), 8, e(l1c, 1)));
                    t.push((l1c + 8 * (code >> 21 & 0x1ff), 8, e(l0c, 1)));
                    t.push((l0c + 8 * (code >> 12 & 0x1ff), 8, e(code, 0xcf)));
                }
                access(
                    ctx,
                    &Acc {
                        xlen,
                        base,
                        va: va | off,
                        pa: page | off,
                        kind: ks[d[2]],
                        paged: Some((satp, t)),
                    },
                )
            },
        );
    }
    // fetches
    for &(xlen, base) in configs {
        let map = with_imp(xlen, base, |i| Map {
            base,
            rom: rom_len(i),
        });
        let ad: Vec<u64> = addresses(&map, xlen)
            .into_iter()
            .filter(|a| a % 2 == 0)
            .collect();
        rep.space(&format!("fetch{xlen}-{base:x}"), &[ad.len(), 2, 2], |ctx, d| {
            let pc = ad[d[0]];
            let tvec = base + 0x5000;
            let four = d[1] == 1;
            let user = d[2] == 1;
            let fits = |v: u64| if xlen == 32 { v & 0xffff_ffff } else { v };
            let r = with_imp(xlen, base, |imp| {
                imp.lines(0);
                quiet(imp, &[]);
                let next = fits(pc.wrapping_add(2));
                let (r0, r1) = (map.at(pc), map.at(next));
                // a compressed or a full nop, in RAM only
                let w = if four { NOP } else { 0x0001 };
                let mut put = vec![];
                for j in 0..if four { 4 } else { 2 } {
                    let a = fits(pc.wrapping_add(j));
                    if map.at(a) == Reg::Ram {
                        imp.put8(a, (w >> (8 * j)) as u8);
                        put.push(a);
                    }
                }
                let c = &mut imp.cpu;
                c.verif_set_pc(0);
                c.verif_reset();
                c.verif_set_csr(0x305, tvec);
                c.verif_set_pc(pc);
                if user {
                    c.verif_set_csr(0x3b0, u64::MAX >> 10);
                    c.verif_set_csr(0x3a0, 0x1f);
                    c.verif_set_priv(0);
                }
                let before = observe(imp, map.rom, pc);
                if let StepRes::Panic(p) = imp.step() {
                    *imp = make(xlen, base);
                    return bad("abort", format!("the emulator aborts: {p}"));
                }
                let after = observe(imp, map.rom, pc);
                for a in put {
                    imp.put8(a, 0);
                }
                if before.rom != after.rom || before.clint != after.clint || before.plic != after.plic || before.uart != after.uart {
                    if r0 != Reg::Mrom {
                        return bad("effect", "a fetch changed a device");
                    }
                }
                let (cause, tval) = (imp.csr(0x342), imp.csr(0x343));
                let trapped = imp.pc() == tvec;
                let exec = |r: Reg| matches!(r, Reg::Ram | Reg::Mrom);
                match (r0, four) {
                    (Reg::Mrom, _) => {
                        // whatever the ROM holds; a fetch fault only where it ends
                        if trapped && cause == 1 && exec(r1) {
                            return bad("fault", "fetch fault inside the boot ROM");
                        }
                        return Ok(());
                    }
                    (r, _) if !exec(r) => {
                        if !trapped || cause != 1 || tval != fits(pc) {
                            return bad("no-fault", format!("{r0:?}: spec cause 1 tval {pc:#x}, carron pc {:#x} cause {cause} tval {tval:#x}", imp.pc()));
                        }
                    }
                    (_, true) if r1 != r0 => {
                        if !trapped || cause != 1 || (tval != next && tval != fits(pc)) {
                            return bad("no-fault", format!("{r0:?}/{r1:?}: spec cause 1, carron pc {:#x} cause {cause} tval {tval:#x}", imp.pc()));
                        }
                    }
                    _ => {
                        if trapped || imp.pc() != fits(pc.wrapping_add(if four { 4 } else { 2 })) {
                            return bad("fault", format!("{r0:?}: a nop ends at pc {:#x} cause {cause} tval {tval:#x}", imp.pc()));
                        }
                    }
                }
                if trapped && imp.csr(0x341) != fits(pc) {
                    return bad("trap", format!("mepc {:#x}", imp.csr(0x341)));
                }
                Ok(())
            });
            ctx.step_done();
            ctx.trace_done();
            ctx.state(&("fetch", xlen, base, pc, four, user));
            r.map_err(|(k, t)| (format!("fetch:{k}"), format!("RV{xlen}, RAM at {base:#x}, fetch at {pc:#x} ({} bytes): {t}", if four { 4 } else { 2 })))
        });
    }
    rep.sample("RV64 LD at RAM end - 4 (aligned 4, misaligned 8): misaligned or access fault, nothing changes; SH to 0x1fff (ROM): store access fault".into());
    rep.sample("Sv32 page mapped to physical 0x1_0200_0000: access fault with the virtual address, the CLINT at 0x0200_0000 untouched".into());
}
