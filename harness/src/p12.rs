//! P12: physical memory protection. P13: address triggers.
use crate::asm::*;
use crate::drv::Report;
use crate::imp::FULL_DIFF;
use crate::lock::{self, Ev, CODE};
use crate::model::*;
use crate::p06::{MT, ST};
use crate::p11::who;
use std::sync::atomic::Ordering::Relaxed;

const D: u64 = 0x8040_0000;
/// NAPOT register value for [base, base+size)
pub fn napot(base: u64, size: u64) -> u64 {
    (base >> 2) | ((size >> 3) - 1)
}
const PERMS: [u64; 6] = [0, 1, 3, 4, 5, 7];

fn start(xlen: u32) -> (Hart, Ram) {
    let mut h = Hart::new(xlen);
    h.pc = CODE;
    h.mtvec = MT;
    h.stvec = ST;
    (h, Ram::default())
}
/// 0..8 loads and stores of each size, 8 = amo, 9 = fetch
fn access(h: &mut Hart, ram: &mut Ram, k: usize, a: u64) -> Option<()> {
    h.x[8] = a;
    h.x[9] = 0x9192_9394;
    let f3 = (k % 4) as u32;
    if f3 == 3 && k < 8 && h.xlen == 32 {
        return None;
    }
    let word = match k {
        0..=3 => load(f3, 7, 8, 0),
        4..=7 => store(f3, 9, 8, 0),
        8 => amo(0, 4, 7, 8, 9),
        _ => {
            if a & 1 != 0 {
                return None;
            }
            h.pc = a;
            if Ram::ok(a, 4) {
                ram.put(a, 4, addi(5, 5, 1) as u64);
            }
            return Some(());
        }
    };
    ram.put(CODE, 4, word as u64);
    Some(())
}

pub fn run12(rep: &Report) {
    FULL_DIFF.store(true, Relaxed);
    rep.note("the reserved combination W without R and address bits above 54 are not enumerated; the last entry (15) permits everything in spaces that need code to run");
    for xlen in [32u32, 64] {
        let w = |v: u64| if xlen == 32 { v & 0xffff_ffff } else { v };
        // one entry of every kind at several indices, code allowed by a lower-priority entry
        let idx = [0usize, 1, 3, 4, 7, 8, 12, 14];
        let acc = 10usize;
        // [lo, size]; positions relative to it
        let sizes = [4u64, 8, 16, 0x1000, 0x100000];
        let pos: [i64; 14] = [
            -8, -4, -2, -1, 0, 1, 2, 4, 6, -1000, -1001, -1002, -1004, -1008,
        ];
        rep.space(
            &format!("entry{xlen}"),
            &[idx.len(), 3, sizes.len(), PERMS.len(), 2, acc, pos.len(), 5],
            |ctx, d| {
                let (mut h, mut ram) = start(xlen);
                let i = idx[d[0]];
                let size = sizes[d[2]];
                let perm = PERMS[d[3]] as u8 | (d[4] as u8) << 7;
                match d[1] {
                    0 => {
                        if size != 4 {
                            return Ok(());
                        }
                        h.pmpcfg[i] = 0x10 | perm;
                        h.pmpaddr[i] = D >> 2;
                    }
                    1 => {
                        if size < 8 {
                            return Ok(());
                        }
                        h.pmpcfg[i] = 0x18 | perm;
                        h.pmpaddr[i] = napot(D, size);
                    }
                    _ => {
                        h.pmpcfg[i] = 0x08 | perm;
                        h.pmpaddr[i] = (D + size) >> 2;
                        if i > 0 {
                            h.pmpaddr[i - 1] = D >> 2;
                        }
                    }
                }
                h.pmpcfg[15] = 0x1f;
                h.pmpaddr[15] = napot(0x8000_0000, 0x8000_0000);
                let p = pos[d[6]];
                let a = if p <= -1000 {
                    D + size - 8 + (1008 + p) as u64
                } else {
                    D.wrapping_add(p as u64)
                };
                // relative to the end: -1000 -> end, -1001 -> end-1, ..., -1008 -> end-8
                if d[1] == 2 && i == 0 && (perm & 4 == 0 || d[7] != 4) && perm & 7 != 7 {
                    // entry 0 in this mode reaches from zero: it also covers the code
                    if perm & 4 == 0 {
                        h.pc = CODE; // fetch is denied first; still compared
                    }
                }
                who(&mut h, d[7]);
                ram.put(a & !7, 8, 0x8182_8384_8586_8788);
                if access(&mut h, &mut ram, d[5], a).is_none() {
                    return Ok(());
                }
                lock::run(ctx, &h, &ram, 1, &[(a & !7, 16)], "entry")
            },
        );
        // priority and overlap of two entries, in any order of indices
        let shapes: Vec<(u8, u64)> = vec![
            (0, 0),
            (0x10, D >> 2),
            (0x10, (D + 4) >> 2),
            (0x18, napot(D, 8)),
            (0x18, napot(D, 16)),
            (0x18, napot(D, 0x1000)),
            (0x08, (D + 4) >> 2),
            (0x08, (D + 16) >> 2),
            (0x08, (D - 16) >> 2),
            (0x18, u64::MAX >> (64 - if xlen == 32 { 32 } else { 54 })),
        ];
        let ns = shapes.len();
        rep.space(
            &format!("pair{xlen}"),
            &[ns, ns, 4, 4, 3, acc, 4, 4],
            |ctx, d| {
                let (mut h, mut ram) = start(xlen);
                let (i, j) = [(0usize, 1usize), (3, 4), (7, 9)][d[4]];
                let perms = [0x7u8, 0x1, 0x80, 0x83];
                h.pmpcfg[i] = shapes[d[0]].0 | perms[d[2]];
                h.pmpaddr[i] = shapes[d[0]].1;
                h.pmpcfg[j] = shapes[d[1]].0 | perms[d[3]];
                h.pmpaddr[j] = shapes[d[1]].1;
                h.pmpcfg[15] = 0x1f;
                h.pmpaddr[15] = napot(0x8000_0000, 0x8000_0000);
                let a = D + [0u64, 4, 8, 0x800][d[6]];
                who(&mut h, d[7]);
                ram.put(a & !7, 8, 0x8182_8384_8586_8788);
                if access(&mut h, &mut ram, d[5], a).is_none() {
                    return Ok(());
                }
                lock::run(ctx, &h, &ram, 1, &[(a & !7, 16)], "pair")
            },
        );
        // every naturally aligned power-of-two size around both of its ends
        rep.space(&format!("napot{xlen}"), &[30, 6, 4, 4, 2], |ctx, d| {
            let (mut h, mut ram) = start(xlen);
            let size = 8u64 << d[0];
            let base = D & !(size - 1);
            h.pmpcfg[2] = 0x18 | [1, 3][d[4]];
            h.pmpaddr[2] = napot(base, size);
            h.pmpcfg[15] = 0x1c;
            h.pmpaddr[15] = napot(0x8000_0000, 0x8000_0000);
            let a = [
                base,
                base + 4,
                base + size - 4,
                base + size,
                base.wrapping_sub(4),
                base + size / 2,
            ][d[1]];
            if !Ram::ok(a, 8) || (CODE..CODE + 8).contains(&a) {
                return Ok(());
            }
            who(&mut h, [0, 1, 2, 3][d[3]]);
            h.pc = CODE + 0x1008;
            h.x[8] = a;
            h.x[9] = 0x1234_5678;
            ram.put(a, 4, 0x5566_7788);
            ram.put(
                h.pc,
                4,
                [
                    load(2, 7, 8, 0),
                    store(2, 9, 8, 0),
                    amo(0, 4, 7, 8, 9),
                    load(0, 7, 8, 3),
                ][d[2]] as u64,
            );
            lock::run(ctx, &h, &ram, 1, &[(a & !7, 16)], "napot")
        });
        // top-of-range bounds: every relation between neighbours
        let bounds = [
            0u64,
            D >> 2,
            (D >> 2) + 1,
            (D >> 2) + 2,
            (D >> 2) + 4,
            0x2000_0000,
            0x3fff_ffff,
        ];
        rep.space(
            &format!("tor{xlen}"),
            &[bounds.len(), bounds.len(), 3, 4, 6, 10, 4],
            |ctx, d| {
                let (mut h, mut ram) = start(xlen);
                let i = [1usize, 4, 9][d[2]];
                h.pmpaddr[i - 1] = bounds[d[0]];
                h.pmpaddr[i] = bounds[d[1]];
                h.pmpcfg[i - 1] = [0, 0x80][(d[3] == 3) as usize];
                h.pmpcfg[i] = 0x08 | [0, 1, 7, 0x83][d[3]];
                h.pmpcfg[15] = 0x1f;
                h.pmpaddr[15] = napot(0x8000_0000, 0x8000_0000);
                let a = D + [0u64, 4, 8, 12, 16, 0x100][d[4]] - 4;
                who(&mut h, d[6]);
                ram.put(a & !7, 8, 0x8182_8384_8586_8788);
                if access(&mut h, &mut ram, d[5], a).is_none() {
                    return Ok(());
                }
                lock::run(ctx, &h, &ram, 1, &[(a & !7, 16)], "tor")
            },
        );
        // no matching entry
        rep.space(&format!("nomatch{xlen}"), &[16, 4, acc, 5, 2], |ctx, d| {
            let (mut h, mut ram) = start(xlen);
            h.pmpcfg[d[0]] = [0, 0x10, 0x18, 0x08][d[1]] | 7;
            h.pmpaddr[d[0]] = [0, 0x1000, napot(0x1000, 0x1000), 0x1000][d[1]];
            if d[4] == 1 {
                h.pmpcfg[(d[0] + 5) % 16] = 0x97; // locked, elsewhere
                h.pmpaddr[(d[0] + 5) % 16] = 0x77;
            }
            who(&mut h, d[3]);
            ram.put(D, 8, 0x8182_8384_8586_8788);
            if access(&mut h, &mut ram, d[2], D).is_none() {
                return Ok(());
            }
            lock::run(ctx, &h, &ram, 1, &[(D, 16)], "nomatch")
        });
        // fetches across an entry's edge
        rep.space(&format!("fetch{xlen}"), &[9, 4, 3, 3], |ctx, d| {
            let (mut h, mut ram) = start(xlen);
            h.pmpcfg[1] = 0x18 | [0, 3, 4, 7][d[1]];
            h.pmpaddr[1] = napot(D, 16);
            h.pmpcfg[15] = 0x18 | [4, 7, 3][d[2]];
            h.pmpaddr[15] = napot(0x8000_0000, 0x8000_0000);
            h.prv = [U, S, M][d[3]];
            h.pc = D - 8 + 2 * d[0] as u64 + [0, 0, 16][d[2]];
            ram.put(h.pc, 4, addi(5, 5, 1) as u64);
            lock::run(ctx, &h, &ram, 1, &[], "fetch")
        });
        // page-table reads are checked as supervisor reads
        rep.space(&format!("walk{xlen}"), &[3, 6, 5, 4], |ctx, d| {
            let (mut h, mut ram) = start(xlen);
            let g = crate::p11::geo(xlen);
            let va = if xlen == 32 {
                0x40c0_1000
            } else {
                0x15_6765_4000
            };
            h.satp = g.satp();
            let prv = who(&mut h, d[3]);
            g.code(&mut ram, prv);
            g.leaf(
                &mut ram,
                va,
                0,
                0x8003_0000,
                0xcf | ((prv == U) as u64) << 4,
            );
            let l = d[0] % g.levels;
            h.pmpcfg[0] = 0x10 | PERMS[d[1]] as u8 | (d[1] as u8 & 1) << 7;
            h.pmpaddr[0] = (g.slot(l, va)) >> 2;
            h.pmpcfg[15] = 0x1f;
            h.pmpaddr[15] = napot(0x8000_0000, 0x8000_0000);
            ram.put(0x8003_0000, 4, 0x1357_9bdf);
            let w = crate::p11::access(&mut h, &mut ram, d[2], va, Some(0x8003_0000));
            if d[2] != 4 {
                ram.put(CODE, 4, w as u64);
            }
            lock::run(ctx, &h, &ram, 1, &[(0x8003_0000, 8)], "walk")
        });
        // locking histories: configuration writes interleaved with checked accesses
        let rd = |c: u32| Ev::I(csr(2, 6, c, 0));
        let al: Vec<Ev> = vec![
            Ev::I(csr(1, 0, 0x3a0, 10)), // entry 1 NAPOT rw locked
            Ev::I(csr(1, 0, 0x3a0, 11)), // entry 1 TOR r locked, entry 0 off
            Ev::I(csr(1, 0, 0x3a0, 0)),
            Ev::I(csr(3, 5, 0x3a0, 12)),
            Ev::I(csr(1, 0, 0x3b0, 13)),
            Ev::I(csr(1, 0, 0x3b1, 14)),
            Ev::I(csr(1, 5, 0x3b1, 15)),
            Ev::I(csr(2, 5, 0x3b0, 12)),
            Ev::I(load(2, 7, 8, 0)),
            Ev::I(store(2, 9, 8, 0)),
            Ev::I(csr(1, 0, 0x300, 16)), // MPRV, MPP=S
            rd(0x3a0),
        ];
        let n = al.len();
        rep.space(
            &format!("locks{xlen}"),
            &[
                2,
                n,
                n,
                n,
                n,
                n,
                if rep.thorough { n } else { 1 },
                if rep.thorough { n } else { 1 },
            ],
            |ctx, d| {
                let (mut h, mut ram) = start(xlen);
                h.x[8] = D;
                h.x[9] = 0x1212_3434;
                h.x[10] = 0x9b00;
                h.x[11] = 0x8900;
                h.x[12] = 0xffff;
                h.x[13] = D >> 2;
                h.x[14] = (D + 16) >> 2;
                h.x[15] = napot(D, 32);
                h.x[16] = MST_MPRV | 1 << 11;
                if d[0] == 1 {
                    h.pmpcfg[2] = 0x9f;
                    h.pmpaddr[2] = napot(0x8000_0000, 0x8000_0000);
                }
                ram.put(D, 4, 0x8888_7777);
                let evs: Vec<Ev> = d[1..if rep.thorough { 8 } else { 6 }]
                    .iter()
                    .map(|&k| al[k])
                    .collect();
                lock::run_seq(ctx, &h, &ram, &evs, &[(D, 8)], "locks")
            },
        );
        // which fields of which registers a locked entry freezes, for every entry and every register
        let nreg = if xlen == 32 { 20 } else { 18 };
        let vals = [
            0u64,
            u64::MAX / 255 * 0x9f,
            u64::MAX / 255 * 0x0f,
            0x1122_3344,
        ];
        rep.space(
            &format!("frozen{xlen}"),
            &[16, 4, 17, nreg, 3, vals.len()],
            |ctx, d| {
                let (mut h, mut ram) = start(xlen);
                for k in 0..16 {
                    h.pmpaddr[k] = 0x40_0000 + 0x100 * k as u64;
                    h.pmpcfg[k] = [0x1f, 0, 0x0f, 0x17][k % 4];
                }
                h.pmpcfg[d[0]] = [0x87, 0x8f, 0x97, 0x9f][d[1]];
                if d[2] < 16 {
                    h.pmpcfg[d[2]] |= 0x80;
                }
                let regs = if xlen == 32 { 4 } else { 2 };
                let r = if d[3] < regs {
                    0x3a0 + (d[3] * 4 / regs) as u32
                } else {
                    0x3b0 + (d[3] - regs) as u32
                };
                h.x[10] = w(vals[d[5]]);
                lock::put_code(
                    &mut ram,
                    CODE,
                    &[csr(1 + d[4] as u32, 11, r, 10), csr(2, 12, r, 0)],
                );
                lock::run(ctx, &h, &ram, 2, &[], "frozen")
            },
        );
        // the register layout: a byte of each configuration register is the entry it says
        rep.space(&format!("layout{xlen}"), &[16, 6, 2, 3], |ctx, d| {
            let (mut h, mut ram) = start(xlen);
            let n = if xlen == 32 { 4 } else { 8 };
            let reg = if xlen == 32 {
                0x3a0 + (d[0] / 4) as u32
            } else {
                0x3a0 + 2 * (d[0] / 8) as u32
            };
            h.x[10] = (0x18 | PERMS[d[1]] | (d[2] as u64) << 7) << (8 * (d[0] % n));
            h.x[11] = napot(D, 64);
            h.x[8] = D + 8;
            h.x[9] = 0x777;
            h.x[12] = MST_MPRV | [0, 1 << 11, 3 << 11][d[3]];
            h.x[13] = 0;
            ram.put(D + 8, 4, 0x4444_5555);
            lock::put_code(
                &mut ram,
                CODE,
                &[
                    csr(1, 0, 0x3b0 + d[0] as u32, 11),
                    csr(1, 0, reg, 10),
                    csr(1, 0, 0x300, 12),
                    load(2, 7, 8, 0),
                ],
            );
            lock::run(ctx, &h, &ram, 5, &[(D, 16)], "layout")
        });
    }
    rep.sample("RV32 entry 7 NA4 rw- at D, sd-sized accesses straddling it from S: access fault, memory unchanged".into());
    rep.sample("RV64 locks: csrw pmpcfg0 TOR locked entry 1; csrw pmpaddr0 ignored; lw from M allowed, sw denied".into());
}

pub fn run13(rep: &Report) {
    FULL_DIFF.store(true, Relaxed);
    rep.note("triggers match the first byte of an access; load triggers on AMOs, a trigger in the middle of an instruction and chained/action variants (which read back as off) are not enumerated");
    for xlen in [32u32, 64] {
        let w = |v: u64| if xlen == 32 { v & 0xffff_ffff } else { v };
        let t = move |bits: u64| 2u64 << (xlen - 4) | bits;
        let ops = crate::p04::ops(xlen);
        let nops = ops.len() + 3; // + fetch, c.fetch, amo store
                                  // every trigger, every control combination, near misses, each kind and mode
        rep.space(
            &format!("single{xlen}"),
            &[8, 64, 7, nops, 3, if rep.thorough { 8 } else { 3 }],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let mut ram = Ram::default();
                let bits = (d[1] as u64 & 31) | (d[1] as u64 >> 5) << 6;
                h.prv = [U, S, M][d[4]];
                h.pc = CODE;
                h.mtvec = MT;
                h.stvec = ST;
                let k = d[3];
                let delta = [0i64, 1, -1, 4, -4, 8, 0x1000][d[2]];
                let target;
                if k < ops.len() {
                    target = 0x8001_0000u64;
                    h.x[8] = target;
                    h.x[9] = 0x1234_5678;
                    ram.put(target, 8, 0x8888_9999_aaaa_bbbb);
                    ram.put(
                        CODE,
                        4,
                        if ops[k].0 {
                            store(ops[k].1, 9, 8, 0)
                        } else {
                            load(ops[k].1, 9, 8, 0)
                        } as u64,
                    );
                } else if k == ops.len() {
                    target = CODE;
                    ram.put(CODE, 4, addi(5, 5, 1) as u64);
                } else if k == ops.len() + 1 {
                    target = CODE;
                    ram.put(CODE, 2, 0x0285); // c.addi x5, 1
                } else {
                    target = 0x8001_0000;
                    h.x[8] = target;
                    h.x[9] = 5;
                    ram.put(CODE, 4, amo(0, 4, 7, 8, 9) as u64);
                    if bits & 1 == 1 {
                        return Ok(());
                    }
                }
                h.tdata1[d[0]] = t(bits);
                h.tdata2[d[0]] = target.wrapping_add(delta as u64);
                h.tselect = if rep.thorough {
                    d[5] as u64
                } else {
                    [0, d[0] as u64, 7][d[5]]
                };
                h.medeleg = (d[5] as u64 & 1) << 3;
                lock::run(ctx, &h, &ram, 2, &[(0x8001_0000, 16)], "single")
            },
        );
        // two active triggers, every pair of slots
        rep.space(&format!("pair{xlen}"), &[8, 8, 6, 6, 5, 3], |ctx, d| {
            if d[0] == d[1] {
                return Ok(());
            }
            let mut h = Hart::new(xlen);
            let mut ram = Ram::default();
            h.prv = [U, S, M][d[5]];
            h.pc = CODE;
            h.mtvec = MT;
            h.stvec = ST;
            let cfg = [t(0x59), t(0x5a), t(0x5c), t(0x41), t(0x0a), 0];
            let a = 0x8001_0000u64;
            h.tdata1[d[0]] = cfg[d[2]];
            h.tdata2[d[0]] = if cfg[d[2]] & 4 != 0 { CODE } else { a };
            h.tdata1[d[1]] = cfg[d[3]];
            h.tdata2[d[1]] = if cfg[d[3]] & 4 != 0 { CODE } else { a + 4 };
            h.tselect = 3;
            h.x[8] = a;
            h.x[9] = 0x77;
            lock::put_code(
                &mut ram,
                CODE,
                &[[
                    load(2, 7, 8, 0),
                    load(2, 7, 8, 4),
                    store(2, 9, 8, 0),
                    store(0, 9, 8, 4),
                    addi(5, 5, 1),
                ][d[4]]],
            );
            lock::run(ctx, &h, &ram, 1, &[(a, 16)], "pair")
        });
        // misaligned, faulting and translated accesses under a trigger
        rep.space(
            &format!("faulting{xlen}"),
            &[ops.len(), 5, 3, 2, 2],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let mut ram = Ram::default();
                h.prv = [U, S, M][d[2]];
                h.pc = CODE;
                h.mtvec = MT;
                h.stvec = ST;
                let a = [
                    0x8001_0001u64,
                    0x4000_0000,
                    0x8001_0003,
                    w(u64::MAX - 3),
                    0x1_0000,
                ][d[1]];
                if d[4] == 1 {
                    crate::p06::identity(&mut h, &mut ram, d[2] == 0);
                }
                h.tdata1[5] = t(0x5b);
                h.tdata2[5] = a + 4 * d[3] as u64 * (a < 0xffff_0000) as u64;
                h.x[8] = a;
                h.x[9] = 0x3344;
                ram.put(
                    CODE,
                    4,
                    if ops[d[0]].0 {
                        store(ops[d[0]].1, 9, 8, 0)
                    } else {
                        load(ops[d[0]].1, 9, 8, 0)
                    } as u64,
                );
                lock::run(ctx, &h, &ram, 1, &[(0x8001_0000, 16)], "faulting")
            },
        );
        // every bit of the address counts: one bit apart is no match, whatever is mapped there
        rep.space(
            &format!("addrbits{xlen}"),
            &[ops.len() + 2, xlen as usize + 1, 3, 2, 2],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let mut ram = Ram::default();
                h.prv = [U, S, M][d[2]];
                h.pc = CODE;
                h.mtvec = MT;
                h.stvec = ST;
                let a = 0x8001_0000u64;
                let flip = if d[1] == 0 { 0 } else { 1u64 << (d[1] - 1) };
                if d[4] == 1 {
                    crate::p06::identity(&mut h, &mut ram, d[2] == 0);
                }
                h.x[9] = 0x3344;
                ram.put(a, 8, 0x8888_9999_aaaa_bbbb);
                if d[0] < ops.len() {
                    // the trigger or the access is the one that is off
                    h.x[8] = if d[3] == 0 { a } else { a ^ flip };
                    h.tdata2[6] = if d[3] == 0 { a ^ flip } else { a };
                    h.tdata1[6] = t(0x5b);
                    let (st, f3, _) = ops[d[0]];
                    let i = if st {
                        store(f3, 9, 8, 0)
                    } else {
                        load(f3, 9, 8, 0)
                    };
                    ram.put(CODE, 4, i as u64);
                } else {
                    if flip & 1 == 1 && d[3] == 1 {
                        return Ok(());
                    }
                    h.tdata1[6] = t(0x5c);
                    h.tdata2[6] = if d[3] == 0 { CODE ^ flip } else { CODE };
                    h.pc = if d[3] == 0 { CODE } else { CODE ^ flip };
                    if d[3] == 0 && flip == 2 && d[0] == ops.len() {
                        return Ok(()); // a trigger in the middle of an instruction
                    }
                    let word = if d[0] == ops.len() {
                        addi(5, 5, 1) as u64
                    } else {
                        0x0001_0285
                    };
                    if Ram::ok(h.pc, 4) {
                        ram.put(h.pc, 4, word);
                    }
                }
                lock::run(ctx, &h, &ram, 1, &[(a, 8)], "addrbits")
            },
        );
        // any value in the control register: nothing aborts, unsupported kinds never fire
        rep.space(&format!("control{xlen}"), &[16, 27, 4, 3], |ctx, d| {
            let mut h = Hart::new(xlen);
            let mut ram = Ram::default();
            h.pc = CODE;
            h.mtvec = MT;
            let v = (d[0] as u64) << (xlen - 4)
                | if d[1] < 27 { 1u64 << d[1] } else { 0 }
                | [0, 0x44, 0x41, 0x42][d[2]];
            h.x[10] = v;
            h.x[11] = [CODE + 12, 0x8001_0000, 0x8001_0000][d[3]];
            h.x[8] = 0x8001_0000;
            let f3 = [1, 2, 1][d[3]];
            lock::put_code(
                &mut ram,
                CODE,
                &[
                    csr(1, 0, 0x7a2, 11),
                    csr(f3, 0, 0x7a1, 10),
                    csr(2, 6, 0x7a1, 0),
                    [addi(5, 5, 1), load(2, 7, 8, 0), store(2, 7, 8, 0)][d[3]],
                ],
            );
            lock::run(ctx, &h, &ram, 4, &[(0x8001_0000, 8)], "control")
        });
        // configuration histories with accesses in between
        let a = 0x8001_0000u64;
        let al: Vec<Ev> = vec![
            Ev::I(csr(5, 5, 0x7a0, 0)),
            Ev::I(csr(5, 5, 0x7a0, 3)),
            Ev::I(csr(5, 5, 0x7a0, 7)),
            Ev::I(csr(5, 0, 0x7a0, 8)),
            Ev::I(csr(1, 6, 0x7a0, 13)),
            Ev::I(csr(1, 5, 0x7a1, 10)), // load in all modes
            Ev::I(csr(1, 5, 0x7a1, 11)), // store in M
            Ev::I(csr(1, 5, 0x7a1, 0)),
            Ev::I(csr(1, 5, 0x7a2, 8)),
            Ev::I(csr(1, 6, 0x7a2, 12)),
            Ev::I(csr(2, 6, 0x7a1, 10)),
            Ev::I(csr(2, 6, 0x7a2, 0)),
            Ev::I(load(2, 7, 8, 0)),
            Ev::I(store(2, 9, 8, 0)),
            Ev::I(load(0, 7, 8, 1)),
            Ev::I(csr(6, 0, 0x7a2, 1)), // the set and clear forms
            Ev::I(csr(7, 5, 0x7a2, 1)),
            Ev::I(csr(7, 5, 0x7a1, 1)),
            Ev::I(csr(6, 5, 0x7a1, 2)),
            Ev::I(csr(2, 5, 0x7a1, 11)),
        ];
        let n = al.len();
        rep.space(
            &format!("histories{xlen}"),
            &[
                if rep.thorough { 1 } else { 2 },
                n,
                n,
                n,
                n,
                n,
                if rep.thorough { n } else { 1 },
            ],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let ram = Ram::default();
                h.pc = CODE;
                h.mtvec = MT;
                h.x[8] = a;
                h.x[9] = 0x11;
                h.x[10] = t(0x59);
                h.x[11] = t(0x42);
                h.x[12] = a + 1;
                h.x[13] = w(u64::MAX);
                if d[0] == 0 {
                    h.tdata1[3] = t(0x42);
                    h.tdata2[3] = a;
                    h.tdata1[7] = t(0x41);
                    h.tdata2[7] = a + 1;
                    h.tselect = 7;
                }
                let evs: Vec<Ev> = d[1..if rep.thorough { 7 } else { 6 }]
                    .iter()
                    .map(|&k| al[k])
                    .collect();
                lock::run_seq(ctx, &h, &ram, &evs, &[(a, 8)], "history")
            },
        );
    }
    rep.sample("RV64 trigger 5 = mcontrol(s,u,load) at 0x80010000, tselect=0: lw from S -> cause 3, stval=0x80010000".into());
}
