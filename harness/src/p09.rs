//! P09: CSR access rules. P10: CSR read-modify-write and views.
use crate::asm::*;
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::imp::{StepRes, FULL_DIFF};
use crate::lock::{self, Ev, CODE};
use crate::model::*;
use crate::p06::{MT, ST};
use std::sync::atomic::Ordering::Relaxed;

/// Values for a CSR whose effect the model defines (bitwise combinations stay defined).
pub fn legal(csr: u32, xlen: u32) -> Vec<u64> {
    let w = |v: u64| if xlen == 32 { v & 0xffff_ffff } else { v };
    let top = 1u64 << (xlen - 1);
    let v: Vec<u64> = match csr {
        0x100 | 0x300 => vec![
            0,
            MST_SIE | MST_SPIE,
            MST_SPP | MST_SUM | MST_MXR,
            MST_FS,
            1 << 13,
            MST_MIE | MST_MPIE | 1 << 11,
            MST_DEFINED & !MST_MPRV,
            MST_TVM | MST_TSR,
            MST_MPP | MST_TW,
        ],
        0x104 | 0x304 => vec![0, 2, 0x20, 0x222, 0x888, 0xaaa, 0x80],
        0x144 | 0x344 => vec![0, 2],
        0x302 => vec![0, 0xb3ff, 0x100, 0x1],
        0x303 => vec![0, 0x222, 0xaaa, 0x20, 2],
        0x105 | 0x305 => vec![0, MT, ST | 1, w(top | 0x7fff_fff4), w(!3)],
        0x106 | 0x306 => vec![0, 2, 7, 1],
        0x140 | 0x340 | 0x143 | 0x343 => vec![0, w(u64::MAX), w(0x0123_4567_89ab_cdef), top],
        0x141 | 0x341 => vec![0, CODE, w(!1), CODE + 2, top, CODE + 3, w(u64::MAX)],
        0x142 | 0x342 => vec![0, 2, 15, top | 7, top | 1],
        0x180 if xlen == 32 => vec![0, 0x12345, 0x8002_0000, 0x003f_ffff],
        0x180 => vec![0, 8 << 60 | 0x80020, 8 << 60, 0x12345],
        0x3a0..=0x3a3 => vec![
            0,
            w(0x1f1f_1f1f_1f1f_1f1f),
            0x0f00,
            w(0x0808_0808_1b19_0d0b),
        ],
        0x3b0..=0x3bf => vec![
            0,
            w(0x3f_ffff_ffff_ffff) & ((1 << 54) - 1),
            0x2000_0000,
            0x2000_03ff,
        ],
        0x7a0 => vec![0, 1, 7, 5],
        0x7a1 => vec![
            0,
            2 << (xlen - 4) | 0x5f,
            2 << (xlen - 4) | 0x44,
            2 << (xlen - 4),
        ],
        0x7a2 => vec![0, CODE + 0x1000, w(u64::MAX), 0x1234],
        _ => vec![0, 2],
    };
    v
}
pub fn known(xlen: u32) -> Vec<u32> {
    let h = Hart::new(xlen);
    (0..4096).filter(|&c| h.csr_known(c)).collect()
}

/// One CSR instruction; where the model leaves the CSR open, it must still either trap as
/// illegal or complete touching nothing but rd and CSRs.
fn csr_case(ctx: &mut Ctx, h: &Hart, ram: &Ram, word: u32, key: &str) -> CaseResult {
    let mut probe = h.clone();
    if probe.step_noint(&mut ram.clone()) != Outcome::Unspecified {
        return lock::run(ctx, h, ram, 1, &[], key);
    }
    let rd = (word >> 7 & 31) as usize;
    let xlen = h.xlen;
    let imp = ctx.imp(xlen);
    imp.lines(h.mip);
    imp.load(h);
    imp.load_ram(ram);
    let r = imp.step();
    let r = match r {
        StepRes::Panic(p) => bad(
            "abort",
            format!("csr {:#x}: the emulator aborts: {p}", word >> 20),
        ),
        StepRes::Ok => {
            let mut ok = h.clone();
            ok.pc += 4;
            ok.x[rd] = imp.x(rd);
            let mut trap = h.clone();
            trap.take_trap(Trap {
                cause: 2,
                tval: word as u64,
            });
            let same = |m: &Hart| {
                imp.pc() == m.pc
                    && imp.cpu.verif_priv() == m.prv
                    && (0..32).all(|i| imp.x(i) == m.x[i])
            };
            let good = if imp.pc() == ok.pc && ok.prv == imp.cpu.verif_priv() {
                same(&ok) && (rd != 0 || imp.x(0) == 0)
            } else {
                imp.diff(&trap).is_none()
            };
            if good {
                Ok(())
            } else {
                bad(key, format!("csr {:#x} at privilege {}: neither completes cleanly nor traps as illegal: pc={:#x} {:?}", word >> 20, h.prv, imp.pc(), imp.diff(&trap)))
            }
        }
    };
    ctx.imp(xlen).clear_ram(ram);
    ctx.step_done();
    ctx.unspecified();
    ctx.trace_done();
    r
}

pub fn run09(rep: &Report) {
    rep.note("CSRs the reference model does not implement may either trap as illegal or complete (touching nothing but rd and CSRs); privilege, read-only and counter-enable rules apply to all 4096 addresses");
    for xlen in [32u32, 64] {
        let prvs = [U, S, M];
        rep.space(&format!("access{xlen}"), &[4096, 6, 4, 3, 8], |ctx, d| {
            let csr_no = d[0] as u32;
            let f3 = [1, 2, 3, 5, 6, 7][d[1]];
            let mut h = Hart::new(xlen);
            let mut ram = Ram::default();
            h.prv = prvs[d[3]];
            h.mcounteren = [0, u32::MAX as u64][d[4] & 1];
            h.scounteren = [0, u32::MAX as u64][d[4] >> 1 & 1];
            h.mstatus = (d[4] >> 2) as u64 * (MST_TVM | MST_TSR);
            h.medeleg = (d[2] & 1) as u64 * 4;
            h.time = 0x0123_4567;
            h.pc = CODE;
            h.mtvec = MT;
            h.stvec = ST;
            h.mscratch = 0x1111;
            h.sscratch = 0x2222;
            h.x[5] = 0x5555;
            let vals = legal(csr_no, xlen);
            h.x[6] = vals[vals.len() - 1];
            // misa writes are outside the explored space
            let rs1 = if csr_no == 0x301 {
                0
            } else {
                [0, 0, 6, 2][d[2]]
            };
            let f3 = if csr_no == 0x301 { f3 | 2 } else { f3 };
            let rd = [0, 5, 5, 0][d[2]];
            let word = csr(f3, rd, csr_no, rs1);
            // an immediate source of 2 or 6 must mean something the model defines
            let rs1 = if f3 & 4 != 0
                && (matches!(csr_no, 0x144 | 0x344 | 0x104 | 0x304 | 0x303)
                    || matches!(csr_no, 0x105 | 0x305 | 0x106 | 0x306))
                && rs1 == 6
            {
                0
            } else {
                rs1
            };
            if f3 & 4 != 0 && rs1 != 0 && matches!(csr_no, 0x105 | 0x305) {
                return Ok(());
            }
            ram.put(CODE, 4, csr(f3, rd, csr_no, rs1) as u64);
            let _ = word;
            csr_case(
                ctx,
                &h,
                &ram,
                csr(f3, rd, csr_no, rs1),
                &format!("csr{csr_no:x}"),
            )
        });
        // counters: every enable bit against every counter
        rep.space(&format!("counters{xlen}"), &[64, 33, 33, 3, 2], |ctx, d| {
            let csr_no = if d[0] < 32 {
                0xc00 + d[0]
            } else {
                0xc80 + d[0] - 32
            } as u32;
            let mut h = Hart::new(xlen);
            let mut ram = Ram::default();
            let en = |k: usize| {
                if k < 32 {
                    1u64 << k
                } else {
                    0xffff_ffff & !(1 << (d[0] & 31))
                }
            };
            h.mcounteren = en(d[1]);
            h.scounteren = en(d[2]);
            h.prv = prvs[d[3]];
            h.pc = CODE;
            h.mtvec = MT;
            h.time = 0x55aa;
            let word = csr(2, 5, csr_no, d[4] as u32);
            ram.put(CODE, 4, word as u64);
            csr_case(ctx, &h, &ram, word, "counter")
        });
        // histories: enabling, disabling and changing privilege between accesses
        let al = [
            Ev::I(csr(1, 0, 0x306, 10)),
            Ev::I(csr(1, 0, 0x306, 0)),
            Ev::I(csr(1, 0, 0x106, 10)),
            Ev::I(csr(1, 0, 0x106, 0)),
            Ev::I(csr(2, 0, 0x300, 11)),
            Ev::I(csr(3, 0, 0x300, 11)),
            Ev::I(MRET),
            Ev::I(SRET),
            Ev::I(ECALL),
            Ev::I(csr(2, 5, 0xc01, 0)),
            Ev::I(csr(1, 5, 0xc01, 10)),
            Ev::I(csr(2, 5, 0x180, 0)),
            Ev::I(csr(2, 5, 0x100, 0)),
            Ev::I(csr(2, 5, 0x340, 0)),
            Ev::I(csr(5, 5, 0x140, 3)),
            Ev::I(csr(2, 5, 0xf14, 0)),
        ];
        let n = al.len();
        rep.space(
            &format!("histories{xlen}"),
            &[3, 4, n, n, n, n, n, if rep.thorough { n } else { 1 }],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let ram = Ram::default();
                h.prv = prvs[d[0]];
                h.mstatus = [0, MST_SPP | 1 << 11, MST_TVM, MST_SPP | MST_TVM | 3 << 11][d[1]];
                h.medeleg = [0, 0x104][d[1] & 1];
                h.pc = CODE;
                h.mtvec = MT;
                h.stvec = ST;
                h.mepc = CODE + 0x40;
                h.sepc = CODE + 0x60;
                h.time = 0x77;
                h.x[10] = 2;
                h.x[11] = MST_TVM;
                let evs: Vec<Ev> = d[2..if rep.thorough { 8 } else { 7 }]
                    .iter()
                    .map(|&k| al[k])
                    .collect();
                lock::run_seq(ctx, &h, &ram, &evs, &[], "history")
            },
        );
    }
    rep.sample(
        "RV32 csrrw x5, 0xf14, x6 from M: read-only -> illegal, mtval = the instruction word"
            .into(),
    );
    rep.sample("RV64 csrrs x5, time from U with mcounteren.TM=1, scounteren.TM=0: illegal".into());
}

pub fn run10(rep: &Report) {
    FULL_DIFF.store(true, Relaxed);
    rep.note("all CSRs the model defines, old values and operands from per-CSR alphabets covering every field; misa bits other than C, odd RV64 pmpcfg, reserved encodings and bits the model does not define are outside the space");
    for xlen in [32u32, 64] {
        let prvs = [U, S, M];
        let ks: Vec<u32> = known(xlen).into_iter().filter(|&c| c >> 10 != 3).collect();
        let tbl: Vec<(u32, Vec<u64>)> = ks.iter().map(|&c| (c, legal(c, xlen))).collect();
        let maxv = tbl.iter().map(|t| t.1.len()).max().unwrap();
        // old value x operand x instruction, then read back through a second instruction
        rep.space(
            &format!("rmw{xlen}"),
            &[tbl.len(), maxv, maxv, 3, 5, 3],
            |ctx, d| {
                let (c, vals) = &tbl[d[0]];
                if d[1] >= vals.len() || d[2] >= vals.len() {
                    return Ok(());
                }
                let mut h = Hart::new(xlen);
                let mut ram = Ram::default();
                h.pc = CODE;
                h.mtvec = MT;
                h.stvec = ST;
                h.mideleg = [0, 0x222, 0xaaa][d[5]];
                h.mscratch = 0x1234;
                h.x[5] = 0xdead;
                h.x[6] = vals[d[1]];
                h.x[7] = vals[d[2]];
                let f3 = [1, 2, 3][d[3]];
                let (rd, rs) = [(5, 7), (0, 7), (7, 7), (5, 0), (0, 0)][d[4]];
                lock::put_code(
                    &mut ram,
                    CODE,
                    &[csr(1, 0, *c, 6), csr(f3, rd, *c, rs), csr(2, 9, *c, 0)],
                );
                lock::run(ctx, &h, &ram, 3, &[], &format!("rmw{c:x}"))
            },
        );
        // one bit at a time, from clear and from full registers
        let full: Vec<(u32, u64)> = ks
            .iter()
            .filter_map(|&c| {
                let m = match c {
                    0x300 => MST_DEFINED & !(MST_MPRV | MST_MPP),
                    0x100 => SST_DEFINED,
                    0x104 | 0x304 | 0x303 => 0xaaa,
                    0x144 | 0x344 => 2,
                    0x302 => 0xb3ff,
                    0x105 | 0x305 => !2,
                    0x106 | 0x306 => 0xffff_ffff,
                    0x140 | 0x141 | 0x143 | 0x340 | 0x341 | 0x343 | 0x7a2 => !0,
                    0x142 | 0x342 => 1 << (xlen - 1) | 15,
                    0x180 if xlen == 32 => 0xffff_ffff,
                    0x180 => (1 << 60) - 1 | 8 << 60,
                    0x3a0 | 0x3a2 => 0x0f0f_0f0f_0f0f_0f0f,
                    0x3a1 | 0x3a3 if xlen == 32 => 0x0f0f_0f0f,
                    0x3b0..=0x3bf => (1 << 54) - 1,
                    0x7a0 => 7,
                    _ => return None,
                };
                Some((c, if xlen == 32 { m & 0xffff_ffff } else { m }))
            })
            .collect();
        rep.space(
            &format!("bits{xlen}"),
            &[full.len(), xlen as usize, 3, 3, 2],
            |ctx, d| {
                let (c, m) = full[d[0]];
                let bit = 1u64 << d[1];
                if m & bit == 0 || (c == 0x180 && bit >> 60 != 0) {
                    return Ok(());
                }
                // below machine mode only the supervisor's own registers
                let sup = d[4] == 1;
                if sup && c >> 8 & 3 != 1 {
                    return Ok(());
                }
                let mut h = Hart::new(xlen);
                let mut ram = Ram::default();
                h.pc = CODE;
                h.mtvec = MT;
                h.prv = if sup { S } else { M };
                h.mideleg = 0x222;
                let old = [0, m, m & 0xaaaa_aaaa_aaaa_aaaa][d[3]];
                h.x[6] = if c == 0x180 && sup { 0 } else { old };
                if c == 0x3a0 || c == 0x3a1 || c == 0x3a2 || c == 0x3a3 {
                    // R=0/W=1 is reserved
                    let wx = 0x0202_0202_0202_0202 & m;
                    if bit & wx != 0 {
                        return Ok(());
                    }
                    h.x[6] = old & !wx | (old & !wx & 0x0101_0101_0101_0101) << 1;
                }
                if c == 0x3a0 && d[2] == 2 && bit & 0x0101_0101_0101_0101 != 0 {
                    return Ok(());
                }
                h.x[7] = bit;
                lock::put_code(
                    &mut ram,
                    CODE,
                    &[
                        csr(1, 0, c, 6),
                        csr([1, 2, 3][d[2]], 5, c, 7),
                        csr(2, 9, c, 0),
                    ],
                );
                lock::run(ctx, &h, &ram, 3, &[], &format!("bit{c:x}"))
            },
        );
        // immediate forms: every 5-bit operand on CSRs whose low bits the model defines
        let imm_csrs: Vec<u32> = [
            0x140u32, 0x340, 0x143, 0x343, 0x142, 0x342, 0x106, 0x306, 0x3b3, 0x7a2, 0x302,
        ]
        .to_vec();
        rep.space(
            &format!("imm{xlen}"),
            &[imm_csrs.len(), 32, 3, 3, 2],
            |ctx, d| {
                let c = imm_csrs[d[0]];
                let mut h = Hart::new(xlen);
                let mut ram = Ram::default();
                h.pc = CODE;
                h.mtvec = MT;
                h.x[5] = 0xdead;
                h.x[6] = if c == 0x302 {
                    [0u64, 0x3ff, 0xa155][d[3]] & 0xb3ff
                } else {
                    [0u64, 0xffff_ffff, 0xa5a5_a5a5][d[3]]
                };
                let mask = if matches!(c, 0x106 | 0x306) {
                    0xffff_ffff
                } else {
                    u64::MAX
                };
                h.x[6] &= mask;
                let f3 = [5, 6, 7][d[2]];
                lock::put_code(
                    &mut ram,
                    CODE,
                    &[
                        csr(1, 0, c, 6),
                        csr(f3, 5 * d[4] as u32, c, d[1] as u32),
                        csr(2, 9, c, 0),
                    ],
                );
                lock::run(ctx, &h, &ram, 3, &[], &format!("imm{c:x}"))
            },
        );
        // the supervisor views against every machine state
        rep.space(
            &format!("status-view{xlen}"),
            &[96, 64, 3, 10, 2],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let mut ram = Ram::default();
                h.pc = CODE;
                h.mtvec = MT;
                h.stvec = ST;
                h.prv = [M, S][d[4]];
                let k = d[1] as u64;
                h.mstatus = crate::p06::mst(d[0])
                    | (k & 1) * MST_FS
                    | (k >> 1 & 1) * MST_SUM
                    | (k >> 2 & 1) * MST_MXR
                    | (k >> 3 & 1) * MST_TVM
                    | (k >> 4 & 1) * MST_TW
                    | (k >> 5 & 1) * MST_TSR;
                h.x[7] = [
                    0,
                    MST_SIE,
                    MST_SPIE,
                    MST_SPP,
                    1 << 13,
                    MST_FS,
                    MST_SUM,
                    MST_MXR,
                    SST_DEFINED,
                    MST_DEFINED,
                ][d[3]];
                let f3 = [1, 2, 3][d[2]];
                lock::put_code(
                    &mut ram,
                    CODE,
                    &[
                        csr(f3, 5, 0x100, 7),
                        csr(2, 6, 0x100, 0),
                        if d[4] == 0 { csr(2, 8, 0x300, 0) } else { NOP },
                    ],
                );
                lock::run(ctx, &h, &ram, 3, &[], "sstatus")
            },
        );
        let bits6 = |k: usize| {
            (0..6).fold(0u64, |v, i| {
                v | ((k >> i & 1) as u64) << [1, 3, 5, 7, 9, 11][i]
            })
        };
        rep.space(&format!("int-view{xlen}"), &[64, 64, 64, 3, 2], |ctx, d| {
            let mut h = Hart::new(xlen);
            let mut ram = Ram::default();
            h.pc = CODE;
            h.mtvec = MT;
            h.stvec = ST;
            h.prv = [M, S][d[4]];
            h.mideleg = bits6(d[0]);
            h.mie = bits6(d[1]);
            h.x[7] = bits6(d[2]);
            let f3 = [1, 2, 3][d[3]];
            lock::put_code(
                &mut ram,
                CODE,
                &[
                    csr(f3, 5, 0x104, 7),
                    csr(2, 6, 0x104, 0),
                    if d[4] == 0 { csr(2, 8, 0x304, 0) } else { NOP },
                ],
            );
            lock::run(ctx, &h, &ram, 3, &[], "sie")
        });
        rep.space(
            &format!("pending-view{xlen}"),
            &[32, 64, 4, 6, 2],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let mut ram = Ram::default();
                h.pc = CODE;
                h.mtvec = MT;
                h.stvec = ST;
                h.prv = [M, S][d[4]];
                h.mip = bits6(d[0] & 3 | (d[0] & 4) | (d[0] & 4) << 1 | (d[0] & 0x18) << 1);
                h.mideleg = bits6(d[1]);
                h.x[7] = [0, 2, 2 | h.mip, 0][d[2]];
                let f3 = [1, 2, 3, 5, 6, 7][d[3]];
                lock::put_code(
                    &mut ram,
                    CODE,
                    &[
                        csr(f3, 5, 0x144, if f3 & 4 != 0 { 2 } else { 7 }),
                        csr(2, 6, 0x144, 0),
                        if d[4] == 0 { csr(2, 8, 0x344, 0) } else { NOP },
                    ],
                );
                lock::run(ctx, &h, &ram, 3, &[], "sip")
            },
        );
        // histories over coupled CSRs
        let al: Vec<Ev> = vec![
            Ev::I(csr(1, 5, 0x300, 10)),
            Ev::I(csr(2, 5, 0x100, 11)),
            Ev::I(csr(3, 6, 0x100, 12)),
            Ev::I(csr(1, 6, 0x304, 13)),
            Ev::I(csr(1, 5, 0x303, 14)),
            Ev::I(csr(2, 5, 0x104, 13)),
            Ev::I(csr(3, 5, 0x104, 14)),
            Ev::I(csr(6, 5, 0x344, 2)),
            Ev::I(csr(7, 5, 0x144, 2)),
            Ev::I(csr(1, 5, 0x144, 14)),
            Ev::I(csr(2, 6, 0x344, 0)),
            Ev::I(csr(5, 5, 0x7a0, 3)),
            Ev::I(csr(5, 5, 0x7a0, 0)),
            Ev::I(csr(5, 5, 0x7a0, 9)),
            Ev::I(csr(1, 6, 0x7a1, 15)),
            Ev::I(csr(1, 5, 0x7a2, 16)),
            Ev::I(csr(3, 5, 0x7a1, 16)),
            Ev::I(csr(1, 5, 0x341, 17)),
            Ev::I(ECALL),
            Ev::I(csr(1, 10, 0x340, 10)),
        ];
        let n = al.len();
        rep.space(
            &format!("histories{xlen}"),
            &[
                if rep.thorough { 1 } else { 2 },
                n,
                n,
                n,
                n,
                n,
                if rep.thorough { n } else { 1 },
            ],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let ram = Ram::default();
                h.prv = prvs[2 - d[0]];
                h.pc = CODE;
                h.mtvec = MT;
                h.stvec = ST;
                h.medeleg = 4;
                h.mideleg = 0x222;
                h.x[10] = MST_SPP | 1 << 13 | MST_SUM | MST_MPIE | 1 << 11;
                h.x[11] = MST_FS | MST_SPIE | MST_MXR | MST_MPIE;
                h.x[12] = MST_SPP | MST_SUM;
                h.x[13] = 0xaaa;
                h.x[14] = 0x022;
                h.x[15] = 2 << (xlen - 4) | 0x41;
                h.x[16] = 0x9000_0001;
                h.x[17] = CODE + 0x83;
                let evs: Vec<Ev> = d[1..if rep.thorough { 7 } else { 6 }]
                    .iter()
                    .map(|&k| al[k])
                    .collect();
                lock::run_seq(ctx, &h, &ram, &evs, &[], "history")
            },
        );
    }
    // a write may carry any bits: the defined fields take theirs, the fixed ones keep their value
    for xlen in [32u32, 64] {
        let pats = xlen as usize + 4;
        rep.space(
            &format!("status-raw{xlen}"),
            &[2, pats, 3, 4, 2],
            |ctx, d| {
                let imp = ctx.imp(xlen);
                let c = [0x300usize, 0x100][d[0]];
                let w = |v: u64| if xlen == 32 { v & 0xffff_ffff } else { v };
                let v = w(match d[1] {
                    k if k < xlen as usize => 1u64 << k,
                    k => [!0, !MST_DEFINED, 0x5555_5555_5555_5555, 0xf_0000_0000 | MST_FS]
                        [k - xlen as usize],
                });
                let old = [0, MST_DEFINED & !MST_MPRV, MST_FS | MST_SPP, 2 << 13][d[3]];
                let mut h = Hart::new(xlen);
                h.mtvec = MT;
                h.pc = CODE;
                h.prv = M;
                h.mstatus = old;
                h.x[7] = v;
                h.x[5] = 0xdead;
                imp.load(&h);
                let f3 = 1 + d[2] as u32;
                let words = [csr(f3, 5, c as u32, 7), csr(2, 6, 0x300, 0), csr(2, 8, 0x100, 0)];
                for (k, w) in words.iter().enumerate() {
                    for j in 0..4u64 {
                        imp.put8(CODE + 4 * k as u64 + j, (w >> (8 * j)) as u8);
                    }
                }
                let field = if c == 0x300 { MST_DEFINED } else { SST_DEFINED };
                let mut want = match d[2] {
                    0 => v & field | old & !field,
                    1 => old | v & field,
                    _ => old & !(v & field),
                };
                if want & MST_MPP == 2 << 11 {
                    want = want & !MST_MPP | old & MST_MPP;
                }
                let ok = (0..3).all(|_| matches!(imp.step(), StepRes::Ok));
                for _ in 0..3 {
                    ctx.step_done();
                }
                let imp = ctx.imp(xlen);
                let (m, s) = (imp.x(6), imp.x(8));
                for a in CODE..CODE + 12 {
                    imp.put8(a, 0);
                }
                let sd = |x: u64| {
                    let dirty = x >> 13 & 3 == 3 || x >> 15 & 3 == 3;
                    (x >> (xlen - 1) & 1 == 1) == dirty
                };
                let why = if !ok {
                    "an access fails"
                } else if m & MST_DEFINED != want {
                    "a field of mstatus"
                } else if s & SST_DEFINED != want & SST_DEFINED || s & MST_DEFINED & !SST_DEFINED != 0 {
                    "a field of sstatus"
                } else if !sd(m) || !sd(s) {
                    "SD"
                } else if xlen == 64 && (m >> 32 & 15 != 10 || s >> 32 & 15 != 2) {
                    "SXL or UXL"
                } else {
                    ""
                };
                ctx.state(&(xlen, d.to_vec()));
                ctx.trace_done();
                if !why.is_empty() {
                    return bad(
                        "status-raw",
                        format!("RV{xlen} csr {c:#x} old {old:#x}, operand {v:#x}, funct3 {f3}: mstatus {m:#x}, sstatus {s:#x}, defined fields {want:#x} expected: {why}"),
                    );
                }
                Ok(())
            },
        );
    }
    // misa: the C bit is writable, but cannot be cleared while the next instruction is misaligned without it
    for xlen in [32u32, 64] {
        let al: Vec<(u32, u32, &str)> = vec![
            (csr(1, 5, 0x301, 10), 0, "csrrw without C"),
            (csr(1, 5, 0x301, 11), 1, "csrrw with C"),
            (csr(2, 5, 0x301, 12), 1, "csrrs C"),
            (csr(3, 5, 0x301, 12), 0, "csrrc C"),
            (csr(6, 5, 0x301, 4), 1, "csrrsi C"),
            (csr(7, 5, 0x301, 4), 0, "csrrci C"),
            (csr(2, 5, 0x301, 0), 2, "csrr"),
            (csr(7, 5, 0x301, 0), 2, "csrrci 0"),
        ];
        let n = al.len();
        rep.space(&format!("misa{xlen}"), &[n, n, n, n], |ctx, d| {
            let imp = ctx.imp(xlen);
            let mut h = Hart::new(xlen);
            h.mtvec = MT;
            h.pc = 0x8000_1000;
            imp.load(&h);
            let init = imp.csr(0x301);
            if init & 4 == 0 {
                return bad("misa", format!("misa resets to {init:#x} without C"));
            }
            imp.set_x(10, init & !4);
            imp.set_x(11, init);
            imp.set_x(12, 4);
            // C is on: start at a misaligned address as soon as possible (c.nop), realign at the end
            let mut want = init;
            let mut pc = h.pc;
            let mut log = vec![];
            let mut res = Ok(());
            let mut tr = 0;
            'run: for (k, &o) in d.iter().enumerate() {
                let (w, c, name) = al[o];
                // the second and third access are at a misaligned pc while C is on
                if (k == 1 || k == 3) && want & 4 != 0 {
                    for (j, b) in 1u16.to_le_bytes().iter().enumerate() {
                        imp.put8(pc + j as u64, *b);
                    }
                    tr += 1;
                    if !matches!(imp.step(), StepRes::Ok) {
                        res = bad("misa", "c.nop does not complete");
                        break 'run;
                    }
                    pc += 2;
                }
                for j in 0..4u64 {
                    imp.put8(pc + j, (w >> (8 * j)) as u8);
                }
                let old = want;
                want = match c {
                    0 if pc % 4 == 0 => want & !4,
                    1 => want | 4,
                    _ => want,
                };
                log.push(format!("{name} at {pc:#x}"));
                tr += 1;
                let ok = matches!(imp.step(), StepRes::Ok);
                pc += 4;
                if !ok || imp.pc() != pc || imp.x(5) != old || imp.csr(0x301) != want {
                    res = bad(
                        "misa",
                        format!(
                            "{log:?}: rd {:#x} misa {:#x} pc {:#x}, expected rd {old:#x} misa {want:#x} pc {pc:#x}",
                            imp.x(5),
                            imp.csr(0x301),
                            imp.pc()
                        ),
                    );
                    break 'run;
                }
            }
            for a in 0x8000_1000..0x8000_1020 {
                imp.put8(a, 0);
            }
            for _ in 0..tr {
                ctx.step_done();
            }
            ctx.state(&(xlen, want, pc, d.to_vec()));
            ctx.trace_done();
            res
        });
    }
    rep.sample(
        "RV64 csrrw mstatus; csrrc x5, sstatus, SPP|SUM; csrr x6: only the view's fields change"
            .into(),
    );
    rep.sample("RV32 mideleg=0x020, mie=0xaaa: csrrs x5, sie, 0x222 -> x5=0x20, mie unchanged except delegated bits".into());
}
