//! P06: trap entry. P07: trap returns and gated instructions. P08: interrupts.
use crate::asm::{self, *};
use crate::drv::Report;
use crate::lock::{self, Ev, CODE, DATA};
use crate::model::*;

pub const MT: u64 = 0x8000_4000;
pub const ST: u64 = 0x8000_6000;
pub const ROOT: u64 = 0x8002_0000;

/// mstatus from its six trap fields
pub fn mst(k: usize) -> u64 {
    let b = |n: usize| (k >> n & 1) as u64;
    b(0) * MST_SIE
        | b(1) * MST_MIE
        | b(2) * MST_SPIE
        | b(3) * MST_MPIE
        | b(4) * MST_SPP
        | [0, 1, 3][k / 32] << 11
}
pub const NMST: usize = 96;

/// identity-map the gigapage/megapage holding the code, and nothing else
pub fn identity(h: &mut Hart, ram: &mut Ram, user: bool) {
    let fl = 0xcf | (user as u64) << 4;
    if h.xlen == 32 {
        h.satp = 1 << 31 | ROOT >> 12;
        ram.put(ROOT + 4 * 0x200, 4, (0x8000_0000u64 >> 12) << 10 | fl);
    } else {
        h.satp = 8 << 60 | ROOT >> 12;
        ram.put(ROOT + 8 * 2, 8, (0x8000_0000u64 >> 12) << 10 | fl);
    }
}

pub fn run06(rep: &Report) {
    rep.note("every exception source, privilege, delegation pattern, interrupt-enable/previous-mode combination and vector mode; MPRV with a saved lower mode only as an address-path modifier");
    for xlen in [32u32, 64] {
        let prvs = [U, S, M];
        // (name, code at pc, paging, extra setup)
        let sources: Vec<(&str, u32)> = vec![
            ("ecall", ECALL),
            ("ebreak", EBREAK),
            ("c.ebreak", 0x9002),
            ("illegal32", 0xffff_ffff),
            ("illegal16", 0x0000),
            ("illegal csr", csr(1, 7, 0xf11, 8)),
            ("load misaligned", load(2, 7, 8, 1)),
            ("store misaligned", store(1, 7, 8, 1)),
            ("amo misaligned", amo(0, 4, 7, 21, 8)),
            ("lr misaligned", amo(2, 4, 7, 21, 0)),
            ("load access", load(2, 7, 9, 0)),
            ("store access", store(2, 7, 9, 0)),
            ("amo access", amo(1, 4, 7, 9, 8)),
            ("fetch access", 0),
            ("load page", load(2, 7, 10, 4)),
            ("store page", store(2, 7, 10, 4)),
            ("amo page", amo(1, 4, 7, 10, 8)),
            ("fetch page", 0),
            ("fetch page second half", NOP),
            ("load trigger", load(2, 7, 8, 0)),
            ("store trigger", store(2, 7, 8, 0)),
            ("fetch trigger", NOP),
            ("c.lwsp misaligned", 0x40d2),
            ("c.swsp misaligned", 0xc01e),
        ];
        let tv = [
            (MT, ST),
            (MT | 1, ST | 1),
            (MT | 1, ST),
            (0x8000_5004, 0x8000_7008),
        ];
        rep.space(
            &format!("sources{xlen}"),
            &[sources.len(), 3, 5, NMST, tv.len(), 2],
            |ctx, d| {
                let (name, word) = sources[d[0]];
                let mut h = Hart::new(xlen);
                let mut ram = Ram::default();
                h.prv = prvs[d[1]];
                h.mstatus = mst(d[3]);
                h.pc = [CODE, CODE + 0x102][d[5]];
                h.mtvec = tv[d[4]].0;
                h.stvec = tv[d[4]].1;
                h.x[2] = DATA + 2;
                h.x[7] = 0x7777;
                h.x[8] = DATA;
                h.x[9] = 0x4000_0000;
                h.x[10] = 0x1_0000;
                h.x[21] = DATA + 2;
                ram.put(DATA, 8, 0x1234_5678_9abc_def0);
                h.mscratch = 0x55;
                h.mepc = 0x10;
                h.sepc = 0x20;
                h.mcause = 0x1f;
                h.scause = 0x1e;
                h.mtval = 0x99;
                h.stval = 0x98;
                match name {
                    "fetch access" => h.pc = 0x4000_0000 + 2 * d[5] as u64,
                    n if n.contains("page") => {
                        if h.prv != M {
                            let user = h.prv == U;
                            identity(&mut h, &mut ram, user);
                        } else {
                            identity(&mut h, &mut ram, false);
                        }
                        if name == "fetch page" {
                            h.pc = 0x1_0000 + 2 * d[5] as u64;
                        }
                        if n.ends_with("half") && h.prv != M {
                            // last halfword of the only mapped superpage
                            h.pc = if xlen == 32 {
                                0x8040_0000 - 2
                            } else {
                                0xc000_0000 - 2
                            };
                        }
                    }
                    "load trigger" => {
                        h.tdata1[3] = 2 << (xlen - 4) | 0x59;
                        h.tdata2[3] = DATA;
                    }
                    "store trigger" => {
                        h.tdata1[7] = 2 << (xlen - 4) | 0x5a;
                        h.tdata2[7] = DATA;
                    }
                    "fetch trigger" => {
                        h.tdata1[0] = 2 << (xlen - 4) | 0x5c;
                        h.tdata2[0] = h.pc;
                    }
                    _ => {}
                }
                if Ram::ok(h.pc, 4) && !name.starts_with("fetch a") {
                    ram.put(h.pc, 4, word as u64);
                }
                // delegation: none, all, only the cause this source raises, all but it, none of the S/U ecall
                let mut probe = h.clone();
                let cause = match probe.step_noint(&mut ram.clone()) {
                    Outcome::Trapped(t) => t.cause,
                    _ => 0,
                };
                h.medeleg = [
                    0,
                    0xb3ff,
                    1 << cause & 0xb3ff,
                    0xb3ff & !(1 << cause),
                    0xb3ff & !0x300,
                ][d[2]];
                lock::run(ctx, &h, &ram, 2, &[(DATA - 8, 32)], name)
            },
        );
        // every interrupt, every mode and vector shape
        rep.space(
            &format!("interrupts{xlen}"),
            &[5, 3, 4, NMST, tv.len(), 2],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let mut ram = Ram::default();
                h.mip = [1 << 1, 1 << 3, 0xa0, 1 << 9, 1 << 11][d[0]];
                h.mie = [0xaaa, 0xaaa & !0x20, 0xaaa & !0x80, h.mip][d[2]];
                h.mideleg = [0, 0x222][d[5]];
                h.prv = prvs[d[1]];
                h.mstatus = mst(d[3]);
                h.pc = CODE + 6;
                h.mtvec = tv[d[4]].0;
                h.stvec = tv[d[4]].1;
                h.mtval = 0x77;
                h.stval = 0x78;
                h.x[8] = DATA;
                h.x[7] = 0x4242;
                ram.put(h.pc, 4, store(2, 7, 8, 0) as u64);
                lock::run(ctx, &h, &ram, 2, &[(DATA - 8, 32)], "interrupt")
            },
        );
        // traps inside handlers: every sequence of raising instructions from every mode
        let al = [
            Ev::I(ECALL),
            Ev::C(0x9002),
            Ev::I(0xffff_ffff),
            Ev::I(load(2, 7, 8, 1)),
            Ev::I(store(2, 7, 9, 0)),
            Ev::I(addi(7, 7, 1)),
            Ev::I(j(6, 1)),
            Ev::I(MRET),
            Ev::I(SRET),
            Ev::I(csr(1, 5, 0x140, 7)),
            Ev::I(jalr_unmapped()),
        ];
        let n = al.len();
        rep.space(
            &format!("nested{xlen}"),
            &[3, 4, 3, n, n, n, n, n, if rep.thorough { n } else { 1 }],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let ram = Ram::default();
                h.prv = prvs[d[0]];
                h.pc = CODE;
                h.medeleg = [0, 0xb3ff, 0x100, 0x004][d[1]];
                h.mstatus = mst([0x0f, 0x50, 0x35][d[2]]);
                h.mtvec = MT | 1;
                h.stvec = ST;
                h.mepc = CODE + 0x40;
                h.sepc = CODE + 0x60;
                h.x[8] = DATA;
                h.x[9] = 0x4000_0000;
                let evs: Vec<Ev> = d[3..if rep.thorough { 9 } else { 8 }]
                    .iter()
                    .map(|&k| al[k])
                    .collect();
                lock::run_seq(ctx, &h, &ram, &evs, &[], "nested")
            },
        );
    }
    rep.sample("RV32 'amo misaligned' from U with medeleg=0xb3ff, mstatus combination 53: enters S at stvec, scause=6, stval=0x80010002".into());
    rep.sample("RV64 mip=MTIP|STIP from S with mtvec vectored: pc = mtvec + 28".into());
}
fn jalr_unmapped() -> u32 {
    asm::i(0, 9, 0, 6, 0x67)
}

pub fn run07(rep: &Report) {
    rep.note("MRET to a lower mode with MPRV set and WFI with TW set are left open (the privileged specification versions differ)");
    for xlen in [32u32, 64] {
        let w = |v: u64| if xlen == 32 { v & 0xffff_ffff } else { v };
        let prvs = [U, S, M];
        let epcs: Vec<u64> = [
            CODE + 0x100,
            CODE + 0x102,
            CODE + 0x101,
            0,
            w(u64::MAX),
            w(1 << 63),
            0x4000_0003,
        ]
        .to_vec();
        let rets = [
            MRET,
            SRET,
            WFI,
            SFENCE,
            0x1200_0073 | 9 << 20 | 8 << 15,
            0x0020_0073,
            0x7b20_0073,
        ];
        rep.space(
            &format!("returns{xlen}"),
            &[rets.len(), 3, NMST, 16, epcs.len(), 3],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let mut ram = Ram::default();
                h.prv = prvs[d[1]];
                h.mstatus = mst(d[2])
                    | (d[3] as u64 & 1) * MST_TSR
                    | (d[3] as u64 >> 1 & 1) * MST_TVM
                    | (d[3] as u64 >> 2 & 1) * MST_TW
                    | (d[3] as u64 >> 3 & 1) * (MST_SUM | MST_MXR | MST_FS);
                if d[5] == 1 {
                    if h.mstatus & MST_MPP != MST_MPP {
                        return Ok(());
                    }
                    h.mstatus |= MST_MPRV;
                }
                h.medeleg = [0, 0, 4][d[5]];
                h.pc = CODE;
                h.mtvec = MT;
                h.stvec = ST;
                h.mepc = epcs[d[4]];
                h.sepc = epcs[(d[4] + 2) % epcs.len()];
                h.x[8] = 0x1000;
                h.x[9] = 0x22;
                ram.put(CODE, 4, rets[d[0]] as u64);
                lock::run(ctx, &h, &ram, 1, &[], &format!("ret{}", d[0]))
            },
        );
        // the fence with every register pair
        rep.space(&format!("sfence{xlen}"), &[32, 32, 3, 2, 2], |ctx, d| {
            let mut h = Hart::new(xlen);
            let mut ram = Ram::default();
            h.prv = prvs[d[2]];
            h.mstatus = d[3] as u64 * MST_TVM;
            h.medeleg = d[4] as u64 * 4;
            h.pc = CODE;
            h.mtvec = MT;
            h.stvec = ST;
            crate::p01::regfile(&mut h, 1);
            ram.put(
                CODE,
                4,
                (SFENCE | (d[0] as u32) << 15 | (d[1] as u32) << 20) as u64,
            );
            lock::run(ctx, &h, &ram, 1, &[], "sfence")
        });
        // sequences of returns, traps and status changes
        let al = [
            Ev::I(MRET),
            Ev::I(SRET),
            Ev::I(ECALL),
            Ev::I(EBREAK),
            Ev::I(SFENCE),
            Ev::I(csr(1, 0, 0x300, 10)), // MPP=S, MPIE, SPP
            Ev::I(csr(1, 0, 0x300, 11)), // MPP=U, TSR, TVM
            Ev::I(csr(2, 5, 0x100, 12)), // set SPP|SPIE
            Ev::I(csr(3, 5, 0x100, 12)),
            Ev::I(csr(1, 0, 0x341, 13)),
            Ev::I(csr(1, 0, 0x141, 14)),
            Ev::I(csr(1, 6, 0x302, 15)),
            Ev::I(addi(7, 7, 1)),
        ];
        let n = al.len();
        rep.space(
            &format!("walks{xlen}"),
            &[3, n, n, n, n, n, n, if rep.thorough { n } else { 1 }],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let ram = Ram::default();
                h.prv = prvs[d[0]];
                h.pc = CODE;
                h.mtvec = MT;
                h.stvec = ST;
                h.mepc = CODE + 0x40;
                h.sepc = CODE + 0x60;
                h.medeleg = 0x104;
                h.x[10] = 1 << 11 | MST_MPIE | MST_SPP;
                h.x[11] = MST_TSR | MST_TVM | MST_MIE;
                h.x[12] = MST_SPP | MST_SPIE;
                h.x[13] = CODE + 0x80;
                h.x[14] = CODE + 0x82;
                h.x[15] = 0xb300;
                let evs: Vec<Ev> = d[1..if rep.thorough { 8 } else { 7 }]
                    .iter()
                    .map(|&k| al[k])
                    .collect();
                lock::run_seq(ctx, &h, &ram, &evs, &[], "walk")
            },
        );
    }
    rep.sample("RV64 sret in S with TSR=1: illegal instruction, mtval=0x10200073, mstatus otherwise as on trap entry".into());
    rep.sample(
        "RV32 walk from U: ecall(->S), csrs sstatus SPP|SPIE, sret(->S), mret(illegal)".into(),
    );
}

pub fn run08(rep: &Report) {
    rep.note("mip bits 5 and 7 are driven together by the timer comparison (carron's contract); MSIP by the CLINT, MEIP and SEIP by the PLIC contexts, SSIP by software");
    for xlen in [32u32, 64] {
        let prvs = [U, S, M];
        // all pending sets x all enables x all delegations x modes x global enables
        let bits6 = |k: usize| {
            (0..6).fold(0u64, |v, i| {
                v | ((k >> i & 1) as u64) << [1, 3, 5, 7, 9, 11][i]
            })
        };
        let pend = |k: usize| {
            (k as u64 & 1) << 1
                | (k as u64 >> 1 & 1) << 3
                | (k as u64 >> 2 & 1) * 0xa0
                | (k as u64 >> 3 & 1) << 9
                | (k as u64 >> 4 & 1) << 11
        };
        rep.space(&format!("single{xlen}"), &[32, 64, 64, 3, 4], |ctx, d| {
            let mut h = Hart::new(xlen);
            let mut ram = Ram::default();
            h.mip = pend(d[0]);
            h.mie = bits6(d[1]);
            h.mideleg = bits6(d[2]);
            h.prv = prvs[d[3]];
            h.mstatus = (d[4] as u64 & 1) * MST_MIE | (d[4] as u64 >> 1) * MST_SIE;
            h.pc = CODE;
            h.mtvec = MT | 1;
            h.stvec = ST | 1;
            ram.put(CODE, 4, addi(5, 5, 1) as u64);
            lock::run(ctx, &h, &ram, 1, &[], "single")
        });
        // histories of line changes, enables and returns
        let al = [
            Ev::Lines(0),
            Ev::Lines(0x80),
            Ev::Lines(0x808),
            Ev::Lines(0x200),
            Ev::I(csr(6, 0, 0x344, 2)), // set SSIP
            Ev::I(csr(7, 6, 0x144, 2)), // clear SSIP from the supervisor view
            Ev::I(csr(1, 0, 0x304, 10)),
            Ev::I(csr(3, 5, 0x304, 11)),
            Ev::I(csr(6, 0, 0x300, 8)), // set MIE
            Ev::I(csr(6, 0, 0x100, 2)), // set SIE
            Ev::I(MRET),
            Ev::I(SRET),
            Ev::I(WFI),
            Ev::I(csr(2, 12, 0x344, 0)),
        ];
        let n = al.len();
        rep.space(
            &format!("histories{xlen}"),
            &[3, 3, 2, n, n, n, n, n, if rep.thorough { n } else { 1 }],
            |ctx, d| {
                let mut h = Hart::new(xlen);
                let ram = Ram::default();
                h.prv = prvs[d[0]];
                h.mideleg = [0, 0x222, 0x022][d[1]];
                h.mie = [0xaaa, 0x0aa][d[2]];
                h.mstatus = MST_MPIE | MST_SPIE | 1 << 11;
                h.pc = CODE;
                h.mtvec = MT;
                h.stvec = ST | 1;
                h.mepc = CODE + 0x40;
                h.sepc = CODE + 0x60;
                h.x[10] = 0xaaa;
                h.x[11] = 0x0a8;
                let evs: Vec<Ev> = d[3..if rep.thorough { 9 } else { 8 }]
                    .iter()
                    .map(|&k| al[k])
                    .chain([Ev::I(addi(5, 5, 1))])
                    .collect();
                lock::run_seq(ctx, &h, &ram, &evs, &[], "history")
            },
        );
    }
    rep.sample("RV64 S-mode, SIE=1, mip={STIP,MTIP,SEIP}, mie=all, mideleg=0x222: machine timer (not delegated) is taken first".into());
    rep.sample("RV32 history: lines 0x808, csrw mie, csrs mstatus.MIE, addi".into());
}
