//! P24: composition. The effect of an instruction is a function of the architectural state alone,
//! so whatever was done before, nothing stale or hidden carries over: a translation, a
//! permission, a reservation, a pending interrupt, a privilege or a delegation that was replaced.
//! Every sequence of operations up to a depth, from many starting points, on the real Cpu and on
//! the reference hart, compared after every instruction.
use crate::asm::*;
use crate::drv::{CaseResult, Ctx, Report};
use crate::lock::{run_seq, Ev};
use crate::model::{Hart, Ram, MST_DEFINED};

const UCODE: u64 = 0x8000_0000;
const SCODE: u64 = 0x8000_1000;
const MCODE: u64 = 0x8000_2000;
const A: u64 = 0x8000_4000;
const ALIAS: u64 = 0x8000_5000; // another name of A
const B: u64 = 0x8000_6000;
const TABLES: u64 = 0x8001_0000;
const LAST: u64 = TABLES + 0x2000;
const TABLES2: u64 = 0x8002_0000;
const LAST2: u64 = TABLES2 + 0x2000;

const R: u64 = 2;
const W: u64 = 4;
const X: u64 = 8;
const U: u64 = 16;

fn pte(pa: u64, flags: u64) -> u64 {
    pa >> 2 | flags | 0xc1
}

fn tables(ram: &mut Ram, xlen: u32, root: u64, d1: u64) -> u64 {
    let sz = xlen as u64 / 8;
    let last = root + 0x2000;
    let mut page = |va: u64, pa: u64, flags: u64| {
        ram.put(last + (va >> 12 & 0x1ff) * sz, sz, pte(pa, flags));
    };
    page(UCODE, UCODE, U | R | X);
    page(SCODE, SCODE, R | X);
    page(A, d1, R | W);
    page(ALIAS, A, R | W);
    page(B, B, R | W);
    for k in 0..3 {
        page(TABLES + k * 0x1000, TABLES + k * 0x1000, R | W);
    }
    if xlen == 32 {
        ram.put(root + 4 * 0x200, 4, last >> 2 | 1);
        1 << 31 | root >> 12
    } else {
        ram.put(root + 8 * 2, 8, (root + 0x1000) >> 2 | 1);
        ram.put(root + 0x1000, 8, last >> 2 | 1);
        8 << 60 | root >> 12
    }
}

/// start: mode 0 user, 1 supervisor, 2 machine; translation; delegation
fn world(xlen: u32, mode: usize, paged: bool, deleg: bool) -> (Hart, Ram) {
    let mut h = Hart::new(xlen);
    let mut ram = Ram::default();
    h.prv = [0, 1, 3][mode];
    h.pc = [UCODE, SCODE, MCODE][mode] + 0x40;
    h.mtvec = MCODE + 0x800;
    h.stvec = SCODE + 0x800;
    h.mepc = UCODE + 0x140;
    h.sepc = UCODE + 0x180;
    h.mcounteren = 7;
    h.scounteren = 7;
    h.time = 0x0123_4567;
    h.mstatus = 0x80; // MPIE
    if deleg {
        h.medeleg = 0xb1ff;
        h.mideleg = 0x222;
        h.mstatus |= 0x20;
    }
    h.pmpaddr[0] = A >> 2 | 0x1ff;
    h.pmpaddr[1] = h.w(u64::MAX >> 10);
    h.pmpcfg[0] = 0x1f;
    h.pmpcfg[1] = 0x1f;
    h.tdata1[0] = 2 << (xlen - 4);
    h.tdata2[0] = ALIAS + 0x10;
    let satp = tables(&mut ram, xlen, TABLES, A);
    let satp2 = tables(&mut ram, xlen, TABLES2, B);
    if paged {
        h.satp = satp;
    }
    let sz = xlen as u64 / 8;
    for k in 0..0x20 {
        ram.put(A + k, 1, 0x40 + k);
        ram.put(B + k, 1, 0xa0 + k);
    }
    let pair: &[(usize, u64)] = &[
        (1, 1 << 18),
        (2, 1 << 19),
        (3, 7 << 20),
        (4, 2 << (xlen - 4) | 0x59),
        (5, 0xb1ff),
        (6, 0x1f98),
        (7, 0x1f1f),
        (10, A + 0x10),
        (11, ALIAS + 0x10),
        (12, LAST + (A >> 12 & 0x1ff) * sz),
        (13, pte(B, R | W)),
        (14, pte(A, U | R | W)),
        (15, pte(A, X)),
        (16, satp),
        (17, satp2),
        (18, 1 << 17),
        (19, 0x8877_6655_4433_2211),
        (20, 0x800),
        (21, 0x1800),
        (24, 0x222),
        (25, 0xaaa),
        (26, UCODE + 0x1c0),
        (27, SCODE + 0x1c0),
        (28, LAST + (SCODE >> 12 & 0x1ff) * sz),
        (29, 0x1f18),
        (30, pte(A, R)),
        (22, B >> 2 | 0x1ff),
        (23, SCODE + 0x900),
        (31, if xlen == 32 { 1 << 31 } else { 8 << 60 }),
    ];
    for &(r, v) in pair {
        h.x[r] = h.w(v);
    }
    debug_assert!(h.mstatus & !MST_DEFINED == 0);
    (h, ram)
}

/// What one step of a sequence can be; the first ones are also the observations that end the
/// longer sequences.
fn alphabet(xlen: u32) -> (Vec<(&'static str, Vec<Ev>)>, usize) {
    use Ev::{Lines, C, I};
    let sz = xlen as u64 / 8;
    let f3 = if xlen == 32 { 2 } else { 3 };
    let ld = |rd, rs| I(load(f3, rd, rs, 0));
    let sd = |rs2, rs| I(store(f3, rs2, rs, 0));
    let rw = |n, rs| I(csr(1, 0, n, rs));
    let set = |n, rs| I(csr(2, 0, n, rs));
    let clr = |n, rs| I(csr(3, 0, n, rs));
    let seti = |n, v| I(csr(6, 0, n, v));
    let clri = |n, v| I(csr(7, 0, n, v));
    let sf = I(SFENCE);
    let observers = vec![
        ("load", vec![ld(8, 10)]),
        ("store", vec![sd(20, 10)]),
        ("load alias", vec![ld(8, 11)]),
        ("sc", vec![I(amo(3, sz, 9, 10, 19))]),
        ("amoadd", vec![I(amo(0, sz, 8, 10, 19))]),
        ("nop", vec![I(NOP)]),
        ("ecall", vec![I(ECALL)]),
        ("mret", vec![I(MRET)]),
        ("sret", vec![I(SRET)]),
        ("rdtime", vec![I(csr(2, 8, 0xc01, 0))]),
        ("read sip", vec![I(csr(2, 8, 0x144, 0))]),
        ("read mip", vec![I(csr(2, 8, 0x344, 0))]),
        ("illegal", vec![I(0)]),
    ];
    let n = observers.len();
    let mut v = observers;
    v.extend([
        ("store alias", vec![sd(19, 11)]),
        ("lr", vec![I(amo(2, sz, 8, 10, 0))]),
        ("lr alias", vec![I(amo(2, sz, 8, 11, 0))]),
        ("sc word", vec![I(amo(3, 4, 9, 10, 19))]),
        ("page := B", vec![sd(13, 12), sf]),
        ("page := user", vec![sd(14, 12), sf]),
        ("page := none", vec![sd(0, 12), sf]),
        ("page := X", vec![sd(15, 12), sf]),
        ("page := R", vec![sd(30, 12), sf]),
        ("code page := none", vec![sd(0, 28), sf]),
        ("satp off", vec![rw(0x180, 0), sf]),
        ("satp on", vec![rw(0x180, 16), sf]),
        ("satp other", vec![rw(0x180, 17), sf]),
        ("satp mode off", vec![clr(0x180, 31), sf]),
        ("satp mode on", vec![set(0x180, 31), sf]),
        ("set MPRV", vec![set(0x300, 18)]),
        ("clear MPRV", vec![clr(0x300, 18)]),
        ("MPP |= S", vec![set(0x300, 20)]),
        ("MPP := U", vec![clr(0x300, 21)]),
        ("MPP := M", vec![set(0x300, 21)]),
        ("set SUM", vec![set(0x100, 1)]),
        ("clear SUM", vec![clr(0x100, 1)]),
        ("set MXR", vec![set(0x100, 2)]),
        ("set SIE", vec![seti(0x100, 2)]),
        ("set MIE", vec![seti(0x300, 8)]),
        ("set TVM TW TSR", vec![set(0x300, 3)]),
        ("clear TVM TW TSR", vec![clr(0x300, 3)]),
        ("mideleg := all", vec![rw(0x303, 24)]),
        ("mideleg := 0", vec![rw(0x303, 0)]),
        ("medeleg := all", vec![rw(0x302, 5)]),
        ("medeleg := 0", vec![rw(0x302, 0)]),
        ("mie := all", vec![rw(0x304, 25)]),
        ("sie := all", vec![rw(0x104, 25)]),
        ("mie := 0", vec![rw(0x304, 0)]),
        ("set mip.SSIP", vec![seti(0x344, 2)]),
        ("set sip.SSIP", vec![seti(0x144, 2)]),
        ("clear sip.SSIP", vec![clri(0x144, 2)]),
        ("ebreak", vec![I(EBREAK)]),
        ("wfi", vec![I(WFI)]),
        ("mtvec vectored", vec![seti(0x305, 1)]),
        ("stvec vectored", vec![seti(0x105, 1)]),
        ("timer and software lines", vec![Lines(0x88)]),
        ("external lines", vec![Lines(0xa00)]),
        ("no lines", vec![Lines(0)]),
        ("pmp closed", vec![rw(0x3a0, 29), sf]),
        ("pmp open", vec![rw(0x3a0, 7), sf]),
        ("pmp locked", vec![rw(0x3a0, 6), sf]),
        ("pmpaddr := B", vec![rw(0x3b0, 22), sf]),
        ("tdata2 := A", vec![rw(0x7a2, 10)]),
        ("tselect := 1", vec![I(csr(5, 0, 0x7a0, 1))]),
        ("mtvec := other", vec![rw(0x305, 23)]),
        ("stvec := other", vec![rw(0x105, 23)]),
        ("trigger on", vec![rw(0x7a1, 4)]),
        ("trigger off", vec![rw(0x7a1, 0)]),
        ("c.nop", vec![C(1)]),
        ("mepc := user", vec![rw(0x341, 26)]),
        ("mepc := supervisor", vec![rw(0x341, 27)]),
        ("sepc := user", vec![rw(0x141, 26)]),
        ("sepc := supervisor", vec![rw(0x141, 27)]),
        ("mcounteren := 0", vec![rw(0x306, 0)]),
        ("scounteren := 0", vec![rw(0x106, 0)]),
        ("fence.i", vec![I(0x100f)]),
    ]);
    (v, n)
}

fn sequence(
    ctx: &mut Ctx,
    w: &(Hart, Ram),
    alpha: &[(&'static str, Vec<Ev>)],
    seq: &[usize],
) -> CaseResult {
    let mut evs = Vec::with_capacity(2 * seq.len());
    for &k in seq {
        evs.extend_from_slice(&alpha[k].1);
    }
    run_seq(
        ctx,
        &w.0,
        &w.1,
        &evs,
        &[(A, 0x20), (B, 0x20), (LAST + 8, 8)],
        "sequence",
    )
    .map_err(|(k, t)| {
        let names: Vec<_> = seq.iter().map(|&k| alpha[k].0).collect();
        (k, format!("sequence {names:?}\n{t}"))
    })
}

pub fn run(rep: &Report) {
    let worlds: Vec<Vec<(Hart, Ram)>> = [32, 64]
        .iter()
        .map(|&x| {
            (0..12)
                .map(|c| world(x, c % 3, c / 3 % 2 == 1, c / 6 == 1))
                .collect()
        })
        .collect();
    let (alpha, nobs) = alphabet(32);
    let alphas = [alpha, alphabet(64).0];
    let n = alphas[0].len();
    for (xi, xlen) in [32, 64].iter().enumerate() {
        rep.space(&format!("rv{xlen}.depth3"), &[12, n, n, n], |ctx, d| {
            sequence(ctx, &worlds[xi][d[0]], &alphas[xi], &d[1..])
        });
        let sel: Vec<usize> = if rep.thorough {
            (0..12).collect()
        } else {
            // machine with translation, supervisor with translation and delegation
            vec![[5, 10][xi]]
        };
        rep.space(
            &format!("rv{xlen}.depth4"),
            &[sel.len(), n, n, n, nobs],
            |ctx, d| sequence(ctx, &worlds[xi][sel[d[0]]], &alphas[xi], &d[1..]),
        );
    }
}
