//! P16: the timer. Two 64-bit registers and the time counter, driven through instructions.
use crate::asm::*;
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::imp::{guard, Imp, StepRes, MTIME, MTIMECMP};
use crate::model::{MST_MIE, MST_SIE};

const CODE: u64 = 0x8000_0000;
const TVEC: u64 = 0x8000_1000;
const STVEC: u64 = 0x8000_2000;

#[derive(Clone, Copy, Debug, Hash)]
struct Model {
    mtime: u64,
    cmp: u64,
    time: u64,
}
impl Model {
    fn pending(&self) -> bool {
        self.mtime >= self.cmp
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    /// store of 4 or 8 bytes at offset from mtime (false) / mtimecmp (true)
    St(bool, u64, u64, u64),
    Tick(u64),
    /// read everything back
    Read,
    /// one instruction with the timer interrupt enabled
    Irq,
    Nop,
}
use Op::*;

/// Execute one instruction at CODE in the given privilege; the caller looks at the result.
fn exec(imp: &mut Imp, w: u32) -> Result<(), String> {
    for (k, b) in w.to_le_bytes().iter().enumerate() {
        imp.put8(CODE + k as u64, *b);
    }
    imp.cpu.verif_set_pc(CODE);
    match imp.step() {
        StepRes::Ok => Ok(()),
        StepRes::Panic(p) => Err(format!("instruction {w:#x} aborts the emulator: {p}")),
    }
}
fn retire(imp: &mut Imp, w: u32) -> Result<(), String> {
    exec(imp, w)?;
    if imp.pc() != CODE + 4 {
        return Err(format!(
            "instruction {w:#x} traps: cause {:#x}",
            imp.csr(0x342)
        ));
    }
    Ok(())
}
/// load through an instruction
fn ld(imp: &mut Imp, addr: u64, size: u64) -> Result<u64, String> {
    imp.set_x(5, addr);
    retire(imp, load(if size == 4 { 2 } else { 3 }, 7, 5, 0))?;
    Ok(imp.x(7))
}

fn check(m: &Model, imp: &mut Imp) -> Result<(), String> {
    retire(imp, csr(2, 7, 0x344, 0))?;
    let p = imp.x(7) & 0xa0;
    let w = if m.pending() { 0xa0 } else { 0 };
    if p != w {
        return Err(format!("mip timer bits: spec {w:#x}, carron {p:#x}"));
    }
    Ok(())
}

/// reads of the registers as the ISA sign-extends them
fn readback(m: &Model, imp: &mut Imp) -> Result<(), String> {
    let w = imp.xlen;
    let sx = |v: u64| {
        if w == 32 {
            v & 0xffff_ffff
        } else {
            v as u32 as i32 as i64 as u64
        }
    };
    for (n, base, v) in [("mtime", MTIME, m.mtime), ("mtimecmp", MTIMECMP, m.cmp)] {
        for (half, want) in [(0, sx(v)), (4, sx(v >> 32))] {
            let got = ld(imp, base + half, 4)?;
            if got != want {
                return Err(format!("{n}+{half}: spec {want:#x}, carron {got:#x}"));
            }
        }
        if w == 64 {
            let got = ld(imp, base, 8)?;
            if got != v {
                return Err(format!("{n}: spec {v:#x}, carron {got:#x}"));
            }
        }
    }
    retire(imp, csr(2, 7, 0xc01, 0))?;
    let want = if w == 32 {
        m.time & 0xffff_ffff
    } else {
        m.time
    };
    if imp.x(7) != want {
        return Err(format!("time: spec {want:#x}, carron {:#x}", imp.x(7)));
    }
    if w == 32 {
        retire(imp, csr(2, 7, 0xc81, 0))?;
        if imp.x(7) != m.time >> 32 {
            return Err(format!(
                "timeh: spec {:#x}, carron {:#x}",
                m.time >> 32,
                imp.x(7)
            ));
        }
    }
    Ok(())
}

/// One nop in privilege `prv` with enable bits; the timer interrupt goes where it should.
fn irq(m: &Model, imp: &mut Imp, prv: u8, ie: bool, deleg: bool) -> Result<(), String> {
    let c = &mut imp.cpu;
    c.verif_set_csr(0x304, if deleg { 0x20 } else { 0x80 });
    c.verif_set_csr(0x303, if deleg { 0x20 } else { 0 });
    c.verif_set_csr(0x300, if ie { MST_MIE | MST_SIE } else { 0 });
    c.verif_set_priv(prv);
    exec(imp, NOP)?;
    let taken = m.pending()
        && match (deleg, prv) {
            (false, 3) => ie,
            (false, _) => true,
            (true, 3) => false,
            (true, 1) => ie,
            (true, _) => true,
        };
    let want = match (taken, deleg) {
        (false, _) => CODE + 4,
        (true, false) => TVEC,
        (true, true) => STVEC,
    };
    let cause = imp.csr(if deleg { 0x142 } else { 0x342 });
    let code = 1u64 << (imp.xlen - 1) | if deleg { 5 } else { 7 };
    let bad_cause = taken && cause != code;
    if imp.pc() != want || bad_cause {
        return Err(format!(
            "nop in privilege {prv} (enabled {ie}, delegated {deleg}): spec pc {want:#x}, carron pc {:#x}, cause {cause:#x}",
            imp.pc()
        ));
    }
    let c = &mut imp.cpu;
    c.verif_set_priv(3);
    c.verif_set_csr(0x304, 0);
    c.verif_set_csr(0x303, 0);
    c.verif_set_csr(0x300, 0);
    Ok(())
}

fn apply(m: &mut Model, imp: &mut Imp, op: Op) -> Result<(), String> {
    match op {
        St(which, off, size, v) => {
            imp.set_x(5, if which { MTIMECMP } else { MTIME });
            imp.set_x(6, v);
            retire(imp, store(if size == 4 { 2 } else { 3 }, 6, 5, off as i32))?;
            let r = if which { &mut m.cmp } else { &mut m.mtime };
            *r = match (size, off) {
                (8, _) => v,
                (_, 0) => *r & !0xffff_ffff | v & 0xffff_ffff,
                _ => *r & 0xffff_ffff | v << 32,
            };
        }
        Tick(n) => {
            imp.cpu.timer_increment(n);
            m.mtime = m.mtime.wrapping_add(n);
            m.time = m.time.wrapping_add(n);
        }
        Read => readback(m, imp)?,
        Irq => irq(m, imp, 3, true, false)?,
        Nop => retire(imp, NOP)?,
    }
    check(m, imp)
}

fn start(imp: &mut Imp, m: &Model) {
    imp.lines(0);
    imp.timer(m.mtime, m.cmp);
    let c = &mut imp.cpu;
    c.verif_set_pc(0);
    c.verif_reset();
    c.verif_set_csr(0x305, TVEC);
    c.verif_set_csr(0x105, STVEC);
    c.verif_set_csr(0xc01, 0);
    if m.time != 0 {
        c.bus.store32(crate::imp::MSIP, 0).unwrap();
        // both clocks advance together; put mtime back
        c.timer_increment(m.time);
        imp.timer(m.mtime, m.cmp);
    }
}

fn run_ops(ctx: &mut Ctx, xlen: u32, m0: Model, ops: &[Op], all_irq: bool) -> CaseResult {
    let mut m = m0;
    let mut seen = vec![];
    let imp = ctx.imp(xlen);
    let r = guard(|| {
        start(imp, &m);
        check(&m, imp)?;
        for &op in ops {
            apply(&mut m, imp, op)?;
            seen.push(m);
        }
        readback(&m, imp)?;
        if all_irq {
            for prv in [0, 1, 3] {
                for k in 0..4 {
                    irq(&m, imp, prv, k & 1 == 1, k & 2 == 2)?;
                }
            }
        } else {
            irq(&m, imp, 3, true, false)?;
            irq(&m, imp, 1, true, true)?;
        }
        Ok::<(), String>(())
    });
    for s in &seen {
        ctx.step_done();
        ctx.state(&(xlen, s));
    }
    ctx.trace_done();
    let at = |t: String| format!("RV{xlen} start {m0:x?}\nops {ops:x?}\nmodel {m:x?}: {t}");
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(t)) => bad("timer", at(t)),
        Err(p) => bad("timer:abort", at(p)),
    }
}

pub fn run(rep: &Report) {
    rep.note(
        "mip bit 5 follows the timer together with bit 7 (the emulator has no other source for it)",
    );
    rep.note(
        "the time CSR is checked to advance with mtime; writing mtime does not have to change it",
    );
    let mut vals: Vec<u64> = vec![0, 1, 2, 49, 50, 51];
    for p in [31u32, 32, 33, 63] {
        let x = 1u64 << p;
        vals.extend([x - 1, x, x + 1]);
    }
    vals.extend([
        u64::MAX,
        u64::MAX - 1,
        u64::MAX - 49,
        u64::MAX << 32,
        0x1_ffff_ffff,
        0x8000_0000_8000_0000,
    ]);
    let n = vals.len();
    // 1. all pairs of values (written whole or in halves, in either order), then a tick, and every privilege
    let incs = [0u64, 1, 50, 1 << 32, u64::MAX];
    rep.space("values", &[2, n, n, 3, incs.len()], |ctx, d| {
        let xlen = [32, 64][d[0]];
        let (t, c) = (vals[d[1]], vals[d[2]]);
        let mut ops = vec![];
        let halves = |w: bool, v: u64, hi_first: bool| {
            let (a, b) = (St(w, 4, 4, v >> 32), St(w, 0, 4, v));
            if hi_first {
                [a, b]
            } else {
                [b, a]
            }
        };
        match d[3] {
            0 if xlen == 64 => ops.extend([St(false, 0, 8, t), St(true, 0, 8, c)]),
            0 => ops.extend([halves(true, c, true), halves(false, t, false)].concat()),
            1 => ops.extend([halves(false, t, true), halves(true, c, true)].concat()),
            _ => ops.extend([halves(true, c, false), halves(false, t, true)].concat()),
        }
        if incs[d[4]] != 0 {
            ops.push(Tick(incs[d[4]]));
        }
        run_ops(
            ctx,
            xlen,
            Model {
                mtime: 0,
                cmp: u64::MAX,
                time: 0,
            },
            &ops,
            true,
        )
    });
    // one bit apart, in the whole width of the two registers
    rep.space("bits", &[2, 6, 64, 2], |ctx, d| {
        let xlen = [32, 64][d[0]];
        let v = [
            0,
            u64::MAX,
            0x5555_5555_5555_5555,
            0xaaaa_aaaa_aaaa_aaaa,
            0x8000_0000_8000_0000,
            0x7fff_ffff_7fff_ffff,
        ][d[1]];
        let o = v ^ 1 << d[2];
        let (t, c) = [(v, o), (o, v)][d[3]];
        let ops = if xlen == 64 {
            vec![St(false, 0, 8, t), St(true, 0, 8, c)]
        } else {
            [(false, t), (true, c)]
                .iter()
                .flat_map(|&(w, v)| [St(w, 4, 4, v >> 32), St(w, 0, 4, v)])
                .collect()
        };
        let start = Model {
            mtime: 0,
            cmp: u64::MAX,
            time: 0,
        };
        run_ops(ctx, xlen, start, &ops, true)
    });
    // 2. histories
    for xlen in [32u32, 64] {
        let mut al = vec![
            St(false, 0, 4, 0),
            St(false, 0, 4, 0xffff_ffff),
            St(false, 4, 4, 0),
            St(false, 4, 4, 1),
            St(true, 0, 4, 0x10),
            St(true, 0, 4, 0xffff_ffff),
            St(true, 4, 4, 0),
            St(true, 4, 4, 0x8000_0000),
            St(true, 4, 4, 0xffff_ffff),
            Tick(1),
            Tick(50),
            Read,
            Irq,
            Nop,
        ];
        if xlen == 64 {
            al.extend([
                St(false, 0, 8, 0x1_0000_000f),
                St(true, 0, 8, 0x1_0000_0010),
                St(true, 0, 8, u64::MAX),
            ]);
        }
        let k = al.len();
        let starts = [
            Model {
                mtime: 0,
                cmp: u64::MAX,
                time: 0,
            },
            Model {
                mtime: 0xffff_fff0,
                cmp: 0x1_0000_0000,
                time: 0xffff_ffff,
            },
            Model {
                mtime: 0x7fff_ffff_ffff_ffff,
                cmp: 0x8000_0000_0000_0000,
                time: 0x1_ffff_ffe0,
            },
            Model {
                mtime: u64::MAX - 10,
                cmp: 0x10,
                time: u64::MAX,
            },
        ];
        let mut dims = vec![starts.len()];
        dims.extend(std::iter::repeat(k).take(if rep.thorough { 6 } else { 5 }));
        rep.space(&format!("histories{xlen}"), &dims, |ctx, d| {
            let ops: Vec<Op> = d[1..].iter().map(|&x| al[x]).collect();
            run_ops(ctx, xlen, starts[d[0]], &ops, false)
        });
    }
    // 3. the whole emulator: time seen by a running guest only moves forward, in step in both clocks,
    //    by 50 ticks per 5000 instructions, and the interrupt arrives when the compare value is reached
    let loops: &[u64] = if rep.thorough {
        &[1, 2, 3, 5, 10, 20, 50]
    } else {
        &[1, 2, 5, 20]
    };
    rep.space("emulator", &[2, loops.len(), 3], |ctx, d| {
        let xlen = [32u32, 64][d[0]];
        let n = loops[d[1]];
        let mut a = crate::e2e::Asm::new(xlen);
        for c in b"<GO>" {
            a.putc(*c);
        }
        let limit = 50 * n - [0, 1, 49][d[2]];
        a.li(5, MTIME).li(6, MTIMECMP).li(7, limit);
        // mtimecmp = limit, handler = "irq", enable
        a.li(9, 0);
        a.w(store(2, 9, 6, 4)).w(store(2, 7, 6, 0));
        a.jal(10, "set");
        a.label("irq");
        // x12 = polls seen, x13 = last time, x14 = error count
        a.w(csr(2, 20, 0x342, 0)).w(load(2, 21, 5, 0)).w(csr(2, 22, 0xc01, 0));
        for r in [20, 21, 22, 14] {
            a.put_reg(r);
        }
        a.exit(1);
        a.label("set").w(csr(1, 0, 0x305, 10));
        a.li(9, 0x80).w(csr(1, 0, 0x304, 9)).li(13, 0).li(14, 0);
        a.w(csr(6, 0, 0x300, 8));
        a.label("poll");
        // mtime and time read back to back; they may differ only if a batch ended in between
        a.w(load(2, 11, 5, 0)).w(csr(2, 12, 0xc01, 0)).w(load(2, 15, 5, 0));
        a.br(6, 12, 11, "err").br(6, 15, 12, "err").br(6, 11, 13, "err");
        a.w(addi(13, 15, 0)).jal(0, "poll");
        a.label("err").w(addi(14, 14, 1)).w(addi(13, 15, 0)).jal(0, "poll");
        let dir = crate::e2e::Dir::new();
        let elf = dir.put("g", &a.elf());
        let o = crate::e2e::run(&dir, &[&elf], b"<GO>", &[], 20.0);
        ctx.step_done();
        ctx.trace_done();
        let w = xlen as usize / 8;
        let out = o.after(b"<GO>").unwrap_or(&[]);
        if o.code != Some(1) || out.len() != 4 * w {
            return bad("timer-e2e", format!("compare value {limit}: {}", o.show()));
        }
        let g = |k: usize| out[k * w..(k + 1) * w].iter().rev().fold(0u64, |v, &b| v << 8 | b as u64);
        let (cause, mtime, time, err) = (g(0), g(1), g(2), g(3));
        if cause != 1 << (xlen - 1) | 7 || mtime != 50 * n || time != mtime || err != 0 {
            return bad(
                "timer-e2e",
                format!("compare value {limit}: cause {cause:#x}, mtime {mtime} (spec {}), time {time}, {err} inconsistent readings", 50 * n),
            );
        }
        Ok(())
    });
    rep.sample("mtimecmp hi written 0xffffffff then lo, then hi: no spurious interrupt in between; mtime 2^63 vs compare 2^63-1: pending (unsigned)".into());
}
