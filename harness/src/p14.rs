//! P14: the interrupt controller, one abstract PLIC replayed on the real device through the bus.
use crate::asm::*;
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::imp::{guard, Imp, StepRes, PLIC};
use crate::model::MST_MIE;

/// Level-triggered PLIC with 31 sources and two contexts (0: machine, 1: supervisor).
#[derive(Clone, Copy, Hash, PartialEq, Eq, Debug, Default)]
struct Model {
    prio: [u8; 32],
    level: u32,
    en: [u32; 2],
    thr: [u8; 2],
    service: u32,
}

impl Model {
    fn best(&self, c: usize) -> u32 {
        let mut b = 0;
        let mut p = 0;
        for s in 1..32u32 {
            if self.level & self.en[c] & !self.service & 1 << s != 0 && self.prio[s as usize] > p {
                b = s;
                p = self.prio[s as usize];
            }
        }
        b
    }
    fn line(&self, c: usize) -> bool {
        let b = self.best(c);
        b != 0 && self.prio[b as usize] > self.thr[c]
    }
    fn mip(&self) -> u64 {
        (self.line(0) as u64) << 11 | (self.line(1) as u64) << 9
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    Level(u32, u32),
    Prio(u32, u32),
    Enable(usize, u32),
    Thr(usize, u32),
    Claim(usize),
    Complete(usize, u32),
}
use Op::*;

fn en_a(c: usize) -> u64 {
    PLIC + 0x2000 + 0x80 * c as u64
}
fn ctx_a(c: usize) -> u64 {
    PLIC + 0x20_0000 + 0x1000 * c as u64
}
fn sx(v: u32) -> u64 {
    v as i32 as i64 as u64
}

fn apply(m: &mut Model, imp: &mut Imp, op: Op) -> Result<(), String> {
    let b = &mut imp.cpu.bus;
    let st = |b: &mut carron::bus::Bus, a: u64, v: u32| {
        b.store32(a, v as u64)
            .map_err(|e| format!("{op:?}: store to {a:#x} faults: {e:?}"))
    };
    match op {
        Level(s, l) => {
            b.plic.set_interrupt_level(s, l);
            if (1..32).contains(&s) {
                m.level = m.level & !(1 << s) | (l.min(1)) << s;
            }
        }
        Prio(s, v) => {
            st(b, PLIC + 4 * s as u64, v)?;
            if (1..32).contains(&s) {
                m.prio[s as usize] = (v & 15) as u8;
            }
        }
        Enable(c, v) => {
            st(b, en_a(c), v)?;
            m.en[c] = v & !1;
        }
        Thr(c, v) => {
            st(b, ctx_a(c), v)?;
            m.thr[c] = (v & 15) as u8;
        }
        Claim(c) => {
            let v = b
                .load32(ctx_a(c) + 4)
                .map_err(|e| format!("{op:?} faults: {e:?}"))?;
            let w = m.best(c);
            if w != 0 {
                m.service |= 1 << w;
            }
            if v != w as u64 {
                return Err(format!("{op:?}: spec {w}, carron {v}"));
            }
        }
        Complete(c, s) => {
            st(b, ctx_a(c) + 4, s)?;
            if (1..32).contains(&s) && m.en[c] >> s & 1 == 1 {
                m.service &= !(1 << s);
            }
        }
    }
    Ok(())
}

fn lines(m: &Model, imp: &Imp) -> Result<(), String> {
    let v = imp.cpu.bus.plic.mip_value & imp.cpu.bus.plic.mip_mask & 0xa00;
    if v != m.mip() {
        return Err(format!(
            "interrupt lines: spec {:#x}, carron {v:#x}",
            m.mip()
        ));
    }
    Ok(())
}

/// Non-destructive registers.
fn regs(m: &Model, imp: &mut Imp, all: bool) -> Result<(), String> {
    let b = &mut imp.cpu.bus;
    let mut rd = |a: u64, w: u64, n: String| match b.load32(a) {
        Ok(v) if v == w => Ok(()),
        r => Err(format!("{n}: spec {w:#x}, carron {r:x?}")),
    };
    for c in 0..2 {
        rd(en_a(c), sx(m.en[c]), format!("enable {c}"))?;
        rd(ctx_a(c), m.thr[c] as u64, format!("threshold {c}"))?;
    }
    for s in if all { 0..32 } else { 1..4 } {
        rd(
            PLIC + 4 * s as u64,
            m.prio[s] as u64,
            format!("priority {s}"),
        )?;
    }
    Ok(())
}

/// What the hart sees: one instruction in machine mode with both lines enabled.
fn hart(m: &Model, imp: &mut Imp) -> Result<(), String> {
    let c = &mut imp.cpu;
    c.verif_set_pc(0);
    c.verif_reset();
    c.verif_set_pc(0x8000_0000);
    c.bus.store32(crate::imp::MSIP, 0).unwrap();
    c.verif_set_csr(0x305, 0x8000_1000);
    c.verif_set_csr(0x304, 0xa00);
    c.verif_set_csr(0x300, MST_MIE);
    for (k, b) in addi(0, 0, 0).to_le_bytes().iter().enumerate() {
        imp.put8(0x8000_0000 + k as u64, *b);
    }
    if let StepRes::Panic(p) = imp.step() {
        return Err(format!("the emulator aborts: {p}"));
    }
    let (pc, cause) = match m.mip() {
        0 => (0x8000_0004, 0),
        x if x & 0x800 != 0 => (0x8000_1000, 11),
        _ => (0x8000_1000, 9),
    };
    let mc = imp.csr(0x342) & 0xff;
    if imp.pc() != pc || mc != cause {
        return Err(format!(
            "one instruction with lines {:#x}: spec pc {pc:#x} cause {cause}, carron pc {:#x} cause {mc}",
            m.mip(),
            imp.pc()
        ));
    }
    let p = imp.csr(0x344) & 0xa00;
    if p != m.mip() {
        return Err(format!("mip: spec {:#x}, carron {p:#x}", m.mip()));
    }
    Ok(())
}

fn run_ops(ctx: &mut Ctx, setup: &[Op], ops: &[Op], deep: bool, look: bool) -> CaseResult {
    let imp = ctx.imp(64);
    imp.cpu.bus.plic = Default::default();
    let mut m = Model::default();
    let mut seen = [0u64; 16];
    let mut n = 0;
    let r = guard(|| {
        for &op in setup {
            apply(&mut m, imp, op)?;
        }
        lines(&m, imp)?;
        for &op in ops {
            apply(&mut m, imp, op)?;
            lines(&m, imp)?;
            regs(&m, imp, deep)?;
            if deep {
                hart(&m, imp)?;
            }
            let mut h = std::collections::hash_map::DefaultHasher::new();
            use std::hash::{Hash, Hasher};
            m.hash(&mut h);
            if n < 16 {
                seen[n] = h.finish();
            }
            n += 1;
        }
        if look {
            hart(&m, imp)?;
        }
        // drain both contexts: everything still claimable comes out in order
        for c in 0..2 {
            loop {
                let more = m.best(c) != 0;
                apply(&mut m, imp, Claim(c))?;
                lines(&m, imp)?;
                if !more {
                    break;
                }
            }
        }
        Ok::<(), String>(())
    });
    for k in 0..n.min(16) {
        ctx.step_done();
        ctx.state(&seen[k]);
    }
    ctx.trace_done();
    let at = |t: String| {
        format!(
            "setup: {setup:?}\nops: {ops:?}\nfailed after {n} ops, model {:?}: {t}",
            show(&m)
        )
    };
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(t)) => bad("plic", at(t)),
        Err(p) => bad("plic:abort", at(format!("the emulator aborts: {p}"))),
    }
}

fn show(m: &Model) -> String {
    let pr: Vec<_> = (1..32)
        .filter(|&s| m.prio[s] != 0)
        .map(|s| (s, m.prio[s]))
        .collect();
    format!(
        "prio {pr:?} level {:#x} enable {:x?} threshold {:?} in service {:#x}",
        m.level, m.en, m.thr, m.service
    )
}

pub fn run(rep: &Report) {
    rep.note("PLIC model: level-triggered gateways, 31 sources, two contexts, priorities and thresholds of 4 bits; a source of priority 0 is never offered; the threshold masks the line, not the claim");
    rep.note("completion is honoured from a context in which the source is enabled, and ignored otherwise; a source in service is offered to no context");
    // 1. every abstract state over sources 1, 2, 31 x every operation
    let src = [1u32, 2, 31];
    let mask = |d: usize| (0..3).fold(0u32, |m, k| m | ((d >> k & 1) as u32) << src[k]);
    let mut all: Vec<Op> = vec![];
    for &s in &src {
        all.extend([Level(s, 0), Level(s, 1)]);
        all.extend((0..4).map(|v| Prio(s, [0, 1, 2, 15][v])));
    }
    for c in 0..2 {
        all.extend((0..8).map(|e| Enable(c, mask(e))));
        all.extend([0, 1, 2, 15].map(|t| Thr(c, t)));
        all.push(Claim(c));
        all.extend(src.map(|s| Complete(c, s)));
        all.extend([0, 3, 32, 63, 0xffff_ffff].map(|s| Complete(c, s)));
        all.push(Enable(c, 0xffff_ffff));
        all.push(Thr(c, 0xffff_fff3));
    }
    all.extend([
        Level(0, 1),
        Level(32, 1),
        Level(1023, 1),
        Prio(0, 7),
        Prio(32, 7),
        Prio(1, 0xffff_fff1),
        Level(1, 7),
    ]);
    let prios: &[usize] = if rep.thorough {
        &[0, 1, 2, 15]
    } else {
        &[0, 1, 2]
    };
    let thrs: &[usize] = if rep.thorough {
        &[0, 1, 2, 15]
    } else {
        &[0, 1]
    };
    let (np, nt) = (prios.len(), thrs.len());
    rep.space("states", &[np, np, np, 8, 8, 8, 8, nt, nt], |ctx, d| {
        let mut setup = vec![];
        // put sources in service first, claimed through context 0
        let s = mask(d[5]);
        setup.push(Enable(0, s));
        for k in 0..3 {
            if s >> src[k] & 1 == 1 {
                setup.extend([Prio(src[k], 1), Level(src[k], 1), Claim(0)]);
            }
        }
        for k in 0..3 {
            setup.push(Prio(src[k], prios[d[k]] as u32));
            setup.push(Level(src[k], (d[3] >> k & 1) as u32));
        }
        setup.extend([
            Enable(0, mask(d[4])),
            Enable(1, mask(d[6])),
            Thr(0, thrs[d[7]] as u32),
            Thr(1, thrs[d[8]] as u32),
        ]);
        for &op in &all {
            run_ops(ctx, &setup, &[op], false, rep.thorough)?;
        }
        Ok(())
    });
    // 2. histories
    let mut al: Vec<Op> = vec![];
    for s in [1u32, 2] {
        al.extend([
            Level(s, 1),
            Level(s, 0),
            Prio(s, 0),
            Prio(s, 2),
            Complete(0, s),
            Complete(1, s),
        ]);
    }
    for c in 0..2 {
        al.extend([
            Enable(c, 0),
            Enable(c, 2),
            Enable(c, 6),
            Claim(c),
            Thr(c, 1),
            Thr(c, 0),
        ]);
    }
    let n = al.len();
    let depth = if rep.thorough { 6 } else { 5 };
    let starts: Vec<Vec<Op>> = vec![
        vec![],
        vec![
            Prio(1, 1),
            Prio(2, 1),
            Enable(0, 6),
            Enable(1, 6),
            Level(1, 1),
            Level(2, 1),
        ],
        vec![
            Prio(1, 1),
            Prio(2, 3),
            Enable(0, 6),
            Enable(1, 4),
            Level(1, 1),
            Level(2, 1),
            Claim(0),
            Level(2, 0),
        ],
        vec![
            Prio(1, 1),
            Prio(2, 3),
            Enable(0, 2),
            Enable(1, 6),
            Level(2, 1),
            Claim(1),
            Enable(1, 2),
            Level(1, 1),
        ],
    ];
    let mut dims = vec![starts.len()];
    dims.extend(std::iter::repeat(n).take(depth));
    rep.space("histories", &dims, |ctx, d| {
        let ops: Vec<Op> = d[1..].iter().map(|&k| al[k]).collect();
        run_ops(ctx, &starts[d[0]], &ops, false, true)
    });
    // 3. all pairs of sources: order of claims, with the hart and every register looked at
    rep.space("pairs", &[31, 31, 3, 4], |ctx, d| {
        let (a, b) = (d[0] as u32 + 1, d[1] as u32 + 1);
        let (pa, pb) = [(1, 1), (3, 5), (15, 14)][d[2]];
        let c = d[3] & 1;
        let e = 1 << a | 1 << b;
        let ops = [
            Prio(a, pa),
            Prio(b, pb),
            Enable(c, e),
            Level(a, 1),
            Level(b, 1),
            Enable(1 - c, if d[3] & 2 != 0 { e } else { 0 }),
            Claim(c),
            Claim(1 - c),
            Complete(c, a),
            Level(b, 0),
            Claim(c),
            Thr(c, 4),
            Complete(c, b),
            Level(b, 1),
        ];
        run_ops(ctx, &[], &ops, true, true)
    });
    // all sources at once: claimed one after another, completed in several orders
    rep.space("drain", &[8, 6, 6, 4, 4, 3], |ctx, d| {
        let prio = |s: u32| match d[0] {
            0 => 1,
            1 => s % 16,
            2 => 15 - s % 16,
            3 => s * 7 % 16,
            4 => (s / 8) * 5,
            5 => (s == 17) as u32 * 14 + 1,
            6 => 15 * (s % 2),
            _ => (31 - s) / 2,
        };
        let mask = |k: usize| {
            [
                0xffff_ffffu32,
                0xaaaa_aaaa,
                0xffff_0000,
                0x0000_fffe,
                0x8000_0002,
                0,
            ][k]
        };
        let mut ops = vec![];
        for s in 1..32 {
            ops.push(Prio(s, prio(s)));
        }
        ops.extend([
            Enable(0, mask(d[1])),
            Enable(1, mask(d[2])),
            Thr(0, [0, 7, 14, 15][d[3]]),
            Thr(1, [0, 1, 8, 15][d[4]]),
        ]);
        for k in 0..31u32 {
            ops.push(Level([k + 1, 31 - k, (k * 12) % 31 + 1][d[5]], 1));
        }
        let turns = [0usize, 1, 0, 0, 1, 1];
        for k in 0..12 {
            ops.push(Claim(turns[k % 6]));
        }
        for k in 0..31u32 {
            let s = [31 - k, k + 1, (k * 5) % 31 + 1][d[5]];
            if k % 4 == 1 {
                ops.push(Level(s, 0));
            }
            ops.push(Complete(turns[k as usize % 6], s));
            if k % 5 == 2 {
                ops.push(Claim(turns[(k as usize + 1) % 6]));
            }
        }
        run_ops(ctx, &[], &ops, false, true)
    });
    // 4. registers: every priority, enable and threshold value reads back; 64-bit accesses are two registers
    rep.space("registers", &[32, 17], |ctx, d| {
        let s = d[0] as u32;
        let v = if d[1] < 16 { d[1] as u32 } else { 0x1234_5678 };
        run_ops(
            ctx,
            &[],
            &[
                Prio(s, v),
                Enable(0, 1 << s),
                Enable(1, !(1 << s)),
                Thr(0, v),
                Thr(1, 15 - (v & 15)),
            ],
            true,
            true,
        )?;
        let imp = ctx.imp(64);
        let b = &mut imp.cpu.bus;
        let k = (s & !1) as u64;
        let r = guard(|| -> Result<(), String> {
            b.plic = Default::default();
            b.store64(PLIC + 4 * k, 5 << 32 | 3)
                .map_err(|e| format!("{e:?}"))?;
            let w = (if k == 0 { 0 } else { 3 }) as u64;
            let got = (
                b.load32(PLIC + 4 * k),
                b.load32(PLIC + 4 * k + 4),
                b.load64(PLIC + 4 * k),
            );
            let ok = matches!(&got, (Ok(x), Ok(5), Ok(y)) if *x == w && *y == 5 << 32 | w);
            if !ok {
                return Err(format!("64-bit write at {k}: {got:x?}"));
            }
            for c in 0..2u64 {
                b.store64(PLIC + 0x2000 + 0x80 * c, 0x8000_0006)
                    .map_err(|e| format!("{e:?}"))?;
                let got = b.load64(PLIC + 0x2000 + 0x80 * c);
                if !matches!(got, Ok(0x8000_0006)) {
                    return Err(format!("64-bit enable: {got:x?}"));
                }
                // the other words of enable bits have no sources
                let got = b.load32(PLIC + 0x2000 + 0x80 * c + 4);
                b.store32(PLIC + 0x2000 + 0x80 * c + 4, 0xffff_ffff)
                    .map_err(|e| format!("{e:?}"))?;
                let again = b.load32(PLIC + 0x2000 + 0x80 * c + 4);
                if !matches!((&got, &again), (Ok(0), Ok(0))) {
                    return Err(format!("second enable word: {got:x?} {again:x?}"));
                }
            }
            Ok(())
        });
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(t)) => bad("plic-reg", t),
            Err(p) => bad("plic:abort", p),
        }
    });
    rep.sample("prio(1)=1 prio(2)=1 enable both, raise 2, raise 1: claim -> 1, claim -> 2, claim -> 0, line low".into());
    rep.sample("source 2 claimed by context 1, disabled there, completed from context 1: ignored; completed from context 0 (enabled): claimable again".into());
}
