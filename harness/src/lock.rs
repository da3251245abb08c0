//! Lockstep execution: the reference hart and the real Cpu, compared after every step.
use crate::drv::{bad, CaseResult, Ctx};
use crate::imp::StepRes;
use crate::model::{Hart, Outcome, Ram, MST_MPRV};

pub const CODE: u64 = 0x8000_0000;
pub const DATA: u64 = 0x8001_0000;

/// Write `code` (32-bit words) at `pa`.
pub fn put_code(ram: &mut Ram, pa: u64, code: &[u32]) {
    for (k, &w) in code.iter().enumerate() {
        ram.put(pa + 4 * k as u64, 4, w as u64);
    }
}

pub fn fmt_hart(h: &Hart) -> String {
    let mut s = format!(
        "RV{} pc={:#x} prv={} mstatus={:#x}",
        h.xlen, h.pc, h.prv, h.mstatus
    );
    for i in 1..32 {
        if h.x[i] != 0 {
            s += &format!(" x{i}={:#x}", h.x[i]);
        }
    }
    for (n, v) in [
        ("medeleg", h.medeleg),
        ("mideleg", h.mideleg),
        ("mie", h.mie),
        ("mip", h.mip),
        ("mtvec", h.mtvec),
        ("stvec", h.stvec),
        ("satp", h.satp),
        ("mepc", h.mepc),
        ("sepc", h.sepc),
        ("tselect", h.tselect),
    ] {
        if v != 0 {
            s += &format!(" {n}={v:#x}");
        }
    }
    for i in 0..16 {
        if h.pmpcfg[i] != 0 {
            s += &format!(" pmp{i}={:#x}/{:#x}", h.pmpcfg[i], h.pmpaddr[i]);
        }
    }
    for i in 0..8 {
        if h.tdata1[i] != 0 {
            s += &format!(" trig{i}={:#x}/{:#x}", h.tdata1[i], h.tdata2[i]);
        }
    }
    s
}

/// Run `steps` instructions from the given state in both and compare after each one.
pub fn run(
    ctx: &mut Ctx,
    h: &Hart,
    ram: &Ram,
    steps: usize,
    watch: &[(u64, u64)],
    key: &str,
) -> CaseResult {
    let xlen = h.xlen;
    let imp = ctx.imp(xlen);
    imp.lines(h.mip);
    imp.load(h);
    imp.load_ram(ram);
    let mut m = h.clone();
    let mut mem = ram.clone();
    mem.writes.clear();
    let r = steps_from(ctx, &mut m, &mut mem, steps, watch, key);
    ctx.imp(xlen).clear_ram(&mem);
    ctx.trace_done();
    r.map_err(|(k, t)| {
        (
            k,
            format!("start: {}\nmemory: {}\n{t}", fmt_hart(h), fmt_ram(ram)),
        )
    })
}

/// One choice of the environment.
#[derive(Clone, Copy, Debug)]
pub enum Ev {
    /// this instruction is the next one at the current pc
    I(u32),
    /// same, 16 bits
    C(u16),
    /// whatever memory holds at the current pc
    Run,
    /// the devices drive these mip bits from now on (3, 7 (with 5), 9, 11)
    Lines(u64),
}

/// Drive both through a sequence of choices, comparing after every instruction.
/// The fetch address is taken to be physical (no translation, or an identity mapping).
pub fn run_seq(
    ctx: &mut Ctx,
    h: &Hart,
    ram: &Ram,
    evs: &[Ev],
    watch: &[(u64, u64)],
    key: &str,
) -> CaseResult {
    let xlen = h.xlen;
    let imp = ctx.imp(xlen);
    imp.lines(h.mip);
    imp.load(h);
    imp.load_ram(ram);
    let mut m = h.clone();
    let mut mem = ram.clone();
    mem.writes.clear();
    let mut r = Ok(());
    for (n, e) in evs.iter().enumerate() {
        match *e {
            Ev::Lines(l) => {
                let l = l & 0xa88 | (l >> 2 & 0x20);
                m.mip = (m.mip & 2) | l;
                ctx.imp(xlen).lines(l);
                continue;
            }
            Ev::I(w) => {
                // whether leaving machine mode clears MPRV depends on the specification's version
                if w == crate::asm::MRET && m.prv == 3 && m.mstatus & MST_MPRV != 0 {
                    ctx.unspecified();
                    break;
                }
                if Ram::ok(m.pc, 4) {
                    mem.put(m.pc, 4, w as u64);
                    for k in 0..4 {
                        ctx.imp(xlen).put8(m.pc + k, (w >> (8 * k)) as u8);
                    }
                }
            }
            Ev::C(w) => {
                if Ram::ok(m.pc, 2) {
                    mem.put(m.pc, 2, w as u64);
                    for k in 0..2 {
                        ctx.imp(xlen).put8(m.pc + k, (w >> (8 * k)) as u8);
                    }
                }
            }
            Ev::Run => {}
        }
        let open = ctx.opened();
        r = steps_from(ctx, &mut m, &mut mem, 1, watch, key);
        if let Err((_, t)) = &mut r {
            *t = format!("after {n} events: {t}");
            break;
        }
        if ctx.opened() != open {
            break;
        }
    }
    ctx.imp(xlen).clear_ram(&mem);
    ctx.trace_done();
    r.map_err(|(k, t)| {
        (
            k,
            format!(
                "start: {}\nmemory: {}\nevents: {evs:x?}\n{t}",
                fmt_hart(h),
                fmt_ram(ram)
            ),
        )
    })
}

pub fn fmt_ram(r: &Ram) -> String {
    let mut v: Vec<_> = r.bytes.clone();
    v.sort();
    let mut s = String::new();
    let mut last = 0;
    for (a, b) in v {
        if a != last {
            s += &format!(" {a:#x}:");
        }
        s += &format!("{b:02x}");
        last = a + 1;
    }
    s
}

pub fn steps_from(
    ctx: &mut Ctx,
    m: &mut Hart,
    mem: &mut Ram,
    steps: usize,
    watch: &[(u64, u64)],
    key: &str,
) -> CaseResult {
    let xlen = m.xlen;
    for n in 0..steps {
        let out = m.step(mem);
        let imp = ctx.imp(xlen);
        let res = imp.step();
        if let StepRes::Panic(p) = res {
            return bad(
                format!("{key}:abort"),
                format!("step {n}: the emulator aborts: {p}"),
            );
        }
        if let Outcome::MaySucceed { pa, size, val, rd } = out {
            let mask = if size == 8 {
                u64::MAX
            } else {
                (1 << (8 * size)) - 1
            };
            let now = (0..size).fold(0, |v, i| v | (imp.get8(pa + i) as u64) << (8 * i));
            let ok = if rd != 0 {
                imp.x(rd) == 0
            } else {
                now == val & mask
            };
            if ok {
                m.x[rd] = 0;
                mem.put(pa, size, val);
            }
        }
        let d = match out {
            Outcome::Unspecified => None,
            _ => imp
                .diff(m)
                .or_else(|| imp.diff_ram(mem, watch))
                .or_else(|| {
                    // the other bits are refreshed from the devices before every instruction
                    let v = imp.csr(0x344);
                    if (v ^ m.mip) & 2 != 0 {
                        Some(format!("mip: spec {:#x}, carron {v:#x}", m.mip))
                    } else {
                        None
                    }
                }),
        };
        ctx.step_done();
        if out == Outcome::Unspecified {
            ctx.unspecified();
            break;
        }
        if let Some(d) = d {
            return bad(key, format!("step {n} ({out:?}): {d}"));
        }
        ctx.state(m);
    }
    Ok(())
}
