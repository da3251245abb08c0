//! P25: the execution log. A reference machine runs each program of a bounded family step by step;
//! what the real program prints at each log level has to be the same sequence of steps, registers,
//! traps and handler addresses, beginning where that level begins.
use crate::asm::*;
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::e2e::{run_env, Asm, Dir, BASE, TOHOST};
use crate::model::{Hart, Outcome, INT};
use crate::p21::{image, lead, Mach};

/// the log of level `diff` begins after this many steps
const BEGIN: u64 = 350_000_000;
const ROOT: u64 = 0x8001_0000;
const CLINT: u64 = 0x0200_0000;
const NAMES: [&str; 32] = [
    "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4",
    "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4",
    "t5", "t6",
];
fn cause_name(c: u64) -> &'static str {
    match c {
        0 => "InstAddrMisaligned",
        1 => "InstAccessFault",
        2 => "IllegalInst",
        3 => "Breakpoint",
        4 => "LoadAddrMisaligned",
        5 => "LoadAccessFault",
        6 => "StoreAMOAddrMisaligned",
        7 => "StoreAMOAccessFault",
        8 => "UmodeEcall",
        9 => "SmodeEcall",
        11 => "MmodeEcall",
        12 => "InstPageFault",
        13 => "LoadPageFault",
        15 => "StoreAMOPageFault",
        c if c == INT | 1 => "SupervisorSoftwareInterrupt",
        c if c == INT | 3 => "MachineSoftwareInterrupt",
        c if c == INT | 5 => "SupervisorTimerInterrupt",
        c if c == INT | 7 => "MachineTimerInterrupt",
        c if c == INT | 9 => "SupervisorExternalInterrupt",
        c if c == INT | 11 => "MachineExternalInterrupt",
        _ => "?",
    }
}

#[derive(Clone, Debug)]
struct Step {
    pc: u64,
    x: [u64; 32],
    /// an instruction was fetched
    fetched: bool,
    trap: Option<u64>,
    /// reported with its cause by the fetch or execution that failed (not ecall and ebreak)
    faulted: bool,
    to: u64,
}

const BLOCKS: usize = 36;
/// one block of instructions; a trapping instruction is four bytes long
fn block(a: &mut Asm, k: usize) {
    let w = if a.xlen == 64 { 3 } else { 2 };
    match k {
        0 => a.w(addi(5, 5, -1)),
        1 => a.w(r(0, 6, 5, 0, 7, 0x33)),
        2 => a.h(0x0285).h(1),      // c.addi t0, 1; c.nop
        3 => a.h(0x4501).h(0x89aa), // c.li a0, 0; c.mv s3, a0
        4 => a.w(load(w, 9, 8, 0)),
        5 => a.w(store(w, 9, 8, 8)),
        6 => a.w(load(0, 9, 8, 3)),
        7 => a.w(load(2, 9, 8, 1)),  // misaligned
        8 => a.w(store(2, 9, 8, 2)), // misaligned
        9 => a.w(j(8, 1)).w(addi(5, 0, 77)),
        10 => a.w(b(8, 0, 0, 0)).w(addi(5, 0, 78)),
        11 => a.w(b(8, 0, 0, 1)).w(addi(5, 0, 79)),
        12 => a.h(0xa011).h(1).h(1), // c.j +4
        13 => a.w(ECALL),
        14 => a.w(EBREAK),
        15 => a.h(0x9002).h(1), // c.ebreak, with its padding
        16 => a.w(0xffff_ffff),
        17 => a.w(lui(9, 0x40000)).w(load(2, 9, 9, 0)), // no such address
        18 => a.w(lui(9, 0x40000)).w(store(2, 9, 9, 0)), // no such address
        19 => a.w(csr(2, 9, 0x341, 0)),
        20 => a.w(csr(1, 9, 0x340, 8)),
        21 => a.w(csr(2, 9, 0xf12, 0)).w(csr(1, 0, 0xf12, 9)), // write to read-only
        22 => a.w(WFI),
        23 => a.w(amo(0, 1 << w, 9, 8, 10)),
        24 => a.w(r(1, 6, 5, 1, 9, 0x33)), // mulh
        25 => a.w(r(1, 0, 5, 4, 9, 0x33)), // division by zero
        26 => a.w(0x0000_000f),            // fence
        27 => {
            // a software interrupt
            a.li(9, CLINT).w(addi(6, 0, 1)).w(store(2, 6, 9, 0));
            a.w(csr(6, 0, 0x300, 8)).w(addi(5, 5, 3))
        }
        28 => {
            // user mode and back
            a.li(9, 0x1800).w(csr(3, 0, 0x300, 9));
            a.w(u(0, 9, 0x17)).w(addi(9, 9, 16)).w(csr(1, 0, 0x341, 9));
            a.w(MRET).w(addi(5, 5, 1)).w(ECALL)
        }
        29 => {
            // supervisor mode, illegal there
            a.li(9, 0x1800).w(csr(3, 0, 0x300, 9));
            a.li(9, 0x0800).w(csr(2, 0, 0x300, 9));
            a.w(u(0, 9, 0x17)).w(addi(9, 9, 16)).w(csr(1, 0, 0x341, 9));
            a.w(MRET).w(csr(2, 9, 0x300, 0)).w(addi(5, 5, 1)).w(ECALL)
        }
        30 => {
            // a jump to nowhere; the handler comes back through ra
            a.w(u(0, 1, 0x17)).w(addi(1, 1, 16)).w(lui(9, 0x40000));
            a.w(i(0x10, 9, 0, 0, 0x67)) // jalr zero, 16(s1)
        }
        31 => a.w(lui(5, 0xfffff)),
        32 => a.w(u(0x80000, 5, 0x17)),
        33 => {
            // the same interrupt, vectored
            let (m, v) = (a.addr("m"), a.addr("v") + 1);
            a.li(9, v).w(csr(1, 0, 0x305, 9));
            a.li(9, CLINT).w(addi(6, 0, 1)).w(store(2, 6, 9, 0));
            a.w(csr(6, 0, 0x300, 8)).w(addi(5, 5, 3));
            a.li(9, m).w(csr(1, 0, 0x305, 9))
        }
        34 => {
            // supervisor mode at addresses where there is no memory in machine mode
            let leaf = BASE >> 2 | 0xcf;
            if a.xlen == 64 {
                a.li(9, ROOT).li(6, leaf).w(store(3, 6, 9, 8 * 2));
                a.w(addi(9, 9, 0x7f8))
                    .w(addi(9, 9, 0x7f8))
                    .w(store(3, 6, 9, 8));
                a.li(9, 8 << 60 | ROOT >> 12);
            } else {
                a.li(9, ROOT + 0x800).li(6, leaf).w(store(2, 6, 9, 0));
                a.w(store(2, 6, 9, -0x400));
                a.li(9, 1 << 31 | ROOT >> 12);
            }
            a.w(csr(1, 0, 0x180, 9)).w(SFENCE);
            a.li(9, 0x1800).w(csr(3, 0, 0x300, 9));
            a.li(9, 0x0800).w(csr(2, 0, 0x300, 9));
            // 0x4000_0000 or 0xffff_ffff_c000_0000 is another name of BASE
            a.li(
                6,
                if a.xlen == 64 {
                    0xffff_ffff_4000_0000
                } else {
                    0xc000_0000
                },
            );
            a.w(u(0, 9, 0x17))
                .w(addi(1, 9, 36))
                .w(addi(9, 9, 24))
                .w(r(0, 6, 9, 0, 9, 0x33));
            a.w(csr(1, 0, 0x341, 9))
                .w(MRET)
                .h(0x0285)
                .h(1)
                .w(ECALL)
                .w(NOP)
        }
        _ => {
            // a trap delegated to supervisor mode, which returns by its own handler
            a.li(9, 4).w(csr(1, 0, 0x302, 9));
            a.li(9, 0x1800).w(csr(3, 0, 0x300, 9));
            a.w(u(0, 9, 0x17)).w(addi(9, 9, 16)).w(csr(1, 0, 0x341, 9));
            a.w(MRET).w(0xffff_ffff).w(ECALL)
        }
    };
}

/// every register gets a value of its own, then the blocks, then the end
fn program(xlen: u32, blocks: &[usize]) -> Vec<u8> {
    let mut a = Asm::new(xlen);
    a.jal(0, "start");
    a.align(8);
    a.label("m");
    // skip the instruction, or return through ra when there was none; silence the interrupt
    a.w(csr(1, 31, 0x340, 31)); // csrrw t6, mscratch, t6
    a.w(csr(2, 31, 0x342, 0));
    a.br(4, 31, 0, "int");
    a.w(addi(31, 31, -1));
    a.br(0, 31, 0, "ra");
    a.w(csr(2, 31, 0x341, 0));
    a.w(addi(31, 31, 4));
    a.jal(0, "set");
    a.label("ra");
    a.w(addi(31, 1, 0));
    a.label("set");
    a.w(csr(1, 0, 0x341, 31));
    a.li(31, 0x1800);
    a.w(csr(2, 0, 0x300, 31)); // always back to machine mode
    a.jal(0, "out");
    a.label("int");
    a.li(31, CLINT);
    a.w(store(2, 0, 31, 0));
    a.label("out");
    a.w(csr(1, 31, 0x340, 31));
    a.w(MRET);
    a.align(8);
    a.label("s");
    a.w(csr(1, 31, 0x140, 31));
    a.w(csr(2, 31, 0x141, 0));
    a.w(addi(31, 31, 4));
    a.w(csr(1, 0, 0x141, 31));
    a.w(csr(1, 31, 0x140, 31));
    a.w(SRET);
    a.align(64);
    a.label("v");
    for _ in 0..16 {
        a.jal(0, "m");
    }
    a.label("start");
    let (m, s) = (a.addr("m"), a.addr("s"));
    a.li(5, m);
    a.w(csr(1, 0, 0x305, 5));
    a.li(5, s);
    a.w(csr(1, 0, 0x105, 5));
    a.li(5, 8);
    a.w(csr(1, 0, 0x304, 5));
    // memory open to all modes
    a.li(5, u64::MAX >> 10);
    a.w(csr(1, 0, 0x3b0, 5));
    a.w(addi(5, 0, 0x1f));
    a.w(csr(1, 0, 0x3a0, 5));
    for k in 1..32u64 {
        a.li(
            k as u32,
            0x0123_4567_89ab_cdefu64.rotate_left(2 * k as u32) ^ k << 40 ^ k,
        );
    }
    a.li(8, 0x8000_8000);
    for &k in blocks {
        block(&mut a, k);
    }
    a.exit(1);
    a.build()
}

fn trace(cx: &mut Ctx, xlen: u32, code: &[u8], lead: &[Step]) -> Vec<Step> {
    let mut h = Hart::new(xlen);
    h.pc = BASE;
    if let Some(s) = lead.last() {
        h.x = s.x;
    }
    let mut m = Mach::new(code);
    let mut out = lead.to_vec();
    loop {
        h.mip = (h.mip & 2) | m.msip << 3 | if m.mtime >= m.cmp { 0xa0 } else { 0 };
        h.time = m.mtime;
        let pc = h.pc;
        let o = h.step(&mut m);
        cx.step_done();
        let trap = match o {
            Outcome::Retired => None,
            Outcome::Trapped(t) => Some(t.cause),
            o => panic!("program leaves the specified area: {o:?} at {pc:#x}"),
        };
        let fetched = !matches!(trap, Some(c) if c & INT != 0 || c == 1 || c == 12);
        out.push(Step {
            pc,
            x: h.x,
            fetched,
            faulted: !matches!(trap, None | Some(3 | 8 | 9 | 11)),
            trap,
            to: h.pc,
        });
        cx.state(&(&h, out.len()));
        if m.get(TOHOST, 4) & 1 == 1 {
            return out;
        }
        let n = out.len() as u64;
        if n % 5000 == 0 {
            m.mtime += 50;
        }
        assert!(n < 100_000, "program does not end");
    }
}

/// steps of the boot ROM
fn boot(xlen: u32) -> Vec<Step> {
    let n = lead(xlen);
    let mut cpu = crate::imp::Imp::new(xlen).cpu;
    (0..n)
        .map(|_| {
            let pc = cpu.pc();
            let _ = crate::imp::guard(|| cpu.exec_one_cycle().is_ok());
            Step {
                pc,
                x: std::array::from_fn(|k| cpu.regs.read(Some(k))),
                fetched: true,
                trap: None,
                faulted: false,
                to: cpu.pc(),
            }
        })
        .collect()
}

fn hex(t: &str) -> Option<u64> {
    u64::from_str_radix(t.strip_prefix("0x")?, 16).ok()
}

/// registers in a piece of log: "name: 0x..." in any layout
fn registers(t: &str) -> Result<[u64; 32], String> {
    let words: Vec<&str> = t.split_whitespace().collect();
    let mut x = [None; 32];
    for p in words.windows(2) {
        let Some(name) = p[0].strip_suffix(':') else {
            continue;
        };
        let (Some(k), Some(v)) = (NAMES.iter().position(|n| *n == name), hex(p[1])) else {
            continue;
        };
        if x[k].replace(v).is_some() {
            return Err(format!("{name} appears twice"));
        }
    }
    let mut v = [0; 32];
    for k in 0..32 {
        v[k] = x[k].ok_or(format!("{} is missing", NAMES[k]))?;
    }
    Ok(v)
}

/// the records of level diff: pc and registers of each step
fn check_diff(log: &str, want: &[Step]) -> Result<(), String> {
    let mut got: Vec<(u64, String)> = vec![];
    for l in log.lines() {
        let t = l.trim();
        match hex(t) {
            Some(pc) if !t.contains(' ') => got.push((pc, String::new())),
            _ => match got.last_mut() {
                Some(g) => {
                    g.1 += l;
                    g.1.push('\n')
                }
                None if t.is_empty() => {}
                None => return Err(format!("before the first record: {t:?}")),
            },
        }
    }
    if got.len() != want.len() {
        return Err(format!(
            "{} records, expected {}; the first is of pc {:#x?}, expected {:#x?}",
            got.len(),
            want.len(),
            got.first().map(|g| g.0),
            want.first().map(|s| s.pc)
        ));
    }
    for (k, (g, s)) in got.iter().zip(want).enumerate() {
        if g.0 != s.pc {
            return Err(format!("record {k}: pc {:#x}, expected {:#x}", g.0, s.pc));
        }
        compare(&g.1, s).map_err(|e| format!("record {k} (pc {:#x}): {e}", s.pc))?;
    }
    Ok(())
}
fn compare(t: &str, s: &Step) -> Result<(), String> {
    let x = registers(t)?;
    match (0..32).find(|&k| x[k] != s.x[k]) {
        Some(k) => Err(format!(
            "{} is shown as {:#x}, expected {:#x}",
            NAMES[k], x[k], s.x[k]
        )),
        None => Ok(()),
    }
}

#[derive(PartialEq, Debug, Clone)]
enum Line {
    Pc(u64),
    Exception(String),
    To(u64),
    Regs(String),
}
/// what the levels info and debug report, in order
fn lines(log: &str) -> Vec<Line> {
    let mut v = vec![];
    let mut dump: Option<String> = None;
    for l in log.lines() {
        let t = l.trim();
        if let Some(d) = &mut dump {
            if t.starts_with("====") {
                v.push(Line::Regs(dump.take().unwrap()));
            } else {
                d.push_str(l);
                d.push('\n');
            }
            continue;
        }
        if t.starts_with("====") && t.contains("dump") {
            dump = Some(String::new());
        } else if let Some(p) = t.strip_prefix("pc: ").and_then(hex) {
            v.push(Line::Pc(p));
        } else if let Some(p) = t.strip_prefix("new pc: ").and_then(hex) {
            v.push(Line::To(p));
        } else if let Some(p) = t.strip_prefix("[exception: ") {
            v.push(Line::Exception(
                p.split(']').next().unwrap_or("").to_string(),
            ));
        }
    }
    v
}
fn check_lines(log: &str, want: &[Step], debug: bool) -> Result<(), String> {
    let got = lines(log);
    let mut it = got.iter();
    for (k, s) in want.iter().enumerate() {
        let mut next = |w: Line| -> Result<(), String> {
            let g = it.next();
            if g != Some(&w) {
                return Err(format!("step {k} (pc {:#x}): {g:?}, expected {w:?}", s.pc));
            }
            Ok(())
        };
        if s.fetched {
            next(Line::Pc(s.pc))?;
        }
        if let Some(c) = s.trap {
            if s.faulted {
                next(Line::Exception(cause_name(c).to_string()))?;
            }
            next(Line::To(s.to))?;
        }
        if debug {
            match it.next() {
                Some(Line::Regs(t)) => {
                    compare(t, s).map_err(|e| format!("step {k} (pc {:#x}): {e}", s.pc))?
                }
                g => {
                    return Err(format!(
                        "step {k} (pc {:#x}): {g:?} instead of the registers",
                        s.pc
                    ))
                }
            }
        }
    }
    match it.next() {
        None => Ok(()),
        g => Err(format!("after the last step: {g:?}")),
    }
}

/// kinds of run: level, preset counter relative to the beginning of the log
const KINDS: usize = 10;
fn kind(k: usize, total: u64) -> (Option<&'static str>, u64) {
    match k {
        0 => (Some("diff"), BEGIN),
        1 => (Some("diff"), BEGIN - total / 2),
        2 => (Some("diff"), BEGIN - 1),
        3 => (Some("diff"), BEGIN + total),
        4 => (Some("diff"), BEGIN - total),
        5 => (Some("diff"), 0),
        6 => (Some("info"), 0),
        7 => (Some("debug"), 0),
        8 => (Some("nolog"), BEGIN),
        _ => (None, BEGIN),
    }
}

fn one(cx: &mut Ctx, boots: &[Vec<Step>], d: &[usize], kinds: &[usize]) -> CaseResult {
    let xlen = 32 + 32 * d[0] as u32;
    let code = program(xlen, &d[1..]);
    let steps = trace(cx, xlen, &code, &boots[d[0]]);
    let dir = Dir::new();
    dir.put("prog", &image(xlen, &code));
    for &k in kinds {
        let (level, start) = kind(k, steps.len() as u64);
        if let Err(e) = level_run(&dir, level, start, &steps) {
            return bad(
                format!("log-{}", level.unwrap_or("none")),
                format!(
                    "RV{xlen} blocks {:?}, log level {level:?}, {start} steps before: {e}",
                    &d[1..]
                ),
            );
        }
    }
    cx.trace_done();
    Ok(())
}
fn level_run(dir: &Dir, level: Option<&str>, start: u64, steps: &[Step]) -> Result<(), String> {
    let lv = level.map(|l| format!("--loglv={l}"));
    let mut args = vec!["prog"];
    if let Some(l) = &lv {
        args.push(l);
    }
    let st = start.to_string();
    let env: Vec<(&str, &str)> = if start == 0 {
        vec![]
    } else {
        vec![("LOG_START", &st)]
    };
    let bin = if start == 0 {
        "carron-cli"
    } else {
        "carron-log"
    };
    let o = run_env(dir, bin, &args, &env, 900.0);
    if o.code != Some(1) {
        return Err(o.show());
    }
    let text = String::from_utf8_lossy(&o.out).into_owned();
    // the banner of the command line program
    let log = match text.split_once("elfcheck: OK\n\n") {
        Some((_, t)) => t,
        None => &text,
    };
    match level {
        Some("diff") => {
            let skip = (BEGIN.saturating_sub(start) as usize).min(steps.len());
            check_diff(log, &steps[skip..])
        }
        Some("info") => check_lines(log, steps, false),
        Some("debug") => check_lines(log, steps, true),
        _ if !log.trim().is_empty() => Err(format!("unexpected output {log:.300?}")),
        _ => Ok(()),
    }
}

pub fn run(r: &Report) {
    r.note("values and order of what is reported are compared, not its layout; decoded-instruction and page-table details at level debug and above are not");
    r.note("level diff begins after 350,000,000 steps: the step counter is preset through the library, and thorough also runs up to it");
    // a change of the boot path that is not a violation here must not upset this one
    let boots = [boot(32), boot(64)];
    let preset = std::env::current_exe()
        .unwrap()
        .with_file_name("carron-log")
        .exists();
    if !preset {
        r.note(
            "the step counter could not be preset: level diff is only checked before its beginning",
        );
    }
    let usable = |all: &[usize]| -> Vec<usize> {
        all.iter()
            .copied()
            .filter(|&k| preset || matches!(k, 5 | 6 | 7))
            .collect()
    };
    let every = usable(&(0..KINDS).collect::<Vec<_>>());
    r.space("single", &[2, BLOCKS], |c, d| one(c, &boots, d, &every));
    let some = usable(&[0, 1, 6, 7]);
    r.space("pairs", &[2, BLOCKS, BLOCKS], |c, d| {
        one(c, &boots, d, &some)
    });
    if r.thorough {
        let few = usable(&[0, 6]);
        r.space("triples", &[2, BLOCKS, BLOCKS, BLOCKS], |c, d| {
            one(c, &boots, d, &few)
        });
        r.space("from-the-start", &[2, 2], |c, d| whole(c, &boots, d));
    }
}

/// The 350,000,000 steps for real: a loop, then a few blocks.
fn whole(cx: &mut Ctx, boots: &[Vec<Step>], d: &[usize]) -> CaseResult {
    let xlen = 32 + 32 * d[0] as u32;
    let mut a = Asm::new(xlen);
    // two steps per turn; 22 steps around it
    let turns = (BEGIN - 40) / 2;
    a.li(5, turns);
    a.label("l");
    a.w(addi(5, 5, -1));
    a.br(1, 5, 0, "l");
    let after = a.here();
    for k in 0..60 {
        a.w(addi(5 + k % 3, 5, 1 + d[1] as i32));
    }
    a.exit(1);
    let before = boots[d[0]].len() as u64 + (after - BASE) / 4 - 2 + 2 * turns;
    let code = a.build();
    let mut h = Hart::new(xlen);
    h.pc = after;
    if let Some(s) = boots[d[0]].last() {
        h.x = s.x;
    }
    h.x[5] = 0;
    let mut m = Mach::new(&code);
    let mut steps = vec![];
    let mut n = before;
    while m.get(TOHOST, 4) & 1 == 0 {
        let pc = h.pc;
        let _ = h.step(&mut m);
        cx.step_done();
        n += 1;
        if n > BEGIN {
            steps.push(Step {
                pc,
                x: h.x,
                fetched: true,
                trap: None,
                faulted: false,
                to: h.pc,
            });
        }
    }
    let dir = Dir::new();
    dir.put("prog", &image(xlen, &code));
    let o = run_env(&dir, "carron-cli", &["prog", "--loglv=diff"], &[], 3000.0);
    let text = String::from_utf8_lossy(&o.out).into_owned();
    let log = text.split_once("elfcheck: OK\n\n").map_or("", |t| t.1);
    cx.state(&d);
    cx.trace_done();
    if let Err(e) = check_diff(log, &steps) {
        return bad("log-start", format!("RV{xlen} after {BEGIN} steps: {e}"));
    }
    Ok(())
}
