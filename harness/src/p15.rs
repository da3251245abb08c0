//! P15: the serial port. A model of the byte streams and registers is replayed on the real device.
//! Delivery of console input is the device's choice (it polls), so the model keeps the set of
//! states it may be in and the device's data-ready flag selects among them.
use crate::asm::*;
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::imp::{guard, Imp, StepRes, PLIC};
use std::io::{Read, Seek, SeekFrom};
use std::os::fd::FromRawFd;
use std::sync::mpsc::Sender;
use std::sync::Mutex;

pub const UART: u64 = 0x1000_0000;
const LSR0: u8 = 0x60;

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Streams {
    queue: Vec<u8>,   // delivered, unread
    pending: Vec<u8>, // typed, not delivered
}

#[derive(Clone, Debug, PartialEq, Eq, Hash)]
struct Model {
    cand: Vec<Streams>,
    out: Vec<u8>,
    ier: u8,
    lcr: u8,
    mcr: u8,
    scr: u8,
    dll: u8,
    dlm: u8,
}

impl Model {
    fn new() -> Model {
        Model {
            cand: vec![Streams {
                queue: vec![],
                pending: vec![],
            }],
            out: vec![],
            ier: 0,
            lcr: 0,
            mcr: 8,
            scr: 0,
            dll: 0x0c,
            dlm: 0,
        }
    }
    fn dlab(&self) -> bool {
        self.lcr & 0x80 != 0
    }
    /// the device says whether a byte is waiting
    fn observe(&mut self, dr: bool) -> Result<(), String> {
        let before = format!("{:?}", self.cand);
        self.cand.retain(|s| s.queue.is_empty() != dr);
        if self.cand.is_empty() {
            return Err(format!(
                "data-ready is {dr}, the model allows only {before}"
            ));
        }
        Ok(())
    }
    fn iir(&self, dr: bool) -> u8 {
        if self.ier & 1 != 0 && dr {
            4
        } else if self.ier & 2 != 0 {
            2
        } else {
            1
        }
    }
}

#[derive(Clone, Copy, Debug)]
enum Op {
    W(u64, u8),
    R(u64),
    Input(&'static [u8]),
    Tick(u32),
}
use Op::*;

static OUT: Mutex<Option<std::fs::File>> = Mutex::new(None);

/// Standard output goes to a memory file while the device runs.
struct Redirect(i32);
impl Redirect {
    fn new() -> Redirect {
        unsafe {
            let saved = libc::dup(1);
            let fd = libc::memfd_create(c"carron-stdout".as_ptr(), 0);
            assert!(saved >= 0 && fd >= 0);
            libc::dup2(fd, 1);
            *OUT.lock().unwrap() = Some(std::fs::File::from_raw_fd(fd));
            Redirect(saved)
        }
    }
}
impl Drop for Redirect {
    fn drop(&mut self) {
        use std::io::Write;
        let _ = std::io::stdout().flush();
        unsafe {
            libc::dup2(self.0, 1);
            libc::close(self.0);
        }
    }
}
fn out_reset() {
    let mut g = OUT.lock().unwrap();
    let f = g.as_mut().unwrap();
    f.set_len(0).unwrap();
    f.seek(SeekFrom::Start(0)).unwrap();
}
fn out_read() -> Vec<u8> {
    let mut g = OUT.lock().unwrap();
    let f = g.as_mut().unwrap();
    let mut v = vec![];
    f.seek(SeekFrom::Start(0)).unwrap();
    f.read_to_end(&mut v).unwrap();
    v
}

fn reset(imp: &mut Imp) -> Sender<Vec<u8>> {
    let b = &mut imp.cpu.bus;
    b.uart = Default::default(); // its reader thread sees end of input and ends
    b.plic = Default::default();
    b.store32(PLIC + 4, 1).unwrap();
    b.store32(PLIC + 0x2000, 2).unwrap();
    b.uart.verif_attach_input()
}

fn rd(imp: &mut Imp, reg: u64) -> Result<u8, String> {
    imp.cpu
        .bus
        .load8(UART + reg)
        .map(|v| v as u8)
        .map_err(|e| format!("read of register {reg} faults: {e:?}"))
}

/// Everything that can be looked at without side effects.
fn look(m: &mut Model, imp: &mut Imp) -> Result<(), String> {
    let lsr = rd(imp, 5)?;
    if lsr & !1 != LSR0 {
        return Err(format!("line status {lsr:#x}"));
    }
    let dr = lsr & 1 == 1;
    m.observe(dr)?;
    let iir = rd(imp, 2)?;
    if iir != 0xc0 | m.iir(dr) {
        return Err(format!(
            "interrupt identification: spec {:#x}, carron {iir:#x}",
            0xc0 | m.iir(dr)
        ));
    }
    let line = imp.cpu.bus.plic.mip_value >> 11 & 1 == 1;
    if line != (m.iir(dr) != 1) {
        return Err(format!(
            "interrupt line: spec {}, carron {line}",
            m.iir(dr) != 1
        ));
    }
    let ier = if m.dlab() { m.dlm } else { m.ier };
    for (r, w, n) in [
        (1, ier, "IER/DLM"),
        (3, m.lcr, "LCR"),
        (4, m.mcr, "MCR"),
        (6, 0xb0, "MSR"),
        (7, m.scr, "SCR"),
    ] {
        let v = rd(imp, r)?;
        if v != w {
            return Err(format!("{n}: spec {w:#x}, carron {v:#x}"));
        }
    }
    Ok(())
}

fn apply(m: &mut Model, imp: &mut Imp, tx: &Sender<Vec<u8>>, op: Op) -> Result<(), String> {
    match op {
        Input(s) => {
            tx.send(s.to_vec()).unwrap();
            for c in &mut m.cand {
                c.pending.extend_from_slice(s);
            }
        }
        Tick(n) => {
            for _ in 0..n {
                let b = &mut imp.cpu.bus;
                b.uart.tick(&mut b.plic);
                if m.mcr & 0x10 == 0 {
                    let mut new = vec![];
                    for c in &m.cand {
                        for k in 0..=c.pending.len() {
                            let mut s = c.clone();
                            s.queue.extend(s.pending.drain(..k));
                            if !new.contains(&s) {
                                new.push(s);
                            }
                        }
                    }
                    m.cand = new;
                }
                look(m, imp)?;
            }
        }
        R(0) => {
            let v = rd(imp, 0)?;
            if m.dlab() {
                if v != m.dll {
                    return Err(format!("divisor latch: spec {:#x}, carron {v:#x}", m.dll));
                }
            } else {
                let was = format!("{:?}", m.cand);
                m.cand
                    .retain(|s| s.queue.first().copied().unwrap_or(0) == v);
                if m.cand.is_empty() {
                    return Err(format!(
                        "receive register gives {v:#x}, the model allows {was}"
                    ));
                }
                for c in &mut m.cand {
                    if !c.queue.is_empty() {
                        c.queue.remove(0);
                    }
                }
            }
        }
        R(r) => {
            rd(imp, r)?; // judged by look()
        }
        W(r, v) => {
            imp.cpu
                .bus
                .store8(UART + r, v as u64)
                .map_err(|e| format!("write of register {r} faults: {e:?}"))?;
            match r {
                0 if m.dlab() => m.dll = v,
                0 if m.mcr & 0x10 != 0 => m.cand.iter_mut().for_each(|c| c.queue.push(v)),
                0 => m.out.push(v),
                1 if m.dlab() => m.dlm = v,
                1 => m.ier = v & 0xf,
                2 => {
                    if v & 2 != 0 {
                        m.cand.iter_mut().for_each(|c| c.queue.clear())
                    }
                }
                3 => m.lcr = v,
                4 => m.mcr = v,
                7 => m.scr = v,
                _ => (),
            }
        }
    }
    look(m, imp)
}

/// Leave loopback, then everything that was ever typed has to come out.
fn drain(m: &mut Model, imp: &mut Imp, tx: &Sender<Vec<u8>>) -> Result<(), String> {
    apply(m, imp, tx, W(3, 0x83))?;
    apply(m, imp, tx, R(0))?;
    apply(m, imp, tx, R(1))?;
    apply(m, imp, tx, W(3, 0x03))?;
    apply(m, imp, tx, W(4, 0x08))?;
    let mut idle = 0;
    while idle < 40 {
        if rd(imp, 5)? & 1 == 1 {
            idle = 0;
            apply(m, imp, tx, R(0))?;
        } else {
            idle += 1;
            apply(m, imp, tx, Tick(1))?;
        }
    }
    m.cand.retain(|c| c.pending.is_empty());
    if m.cand.is_empty() {
        return Err("typed bytes were never delivered".into());
    }
    let out = out_read();
    if out != m.out {
        return Err(format!(
            "standard output: spec {:x?}, carron {out:x?}",
            m.out
        ));
    }
    Ok(())
}

fn run_ops(ctx: &mut Ctx, setup: &[Op], ops: &[Op]) -> CaseResult {
    let imp = ctx.imp(64);
    let tx = reset(imp);
    out_reset();
    let mut m = Model::new();
    let mut seen = vec![];
    let r = guard(|| {
        for op in setup {
            apply(&mut m, imp, &tx, *op)?;
        }
        for op in ops {
            apply(&mut m, imp, &tx, *op)?;
            seen.push(m.clone());
        }
        drain(&mut m, imp, &tx)
    });
    for s in &seen {
        ctx.step_done();
        ctx.state(s);
    }
    ctx.trace_done();
    let at = |t: String| format!("setup: {setup:x?}\nops: {ops:x?}\nmodel: {m:x?}\n{t}");
    match r {
        Ok(Ok(())) => Ok(()),
        Ok(Err(t)) => bad("uart", at(t)),
        Err(p) => bad("uart:abort", at(format!("the emulator aborts: {p}"))),
    }
}

pub fn run(rep: &Report) {
    rep.note("input delivery is nondeterministic in the model (the device polls); 40 polls without loopback must deliver what was typed; the transmitter is always ready, so its interrupt condition always holds");
    rep.note("loopback bytes beyond 64 unread ones may be dropped; bytes discarded by an explicit receiver reset are not lost by the device");
    unsafe {
        // reader threads of freshly built devices see end of input
        let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY);
        libc::dup2(n, 0);
    }
    let guard_out = Redirect::new();
    // 1. histories over the whole register file
    let al: Vec<Op> = vec![
        W(0, 0x41),
        W(0, 0xff),
        W(1, 0),
        W(1, 1),
        W(1, 2),
        W(1, 3),
        W(2, 1),
        W(2, 7),
        W(3, 0x03),
        W(3, 0x83),
        W(4, 0x08),
        W(4, 0x18),
        W(5, 0),
        W(6, 0),
        W(7, 0x5a),
        R(0),
        R(1),
        R(2),
        R(5),
        Input(b"a"),
        Input(b"\x00\xfe\n"),
        Tick(1),
        Tick(20),
    ];
    let n = al.len();
    let starts: Vec<Vec<Op>> = vec![
        vec![],
        vec![W(1, 1), Input(b"xy\n"), Tick(20)],
        vec![W(1, 3), W(4, 0x18), W(0, 7), Input(b"q")],
        vec![W(3, 0x83), W(1, 0x12), W(0, 0x34), W(1, 7)],
    ];
    let d = if rep.thorough { 4 } else { 3 };
    let mut dims = vec![starts.len()];
    dims.extend(std::iter::repeat(n).take(d));
    rep.space_t("histories", &dims, 1, |ctx, d| {
        let ops: Vec<Op> = d[1..].iter().map(|&k| al[k]).collect();
        run_ops(ctx, &starts[d[0]], &ops)
    });
    // 2. deeper histories over the data path
    let al2: Vec<Op> = vec![
        W(0, 0x30),
        R(0),
        Input(b"1"),
        Input(b"23"),
        Tick(1),
        Tick(17),
        W(4, 0x18),
        W(4, 0x08),
        W(1, 1),
        W(2, 2),
    ];
    let n = al2.len();
    let mut dims = vec![2];
    dims.extend(std::iter::repeat(n).take(if rep.thorough { 6 } else { 5 }));
    rep.space_t("data", &dims, 1, |ctx, d| {
        let ops: Vec<Op> = d[1..].iter().map(|&k| al2[k]).collect();
        run_ops(
            ctx,
            if d[0] == 0 {
                &[]
            } else {
                &[Input(b"9"), Tick(1), W(1, 1)]
            },
            &ops,
        )
    });
    // 3. every value of every register in both divisor-latch states
    rep.space_t("values", &[256, 2], 1, |ctx, d| {
        let v = d[0] as u8;
        let pre = [W(3, [0x03, 0x83][d[1]])];
        let ops = [
            W(0, v),
            W(1, v),
            W(7, v),
            R(0),
            R(1),
            W(3, 0x03),
            R(1),
            W(4, v),
            W(0, v),
            W(0, !v),
            R(0),
            R(0),
        ];
        run_ops(ctx, &pre, &ops)?;
        run_ops(
            ctx,
            &pre,
            &[W(2, v), W(5, v), W(6, v), W(3, v), W(1, v), R(0)],
        )
    });
    // loopback bursts: the first 64 unread bytes are kept in order; what exceeds them may be lost
    rep.space_t("loopback-burst", &[131, 4, 4], 1, |ctx, d| {
        let imp = ctx.imp(64);
        let _tx = reset(imp);
        out_reset();
        let (n, pre, early) = (d[0], [0usize, 1, 30, 64][d[1]], [0usize, 1, 29, 64][d[2]]);
        let byte = |k: usize| (k * 11 + 5) as u8;
        let r = guard(|| -> Result<(), String> {
            imp.cpu.bus.store8(UART + 4, 0x18).unwrap();
            for k in 0..pre {
                imp.cpu.bus.store8(UART, byte(k) as u64).unwrap();
            }
            let early = early.min(pre);
            for k in 0..early {
                let v = rd(imp, 0)?;
                if v != byte(k) {
                    return Err(format!("byte {k} is {v:#x}, expected {:#x}", byte(k)));
                }
            }
            for k in pre..pre + n {
                imp.cpu.bus.store8(UART, byte(k) as u64).unwrap();
            }
            let held = (pre + n - early).min(64);
            let mut got = vec![];
            while rd(imp, 5)? & 1 == 1 && got.len() < 1000 {
                got.push(rd(imp, 0)?);
            }
            let want: Vec<u8> = (early..early + held).map(byte).collect();
            if got.len() < held || got[..held] != want[..] || got.len() > pre + n - early {
                return Err(format!(
                    "{n} bytes sent on top of {} unread: {} received, {got:x?}",
                    pre - early,
                    got.len()
                ));
            }
            if !out_read().is_empty() {
                return Err("loopback bytes reach standard output".into());
            }
            Ok(())
        });
        ctx.step_done();
        ctx.state(&d.to_vec());
        ctx.trace_done();
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(t)) => bad("uart-loopback", t),
            Err(p) => bad("uart:abort", p),
        }
    });
    // 4. bulk input: lengths around the queue size, chunking and bursts
    let lens: &[usize] = &[0, 1, 2, 63, 64, 65, 66, 127, 128, 129, 200, 1000];
    rep.space_t("bulk", &[lens.len(), lens.len(), 6, 3], 1, |ctx, d| {
        let imp = ctx.imp(64);
        let tx = reset(imp);
        out_reset();
        let mk = |n: usize, k: usize| (0..n).map(|i| (i * 7 + k) as u8).collect::<Vec<u8>>();
        let (a, b) = (mk(lens[d[0]], 1), mk(lens[d[1]], 3));
        let all: Vec<u8> = [&a[..], &b[..]].concat();
        let burst = [1, 2, 16, 63, 64, 1000][d[2]];
        let r = guard(|| {
            imp.cpu.bus.store8(UART + 1, [0, 1, 3][d[3]]).unwrap();
            // an empty chunk is what the reader never sends
            for c in [&a, &b] {
                if !c.is_empty() {
                    tx.send(c.clone()).unwrap();
                }
            }
            let mut got = vec![];
            let mut idle = 0;
            while idle < 40 {
                let bus = &mut imp.cpu.bus;
                bus.uart.tick(&mut bus.plic);
                idle += 1;
                for _ in 0..burst {
                    let dr = rd(imp, 5)? & 1 == 1;
                    let want = d[3] != 0 && (dr || d[3] == 2);
                    let line = imp.cpu.bus.plic.mip_value >> 11 & 1 == 1;
                    if line != want {
                        return Err(format!(
                            "after {} bytes: interrupt line {line}, condition {want}",
                            got.len()
                        ));
                    }
                    if !dr {
                        break;
                    }
                    idle = 0;
                    got.push(rd(imp, 0)?);
                }
            }
            if got != all {
                let k = got
                    .iter()
                    .zip(&all)
                    .position(|(x, y)| x != y)
                    .unwrap_or(got.len().min(all.len()));
                return Err(format!(
                    "{} bytes typed, {} received, first difference at {k}",
                    all.len(),
                    got.len()
                ));
            }
            Ok(())
        });
        ctx.step_done();
        ctx.trace_done();
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(t)) => bad("uart-bulk", t),
            Err(p) => bad("uart:abort", p),
        }
    });
    // 5. through instructions: every byte value, signed and unsigned loads, both ISAs
    rep.space_t("instructions", &[2, 256, 3], 1, |ctx, d| {
        let xlen = [32, 64][d[0]];
        let v = d[1] as u8;
        let imp = ctx.imp(xlen);
        let tx = reset(imp);
        out_reset();
        imp.lines(0);
        let r = guard(|| -> Result<(), String> {
            let c = &mut imp.cpu;
            c.verif_set_pc(0);
            c.verif_reset();
            c.verif_set_pc(0x8000_0000);
            let code = match d[2] {
                // transmit twice
                0 => vec![store(0, 6, 5, 0), store(0, 6, 5, 0)],
                // receive signed, then unsigned
                1 => vec![
                    load(0, 7, 5, 0),
                    load(4, 8, 5, 0),
                    load(4, 9, 5, 5),
                    load(0, 10, 5, 0),
                ],
                // scratch and loopback
                _ => vec![
                    store(0, 6, 5, 7),
                    load(0, 7, 5, 7),
                    load(4, 8, 5, 7),
                    store(0, 11, 5, 4),
                    store(0, 6, 5, 0),
                    load(0, 9, 5, 0),
                ],
            };
            for (k, w) in code.iter().enumerate() {
                for (j, b) in w.to_le_bytes().iter().enumerate() {
                    imp.put8(0x8000_0000 + 4 * k as u64 + j as u64, *b);
                }
            }
            imp.set_x(5, UART);
            imp.set_x(6, v as u64 | 0xab00);
            imp.set_x(11, 0x18);
            if d[2] == 1 {
                tx.send(vec![v, v, !v]).unwrap();
                for _ in 0..40 {
                    let b = &mut imp.cpu.bus;
                    b.uart.tick(&mut b.plic);
                }
            }
            for k in 0..code.len() {
                if let StepRes::Panic(p) = imp.step() {
                    return Err(format!("abort: {p}"));
                }
                if imp.pc() != 0x8000_0004 + 4 * k as u64 {
                    return Err(format!(
                        "instruction {k} traps, cause {:#x}",
                        imp.csr(0x342)
                    ));
                }
            }
            let sext = |v: u8| {
                if xlen == 32 {
                    v as i8 as i32 as u32 as u64
                } else {
                    v as i8 as i64 as u64
                }
            };
            let got: Vec<u64> = (7..11).map(|r| imp.x(r)).collect();
            let want = match d[2] {
                0 => vec![0, 0, 0, 0],
                1 => vec![sext(v), v as u64, 0x61, sext(!v)],
                _ => vec![sext(v), v as u64, sext(v), 0],
            };
            if got != want {
                return Err(format!("registers: spec {want:x?}, carron {got:x?}"));
            }
            let out = out_read();
            let want: Vec<u8> = if d[2] == 0 { vec![v, v] } else { vec![] };
            if out != want {
                return Err(format!("standard output: spec {want:x?}, carron {out:x?}"));
            }
            Ok(())
        });
        ctx.step_done();
        ctx.trace_done();
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(t)) => bad("uart-inst", format!("byte {v:#x}: {t}")),
            Err(p) => bad("uart:abort", p),
        }
    });
    drop(guard_out);
    // 6. the whole emulator: a guest echoes n bytes; standard input is a pipe
    let pat = |n: usize, k: usize| {
        (0..n)
            .map(|i| ((i * 37 + k) % 256) as u8)
            .filter(|&b| b != 10)
            .collect::<Vec<u8>>()
    };
    let lines: &[usize] = &[0, 1, 62, 63, 64, 65, 128, 200];
    let mut inputs: Vec<Vec<Vec<u8>>> =
        vec![vec![(0..=255).collect()], vec![(0..=255).rev().collect()]];
    for (i, &a) in lines.iter().enumerate() {
        for &b in &lines[..if rep.thorough { lines.len() } else { 4 }] {
            for nl in [true, false] {
                let mut x = pat(a, i);
                x.push(10);
                let mut y = pat(b, 100);
                if nl {
                    y.push(10)
                }
                inputs.push(vec![x, y]);
            }
        }
    }
    rep.space("emulator", &[2, inputs.len(), 2, 2], |ctx, d| {
        let chunks = &inputs[d[1]];
        let all: Vec<u8> = chunks.concat();
        // together, or one line at a time as the echo comes back
        let mut at = 0;
        let input: Vec<(usize, Vec<u8>)> = if d[2] == 0 {
            vec![(0, all.clone())]
        } else {
            chunks
                .iter()
                .map(|c| {
                    let r = (at, c.clone());
                    at += c.len();
                    r
                })
                .collect()
        };
        let mut a = crate::e2e::Asm::new([32, 64][d[0]]);
        for c in b"<GO>" {
            a.putc(*c);
        }
        a.li(5, UART).li(8, all.len() as u64);
        a.label("more").br(0, 8, 0, "end");
        a.label("wait");
        a.w(load(4, 6, 5, 5))
            .w(i(1, 6, 7, 6, 0x13))
            .br(0, 6, 0, "wait");
        a.w(load(4, 7, 5, 0));
        if d[3] == 1 {
            a.w(load(0, 9, 5, 7)); // an unrelated register in between
        }
        a.w(store(0, 7, 5, 0)).w(addi(8, 8, -1)).jal(0, "more");
        a.label("end").exit(1);
        let dir = crate::e2e::Dir::new();
        let elf = dir.put("g", &a.elf());
        let o = crate::e2e::run(&dir, &[&elf], b"<GO>", &input, 20.0);
        ctx.step_done();
        ctx.trace_done();
        if o.code != Some(1) || o.after(b"<GO>") != Some(&all[..]) {
            return bad("uart-e2e", format!("typed {all:x?}\n{}", o.show()));
        }
        Ok(())
    });
    rep.sample(
        "IER=1, input 'a', tick, read IIR -> 0xc4, line up; read RX -> 'a'; IIR -> 0xc1, line down"
            .into(),
    );
    rep.sample(
        "MCR=0x18, TX 'A', read RX -> 'A', nothing printed; MCR=8, TX 'B' printed once".into(),
    );
}
