//! P19: image loading. Every layout of a bounded family is built by an independent ELF writer,
//! loaded by the real loader, and RAM compared with the layout's meaning.
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::elf::{Elf, Seg};
use crate::imp::{args_for, guard, loader_for, scratch_path};
use carron::bus::Device;
use carron::cpu::Cpu;
use carron::{Emulator, Isa};

const RAM: u64 = 1 << 31;

fn bytes(n: usize, k: usize) -> Vec<u8> {
    (0..n).map(|i| ((i * 7 + k * 41) % 255 + 1) as u8).collect()
}

/// What RAM has to hold: written ranges, everything else zero.
struct Want {
    base: u64,
    parts: Vec<(u64, Vec<u8>)>,
    /// addresses that a wrong placement would use
    decoys: Vec<u64>,
}
impl Want {
    fn at(&self, a: u64) -> u8 {
        for (p, d) in self.parts.iter().rev() {
            if a >= *p && a - p < d.len() as u64 {
                return d[(a - p) as usize];
            }
        }
        0
    }
    fn check(&self, cpu: &mut Cpu, full: bool) -> Result<(), String> {
        let end = self.base + RAM;
        let mut win: Vec<(u64, u64)> = vec![(self.base, 0x240), (end - 0x240, 0x240)];
        for (p, d) in &self.parts {
            // parts do not overlap
            for (k, c) in d.chunks(8).enumerate() {
                let a = p + 8 * k as u64;
                let mut v = [0u8; 8];
                v[..c.len()].copy_from_slice(c);
                let ok = c.len() == 8
                    && matches!(cpu.bus.dram.load64(a), Ok(x) if x == u64::from_le_bytes(v));
                if !ok {
                    win.push((a, 8));
                }
            }
            win.push((p.saturating_sub(0x40), 0x40));
            win.push((p + d.len() as u64, 0x40));
        }
        for d in &self.decoys {
            win.push((d.saturating_sub(0x20), 0x60));
        }
        for k in 12..31 {
            win.push((self.base + (1 << k) - 8, 16));
        }
        let look = |cpu: &mut Cpu, a: u64| -> Result<(), String> {
            match cpu.bus.load_u8(a) {
                Ok(v) if v == self.at(a) as u64 => Ok(()),
                Ok(v) => Err(format!(
                    "byte {a:#x}: want {:#x}, RAM holds {v:#x}",
                    self.at(a)
                )),
                Err(_) => Err(format!("byte {a:#x} is not readable")),
            }
        };
        for (a, n) in win {
            for x in a.max(self.base)..(a + n).min(end) {
                look(cpu, x)?;
            }
        }
        if full {
            let mut a = self.base;
            while a < end {
                let v = cpu.bus.dram.load64(a).unwrap_or(1);
                if v != 0 {
                    for x in a..a + 8 {
                        look(cpu, x)?;
                    }
                }
                a += 8;
            }
        }
        // just outside
        if cpu.bus.load_u8(end).is_ok() {
            return Err(format!(
                "there is memory at {end:#x}, behind the 2 GiB of RAM"
            ));
        }
        Ok(())
    }
}

fn isa_is(isa: &Isa, xlen: u32) -> bool {
    matches!((isa, xlen), (Isa::Rv32, 32) | (Isa::Rv64, 64))
}

/// kind of one program header: (type, file bytes, memory bytes)
const KINDS: &[(u32, usize, u64)] = &[
    (1, 1, 1),
    (1, 3, 27),
    (1, 16, 16),
    (1, 4101, 8200),
    (1, 0, 48),
    (4, 16, 16),
    (6, 12, 12),
    (0, 8, 8),
];
const PERMS3: [[usize; 3]; 6] = [
    [0, 1, 2],
    [0, 2, 1],
    [1, 0, 2],
    [1, 2, 0],
    [2, 0, 1],
    [2, 1, 0],
];

fn segments(cx: &mut Ctx, xlen: u32, d: &[usize]) -> CaseResult {
    let (perm, gap, style, base) = (PERMS3[d[3]], d[4], d[5], d[6]);
    let base = if cx.rep.thorough { base } else { style % 3 };
    let base = match (base, xlen) {
        (0, _) => 0x8000_0000u64,
        (1, 32) => 0x4000_0000,
        (1, _) => 0x1_2000_0000,
        (_, 32) => 0x1080_0000,
        _ => 0x80_0000_1000,
    };
    let kinds: Vec<(u32, usize, u64)> = (0..3)
        .filter(|&k| d[k] > 0)
        .map(|k| KINDS[d[k] - 1])
        .collect();
    // addresses rise in slot order
    let mut addr = vec![0u64; kinds.len()];
    let mut slots: Vec<usize> = (0..kinds.len()).collect();
    slots.sort_by_key(|&k| perm[k]);
    let mut next = base;
    for (n, &k) in slots.iter().enumerate() {
        addr[k] = next;
        let len = kinds[k].2.max(kinds[k].1 as u64);
        next += match gap {
            0 => len,
            1 => len.div_ceil(16) * 16 + 8,
            2 => len + 0x1000,
            _ if n == 0 => 0x4000_0000,
            _ => 0x3fff_e000,
        };
    }
    let loads: Vec<usize> = (0..kinds.len()).filter(|&k| kinds[k].0 == 1).collect();
    if loads.is_empty() {
        return Ok(());
    }
    let lowest = loads.iter().map(|&k| addr[k]).min().unwrap();
    if loads.iter().any(|&k| addr[k] + kinds[k].2 > lowest + RAM) {
        return Ok(());
    }
    let mut e = Elf::new(xlen);
    e.entry = lowest + 4 * (style as u64 & 1);
    e.phoff_last = style & 1 == 1;
    e.pad = if style & 2 == 2 { 5000 } else { 0 };
    e.shoff_first = style & 1 == 1;
    let mut want = Want {
        base: lowest,
        parts: vec![],
        decoys: vec![],
    };
    for (k, &(ptype, fsz, msz)) in kinds.iter().enumerate() {
        let data = bytes(fsz, k);
        // virtual addresses do not matter
        let vaddr = match style {
            0 => addr[k],
            1 => addr[k] ^ 0x1_0000,
            2 => lowest + 0x100_0000 * (3 - k as u64),
            _ => addr[(k + 1) % kinds.len()],
        };
        want.decoys.push(vaddr);
        if ptype == 1 {
            want.parts.push((addr[k], data.clone()));
        } else {
            want.decoys.push(addr[k]);
        }
        e.segs.push(Seg {
            ptype,
            paddr: addr[k],
            vaddr,
            data,
            memsz: msz,
        });
    }
    if style == 3 {
        // where ld puts a .bss segment whose data would start on the next page
        e.empty_off = Some(0x10_0000);
    }
    let image = e.build();
    want.decoys.push(lowest + image.len() as u64);
    let built = guard(|| {
        let l = loader_for(&image);
        let isa = l.target_arch();
        (isa, l.is_elf(), Cpu::new(l, &args_for("x"), isa))
    });
    cx.step_done();
    cx.state(&(xlen, d));
    let desc = || {
        let mut s = format!("RV{xlen} image, program headers:");
        for g in &e.segs {
            s += &format!(
                "\n  type {} paddr {:#x} vaddr {:#x} filesz {} memsz {}",
                g.ptype,
                g.paddr,
                g.vaddr,
                g.data.len(),
                g.memsz
            );
        }
        s
    };
    let (isa, is_elf, mut cpu) = match built {
        Err(m) => return bad("load-abort", format!("{}\nloading panics: {m}", desc())),
        Ok(x) => x,
    };
    cx.trace_done();
    if !isa_is(&isa, xlen) || !is_elf {
        return bad(
            "class",
            format!("{}\nwrong ISA or not accepted as ELF", desc()),
        );
    }
    let full = d.iter().all(|&x| x <= 1) || (d[0] == 4 && d[1] == 3 && d[2] == 2 && d[3] == 5);
    let full = full && d[4] == 1 && d[5] == 0 && d[6] == 0;
    if let Err(m) = want.check(&mut cpu, full) {
        return bad("segment", format!("{}\n{m}", desc()));
    }
    Ok(())
}

fn extras(cx: &mut Ctx, d: &[usize]) -> CaseResult {
    let xlen = if d[0] == 0 { 32 } else { 64 };
    const SIZES: [Option<usize>; 8] = [
        None,
        Some(1),
        Some(7),
        Some(4095),
        Some(4096),
        Some(4097),
        Some(70_001),
        Some(3 << 20),
    ];
    let (kernel, initrd) = (SIZES[d[1]], SIZES[d[2]]);
    let base = match (d[3], xlen) {
        (0, _) => 0x8000_0000u64,
        (1, 32) => 0x4000_0000,
        (1, _) => 0x1_2000_0000,
        (2, 32) => 0xa000_0000,
        (2, _) => 0xa000_0000,
        (_, 32) => 0x8010_0000,
        _ => 0x3f_ffff_0000,
    };
    let seg2 = d[4];
    let mut e = Elf::new(xlen).seg(base, bytes(50, 1), 50);
    let mut want = Want {
        base,
        parts: vec![(base, bytes(50, 1))],
        decoys: vec![],
    };
    if seg2 == 1 {
        e = e.seg(base + 0x10_0000, bytes(300, 2), 900);
        want.parts.push((base + 0x10_0000, bytes(300, 2)));
    }
    let image = e.build();
    let mut args = args_for("x");
    let file = |n: usize, k: usize| -> (String, Vec<u8>) {
        let (p, v) = (scratch_path("img"), bytes(n, k));
        std::fs::write(&p, &v).expect("scratch image");
        (p, v)
    };
    let mut files = vec![];
    let koff: u64 = if xlen == 32 { 0x40_0000 } else { 0x20_0000 };
    want.decoys.extend([base + 0x20_0000, base + 0x40_0000]);
    if let Some(n) = kernel {
        let (p, v) = file(n, 3);
        want.parts.push((base + koff, v));
        args.kernel_path = Some(p.clone());
        files.push(p);
    }
    // the ramdisk ends one page below the top of RAM, or of the 32-bit space
    let end = base + RAM;
    let top = if base < 1 << 32 {
        end.min(1 << 32)
    } else {
        end
    } - 0x1000;
    let mut range = None;
    if let Some(n) = initrd {
        let (p, v) = file(n, 4);
        want.parts.push((top - n as u64, v));
        range = Some((top - n as u64, top));
        args.initrd_path = Some(p.clone());
        files.push(p);
    }
    let built = guard(|| {
        let l = loader_for(&image);
        let isa = l.target_arch();
        Cpu::new(l, &args, isa)
    });
    for f in files {
        let _ = std::fs::remove_file(f);
    }
    cx.step_done();
    cx.state(&d);
    let desc = format!(
        "RV{xlen}, RAM at {base:#x}, kernel of {kernel:?} bytes, ramdisk of {initrd:?} bytes"
    );
    let mut cpu = match built {
        Err(m) => return bad("extra-abort", format!("{desc}\nloading panics: {m}")),
        Ok(c) => c,
    };
    cx.trace_done();
    if let Err(m) = want.check(&mut cpu, false) {
        return bad("extra", format!("{desc}\n{m}"));
    }
    let dr = &cpu.bus.dram;
    let got = dr
        .initrd_start
        .zip(dr.initrd_end)
        .map(|(a, b)| (a as u64, b as u64));
    if got != range || (range.is_none() && (dr.initrd_start.is_some() || dr.initrd_end.is_some())) {
        return bad(
            "ramdisk-range",
            format!("{desc}\nramdisk range: want {range:x?}, reported {got:x?}"),
        );
    }
    Ok(())
}

const SYMS: [&str; 6] = [
    "tohost",
    "fromhost",
    "_start",
    "tohosts",
    "xfromhost",
    "from",
];
fn perm(mut n: usize, k: usize) -> Vec<usize> {
    let mut pool: Vec<usize> = (0..k).collect();
    let mut v = vec![];
    for r in (1..=k).rev() {
        v.push(pool.remove(n % r));
        n /= r;
    }
    v
}

fn symbols(cx: &mut Ctx, d: &[usize]) -> CaseResult {
    let xlen = if d[0] == 0 { 32 } else { 64 };
    // which of the two host symbols exist
    let present = d[4];
    let place = d[5];
    let (base, th, fh) = match (place, xlen) {
        (0, _) => (0x8000_0000u64, 0x8000_1000u64, 0x8000_1040u64),
        (1, 32) => (0x1000_0000 << 2, 0x7fff_0008, 0x4000_0010),
        (1, _) => (0x12_0000_0000, 0x12_7fff_ff00, 0x12_0000_0100),
        _ => (0x8000_0000, 0xfffe_fff8, 0x8000_0ff8),
    };
    let mut e = Elf::new(xlen).seg(base, bytes(20, 1), 20);
    for k in perm(d[1], SYMS.len()) {
        let v = match k {
            0 => th,
            1 => fh,
            _ => base + 0x2000 + 0x40 * k as u64,
        };
        if (k == 0 && present & 1 == 0) || (k == 1 && present & 2 == 0) {
            continue;
        }
        e = e.sym(SYMS[k], v);
    }
    let o = perm(d[2], 4);
    e.order = [o[0], o[1], o[2], o[3]];
    match d[3] {
        0 => {}
        1 => e.shoff_first = true,
        2 => e.front = vec![(".comment", 1, b"tohost\0fromhost\0".to_vec())],
        3 => {
            e.back = vec![
                (".debug_str", 1, b"tohost\0".to_vec()),
                (".symtab_shndx", 18, vec![0; 64]),
                (".strtab2", 3, b"\0fromhost\0tohost\0".to_vec()),
            ];
            e.front = vec![(".dynstr", 3, b"\0tohost\0".to_vec())];
        }
        4 => e.strip = 1,
        _ => e.strip = 2,
    }
    let image = e.build();
    let desc = format!(
        "RV{xlen}, RAM at {base:#x}, symbols {:?}, sections in order {:?}, variant {}",
        e.syms, e.order, d[3]
    );
    cx.step_done();
    cx.state(&d);
    let has = e.strip == 0;
    let want = (
        (has && present & 1 == 1).then_some(th),
        (has && present & 2 == 2).then_some(fh),
    );
    let got = match guard(|| {
        let l = loader_for(&image);
        let isa = l.target_arch();
        l.get_host_addr(isa)
    }) {
        Ok(g) => g,
        Err(m) => {
            return bad(
                "symbol-abort",
                format!("{desc}\nlooking up the symbols panics: {m}"),
            )
        }
    };
    if got != want {
        return bad(
            "symbols",
            format!("{desc}\nhost symbols: want {want:x?}, found {got:x?}"),
        );
    }
    cx.trace_done();
    if want.0.is_none() || want.1.is_none() {
        return Ok(());
    }
    // a request through them: close(99)
    let r = guard(|| {
        let mut emu = Emulator::new(loader_for(&image), args_for("x"));
        let block = base + 0x8000;
        let b = &mut emu.cpu.bus;
        for (k, v) in [57u64, 99, 0, 0, 0, 0, 0, 0].iter().enumerate() {
            b.store64(block + 8 * k as u64, *v).unwrap();
        }
        if emu.check_tohost() {
            return Err("a request is seen before it is made".to_string());
        }
        emu.cpu.bus.store64(th, block).unwrap();
        if !emu.check_tohost() {
            return Err("the request is not seen".to_string());
        }
        emu.handle_syscall();
        let b = &mut emu.cpu.bus;
        let (r, ack, t) = (
            b.load64(block).unwrap(),
            b.load64(fh).unwrap(),
            b.load64(th).unwrap(),
        );
        if r as i64 != -9 || ack == 0 || t != 0 {
            return Err(format!(
                "close(99): result {}, fromhost {ack:#x}, tohost {t:#x}",
                r as i64
            ));
        }
        // let the front end give its descriptors back
        for fd in 0..3 {
            for (k, v) in [57u64, fd, 0].iter().enumerate() {
                emu.cpu.bus.store64(block + 8 * k as u64, *v).unwrap();
            }
            emu.cpu.bus.store64(fh, 0).unwrap();
            emu.cpu.bus.store64(th, block).unwrap();
            if emu.check_tohost() {
                emu.handle_syscall();
            }
        }
        Ok(())
    });
    match r {
        Err(m) => bad(
            "request-abort",
            format!("{desc}\nmaking a request panics: {m}"),
        ),
        Ok(Err(m)) => bad("request", format!("{desc}\n{m}")),
        Ok(Ok(())) => Ok(()),
    }
}

/// Many program headers, and every kind of header that is not to be loaded.
fn many(cx: &mut Ctx, d: &[usize]) -> CaseResult {
    let xlen = if d[0] == 0 { 32 } else { 64 };
    let n = [4, 5, 7, 8, 9, 15, 16, 17, 31, 32, 33, 40, 64, 100, 255, 256][d[1]];
    let other = [
        0u32,
        2,
        3,
        4,
        5,
        6,
        7,
        0x6474_e550,
        0x6474_e551,
        0x7000_0003,
        0x8000_0001,
        0xffff_ffff,
    ][d[3]];
    let base = 0x8000_0000;
    let mut e = Elf::new(xlen);
    e.entry = base;
    let mut want = Want {
        base,
        parts: vec![],
        decoys: vec![],
    };
    for k in 0..n {
        let slot = match d[2] {
            0 => k,
            1 => n - 1 - k,
            _ => (k * 7 + 3) % n,
        };
        let slot = if d[2] == 2 && n % 7 == 0 { k } else { slot };
        let a = base + 0x140 * slot as u64 + (slot as u64 >> 5 << 20);
        let data = bytes(1 + k % 60, k);
        let load = k % 3 != 1 || slot == 0;
        if load {
            want.parts.push((a, data.clone()));
        } else {
            want.decoys.push(a);
        }
        e.segs.push(Seg {
            ptype: if load { 1 } else { other },
            paddr: if load { a } else { a - 0x1000 },
            vaddr: a,
            memsz: data.len() as u64,
            data,
        });
    }
    placed(
        cx,
        xlen,
        &e,
        want,
        d,
        format!("RV{xlen}, {n} program headers, other type {other:#x}"),
    )
}

/// Large segments, and segments far from the first.
fn large(cx: &mut Ctx, d: &[usize]) -> CaseResult {
    let xlen = if d[0] == 0 { 32 } else { 64 };
    let base = 0x8000_0000u64;
    let n = [
        1usize, 0xffff, 0x1_0000, 0x1_0001, 0xf_ffff, 0x10_0001, 0x180_0003,
    ][d[1]];
    let far = [
        0x200_0000u64,
        0x1000_0000,
        0x4000_0000,
        0x7000_0000,
        0x7fff_0000,
        RAM - n as u64,
    ][d[2]];
    if far + n as u64 > RAM {
        return Ok(());
    }
    let e = Elf::new(xlen)
        .seg(base, bytes(40, 1), 40)
        .seg(base + far, bytes(n, 2), n as u64);
    let want = Want {
        base,
        parts: vec![(base, bytes(40, 1)), (base + far, bytes(n, 2))],
        decoys: vec![],
    };
    placed(
        cx,
        xlen,
        &e,
        want,
        d,
        format!("RV{xlen}, {n:#x} bytes at RAM + {far:#x}"),
    )
}

fn placed(cx: &mut Ctx, _xlen: u32, e: &Elf, want: Want, d: &[usize], desc: String) -> CaseResult {
    let image = e.build();
    let built = guard(|| {
        let l = loader_for(&image);
        let isa = l.target_arch();
        Cpu::new(l, &args_for("x"), isa)
    });
    cx.step_done();
    cx.state(&d);
    match built {
        Err(m) => bad("load-abort", format!("{desc}\nloading panics: {m}")),
        Ok(mut cpu) => {
            cx.trace_done();
            want.check(&mut cpu, false)
                .or_else(|m| bad("segment", format!("{desc}\n{m}")))
        }
    }
}

/// All names at edit distance one from `w` (over a few characters), and `w` within longer words.
fn near(w: &str) -> Vec<String> {
    let mut v: Vec<String> = vec![String::new(), w.to_uppercase(), w.chars().rev().collect()];
    for k in 0..=w.len() {
        let (a, b) = w.split_at(k);
        for c in ["t", "_", ".", "0", " ", "T", "\u{1}"] {
            v.push(format!("{a}{c}{b}"));
            if !b.is_empty() {
                v.push(format!("{a}{c}{}", &b[1..]));
            }
        }
        v.push(a.to_string());
        v.push(b.to_string());
        if !b.is_empty() {
            v.push(format!("{a}{}", &b[1..]));
        }
    }
    for (a, b) in [
        ("__", "__"),
        ("riscv_", ""),
        ("", "_addr"),
        (w, ""),
        ("not", "ed"),
    ] {
        v.push(format!("{a}{w}{b}"));
    }
    v.sort();
    v.dedup();
    v.retain(|n| n != "tohost" && n != "fromhost");
    v
}
/// A symbol, or a section, whose name is almost the one looked for.
fn decoys(cx: &mut Ctx, names: &[String], sections: &[&'static str], d: &[usize]) -> CaseResult {
    let xlen = if d[0] == 0 { 32 } else { 64 };
    let (base, th, fh) = (0x8000_0000u64, 0x8000_1000u64, 0x8000_1040u64);
    let decoy = base + 0x2000;
    let present = d[4];
    let mut e = Elf::new(xlen).seg(base, bytes(20, 1), 20);
    let two = if d[3] == 0 {
        [("tohost", th, 1), ("fromhost", fh, 2)]
    } else {
        [("fromhost", fh, 2), ("tohost", th, 1)]
    };
    let two: Vec<_> = two.into_iter().filter(|t| present & t.2 != 0).collect();
    let what = if d[1] < names.len() {
        for k in 0..=two.len() {
            if k == d[2].min(two.len()) {
                e = e.sym(&names[d[1]], decoy);
            }
            if k < two.len() {
                e = e.sym(two[k].0, two[k].1);
            }
        }
        format!("a symbol {:?}", names[d[1]])
    } else {
        for t in &two {
            e = e.sym(t.0, t.1);
        }
        let n = sections[d[1] - names.len()];
        let body = [b"\0tohost\0fromhost\0".to_vec(), vec![1; 48], vec![]][d[2]].clone();
        e.front.push((n, 1, body.clone()));
        e.back.push((n, 1, body));
        format!("sections {n:?}")
    };
    cx.step_done();
    cx.state(&d);
    let image = e.build();
    let got = guard(|| {
        let l = loader_for(&image);
        let isa = l.target_arch();
        l.get_host_addr(isa)
    });
    cx.trace_done();
    let want = (
        (present & 1 != 0).then_some(th),
        (present & 2 != 0).then_some(fh),
    );
    if got != Ok(want) {
        return bad(
            "symbols",
            format!("RV{xlen}, {what} beside {two:x?}: want {want:x?}, found {got:x?}"),
        );
    }
    Ok(())
}

/// The host symbols among many, with long names, and behind many sections.
fn crowd(cx: &mut Ctx, d: &[usize]) -> CaseResult {
    let xlen = if d[0] == 0 { 32 } else { 64 };
    const N: [usize; 8] = [0, 1, 30, 255, 256, 1000, 4100, 70_000];
    let base = 0x8000_0000u64;
    let (th, fh) = (0x8000_1000u64, 0x8000_1040u64);
    let mut e = Elf::new(xlen).seg(base, bytes(20, 1), 20);
    let name = |k: usize| match d[4] {
        0 => format!("s{k}"),
        1 => format!("a_rather_long_symbol_name_{k}_{}", "x".repeat(k % 90)),
        _ => format!("{}tohost{k}", if k % 2 == 0 { "" } else { "from" }),
    };
    for k in 0..N[d[1]] {
        e = e.sym(&name(k), base + 0x2000 + 8 * k as u64);
    }
    e = e.sym("fromhost", fh);
    for k in 0..N[d[2]] {
        e = e.sym(&name(k + 100_000), base + 0x3000 + 8 * k as u64);
    }
    e = e.sym("tohost", th);
    for _ in 0..[0, 30, 250, 300][d[3]] {
        e.front.push((".note", 7, vec![0; 4]));
        e.back.push((".comment", 1, vec![0; 4]));
    }
    cx.step_done();
    cx.state(&d);
    let image = e.build();
    let got = guard(|| {
        let l = loader_for(&image);
        let isa = l.target_arch();
        l.get_host_addr(isa)
    });
    cx.trace_done();
    if got != Ok((Some(th), Some(fh))) {
        return bad(
            "symbols",
            format!(
                "RV{xlen}, {} symbols, then fromhost, {} more, then tohost, {} sections: {got:x?}",
                N[d[1]],
                N[d[2]],
                2 * [0, 30, 250, 300][d[3]]
            ),
        );
    }
    Ok(())
}

pub fn run(r: &Report) {
    r.note("segments of an image do not overlap; its loadable segments fit into the 2 GiB of RAM that start at the lowest one");
    r.note("bytes checked: all of every segment with margins, both ends of RAM, places where a wrong address (virtual, unsorted, non-loadable) would put data, around every power of two; all 2 GiB for four layouts");
    let k = KINDS.len() + r.thorough as usize;
    let (gaps, styles) = (4, 4);
    // quick: the RAM base varies with the file layout
    let bases = if r.thorough { 3 } else { 1 };
    for x in [32, 64] {
        let name = format!("segments{x}");
        r.space(&name, &[k, k, k, 6, gaps, styles, bases], |c, d| {
            segments(c, x, d)
        });
    }
    r.space("kernel-ramdisk", &[2, 8, 8, 4, 2], extras);
    let nsym = 720;
    r.space("symbols", &[2, nsym, 24, 6, 4, 1], |c, d| {
        if !r.thorough && (d[2] % 5 != 0 || d[4] != 3) && (d[1] % 7 != 0) {
            return Ok(());
        }
        symbols(c, d)
    });
    r.space("many", &[2, 16, 3, 12], many);
    r.space("large", &[2, 7, 6], large);
    let big = 7 + r.thorough as usize;
    r.space("crowd", &[2, big, big, 4, 3], crowd);
    let mut names = near("tohost");
    names.extend(near("fromhost"));
    let mut sections: Vec<&'static str> = vec![];
    for n in near(".symtab").into_iter().chain(near(".strtab")) {
        if n != ".symtab" && n != ".strtab" && n != ".shstrtab" {
            sections.push(Box::leak(n.into_boxed_str()));
        }
    }
    let nd = names.len() + sections.len();
    r.space("decoys", &[2, nd, 3, 2, 4], |c, d| {
        decoys(c, &names, &sections, d)
    });
    r.space("symbol-places", &[2, 6, 24, 6, 4, 3], |c, d| symbols(c, d));
}
