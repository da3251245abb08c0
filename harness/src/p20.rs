//! P20: boot ROM and device tree. Every configuration of a bounded family is booted on the real
//! machine; the blob it is given is parsed by an independent reader and each statement in it is
//! compared with what the machine does.
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::elf::Elf;
use crate::imp::{args_for, guard, loader_for, scratch_path};
use carron::cpu::Cpu;
use carron::Isa;
use std::collections::BTreeMap;

const RAM: u64 = 1 << 31;

#[derive(Debug, Default)]
struct Node {
    name: String,
    props: BTreeMap<String, Vec<u8>>,
    kids: Vec<Node>,
}
type R<T> = Result<T, String>;

impl Node {
    fn kid(&self, name: &str) -> R<&Node> {
        self.kids
            .iter()
            .find(|k| k.name == name)
            .ok_or(format!("no node {name:?} in {:?}", self.name))
    }
    fn raw(&self, p: &str) -> R<&[u8]> {
        self.props
            .get(p)
            .map(|v| v.as_slice())
            .ok_or(format!("node {:?} has no property {p:?}", self.name))
    }
    fn cells(&self, p: &str) -> R<Vec<u64>> {
        let v = self.raw(p)?;
        if v.len() % 4 != 0 {
            return Err(format!(
                "{}/{p}: {} bytes are not whole cells",
                self.name,
                v.len()
            ));
        }
        Ok(v.chunks(4)
            .map(|c| u32::from_be_bytes(c.try_into().unwrap()) as u64)
            .collect())
    }
    fn cell(&self, p: &str) -> R<u64> {
        match self.cells(p)?[..] {
            [v] => Ok(v),
            _ => Err(format!("{}/{p} is not one cell", self.name)),
        }
    }
    /// a number of one or two cells
    fn num(&self, p: &str) -> R<u64> {
        match self.cells(p)?[..] {
            [v] => Ok(v),
            [h, l] => Ok(h << 32 | l),
            _ => Err(format!(
                "{}/{p} is not a number of one or two cells",
                self.name
            )),
        }
    }
    fn strs(&self, p: &str) -> R<Vec<String>> {
        let v = self.raw(p)?;
        if v.last() != Some(&0) {
            return Err(format!("{}/{p}: string without terminator", self.name));
        }
        let mut out = vec![];
        for s in v[..v.len() - 1].split(|&c| c == 0) {
            if s.is_empty() || !s.iter().all(|c| (0x20..0x7f).contains(c)) {
                return Err(format!("{}/{p}: bad string {s:?}", self.name));
            }
            out.push(String::from_utf8(s.to_vec()).unwrap());
        }
        Ok(out)
    }
    fn is(&self, p: &str, want: &str) -> R<()> {
        let s = self.strs(p)?;
        if !s.iter().any(|x| x == want) {
            return Err(format!("{}/{p}: want {want:?}, found {s:?}", self.name));
        }
        Ok(())
    }
    fn walk<'a>(&'a self, path: &str, f: &mut dyn FnMut(&str, &'a Node) -> R<()>) -> R<()> {
        f(path, self)?;
        for k in &self.kids {
            k.walk(
                &format!("{}/{}", if path == "/" { "" } else { path }, k.name),
                f,
            )?;
        }
        Ok(())
    }
    fn at<'a>(&'a self, path: &str) -> Option<&'a Node> {
        path.split('/')
            .filter(|s| !s.is_empty())
            .try_fold(self, |n, s| n.kid(s).ok())
    }
}

/// Structural check of a flattened device tree (version 17).
fn parse(b: &[u8]) -> R<Node> {
    let w = |o: usize| -> R<usize> {
        b.get(o..o + 4)
            .map(|c| u32::from_be_bytes(c.try_into().unwrap()) as usize)
            .ok_or(format!("read behind the blob at {o:#x}"))
    };
    let (total, st, ss, rs) = (w(4)?, w(8)?, w(12)?, w(16)?);
    let (version, compat, hart, nss, nst) = (w(20)?, w(24)?, w(28)?, w(32)?, w(36)?);
    if w(0)? != 0xd00d_feed || total != b.len() {
        return Err("bad magic or size".into());
    }
    if version != 17 || compat != 16 {
        return Err(format!("version {version}, compatible {compat}"));
    }
    if hart != 0 {
        return Err(format!("boot_cpuid_phys is {hart}"));
    }
    if st % 4 != 0 || nst % 4 != 0 || rs % 8 != 0 {
        return Err("blocks are not aligned".into());
    }
    // header, reservations, structure, strings: in bounds and disjoint
    let mut ends = 0;
    let mut n = rs;
    while w(n)? | w(n + 4)? | w(n + 8)? | w(n + 12)? != 0 {
        n += 16;
        ends += 1;
    }
    if ends != 0 {
        return Err("there are memory reservations".into());
    }
    let mut blocks = [
        (0usize, 40usize),
        (rs, n + 16),
        (st, st + nst),
        (ss, ss + nss),
    ];
    blocks.sort();
    for p in blocks.windows(2) {
        if p[0].1 > p[1].0 {
            return Err(format!("blocks overlap: {blocks:x?}"));
        }
    }
    if blocks[3].1 > total {
        return Err("a block runs behind the blob".into());
    }
    if nss > 0 && b[ss + nss - 1] != 0 {
        return Err("strings block does not end with a terminator".into());
    }
    let text = |from: usize, end: usize| -> R<String> {
        let s = &b[from..end];
        let n = s
            .iter()
            .position(|&c| c == 0)
            .ok_or("string without terminator".to_string())?;
        String::from_utf8(s[..n].to_vec()).map_err(|_| "string is not text".to_string())
    };
    let mut stack: Vec<Node> = vec![];
    let mut root = None;
    let mut p = st;
    let end = st + nst;
    loop {
        if p + 4 > end {
            return Err("structure block ends without an end token".into());
        }
        let tok = w(p)?;
        p += 4;
        match tok {
            1 => {
                let name = text(p, end)?;
                let pad = (name.len() + 1).div_ceil(4) * 4;
                if b[p + name.len()..p + pad].iter().any(|&c| c != 0) {
                    return Err(format!("padding of node name {name:?} is not zero"));
                }
                p += pad;
                if root.is_some() {
                    return Err("second root node".into());
                }
                if stack.is_empty() != name.is_empty() {
                    return Err(format!("node name {name:?} at depth {}", stack.len()));
                }
                let plain = |c: char| c.is_ascii_alphanumeric() || ",._+-".contains(c);
                if !name.chars().all(|c| plain(c) || c == '@') || name.matches('@').count() > 1 {
                    return Err(format!("bad node name {name:?}"));
                }
                stack.push(Node {
                    name,
                    ..Default::default()
                });
            }
            2 => {
                let n = stack.pop().ok_or("node end without node".to_string())?;
                match stack.last_mut() {
                    Some(up) => {
                        if up.kids.iter().any(|k| k.name == n.name) {
                            return Err(format!("two nodes {:?}", n.name));
                        }
                        up.kids.push(n)
                    }
                    None => root = Some(n),
                }
            }
            3 => {
                let (len, name) = (w(p)?, w(p + 4)?);
                p += 8;
                if name >= nss {
                    return Err(format!(
                        "property name offset {name:#x} is outside the strings"
                    ));
                }
                let name = text(ss + name, ss + nss)?;
                let pad = len.div_ceil(4) * 4;
                if p + pad > end {
                    return Err(format!("property {name:?} runs behind the structure block"));
                }
                if name.is_empty()
                    || name.len() > 31
                    || !name
                        .chars()
                        .all(|c| c.is_ascii_alphanumeric() || ",._+?#-".contains(c))
                {
                    return Err(format!("bad property name {name:?}"));
                }
                if b[p + len..p + pad].iter().any(|&c| c != 0) {
                    return Err(format!("padding of property {name:?} is not zero"));
                }
                let n = stack
                    .last_mut()
                    .ok_or(format!("property {name:?} outside any node"))?;
                if !n.kids.is_empty() {
                    return Err(format!(
                        "property {name:?} of {:?} follows a child node",
                        n.name
                    ));
                }
                if n.props
                    .insert(name.clone(), b[p..p + len].to_vec())
                    .is_some()
                {
                    return Err(format!("property {name:?} of {:?} appears twice", n.name));
                }
                p += pad;
            }
            4 => {}
            9 => break,
            t => return Err(format!("unknown token {t:#x} at {:#x}", p - 4)),
        }
    }
    if p != end {
        return Err("the structure block goes on after its end token".into());
    }
    if !stack.is_empty() {
        return Err("a node is not closed".into());
    }
    root.ok_or("no root node".into())
}

/// (address, size) of the only `reg` entry, with the cell sizes of the parent
fn reg(up: &Node, n: &Node) -> R<(u64, u64)> {
    let (ac, sc) = (
        up.cell("#address-cells")? as usize,
        up.cell("#size-cells")? as usize,
    );
    let c = n.cells("reg")?;
    if c.len() != ac + sc || ac > 2 || sc > 2 {
        return Err(format!(
            "{}/reg: {} cells with {ac}+{sc} cells per entry",
            n.name,
            c.len()
        ));
    }
    let cat = |v: &[u64]| v.iter().fold(0, |a, x| a << 32 | x);
    Ok((cat(&c[..ac]), cat(&c[ac..])))
}

struct Cfg {
    xlen: u32,
    base: u64,
    initrd: Option<(u64, u64)>,
}

/// A line from an interrupt controller to the hart: (cpu interrupt, how it is raised)
fn mip(cpu: &mut Cpu) -> u64 {
    cpu.verif_csr(0x344)
}

/// Compare every statement of the tree with the machine.
fn machine(t: &Node, cpu: &mut Cpu, c: &Cfg) -> R<()> {
    let hart = cpu.verif_csr(0xf14);
    // generic rules
    let mut phandles: BTreeMap<u64, String> = BTreeMap::new();
    t.walk("/", &mut |path, n| {
        if n.props.contains_key("phandle") {
            let h = n.cell("phandle")?;
            if h == 0 || h == 0xffff_ffff || phandles.insert(h, path.to_string()).is_some() {
                return Err(format!(
                    "phandle {h:#x} of {path} is reserved or used twice"
                ));
            }
        }
        for k in &n.kids {
            let unit = k.name.split_once('@').map(|x| x.1);
            match (unit, k.props.contains_key("reg")) {
                (Some(u), true) => {
                    let a = reg(n, k)?.0;
                    if u64::from_str_radix(u, 16) != Ok(a) || u != format!("{a:x}") {
                        return Err(format!("{path}/{}: unit address is not reg {a:#x}", k.name));
                    }
                }
                (None, false) => {}
                _ => {
                    return Err(format!(
                        "{path}/{}: unit address without reg, or reg without",
                        k.name
                    ))
                }
            }
        }
        for p in ["compatible", "model", "status", "device_type", "bootargs"] {
            if n.props.contains_key(p) {
                n.strs(p)?;
            }
        }
        Ok(())
    })?;
    let target = |h: u64| -> R<&Node> {
        let p = phandles
            .get(&h)
            .ok_or(format!("no node has phandle {h:#x}"))?;
        Ok(t.at(p).unwrap())
    };

    // memory
    let mems: Vec<&Node> = t
        .kids
        .iter()
        .filter(|k| k.name.starts_with("memory@"))
        .collect();
    let [mem] = mems[..] else {
        return Err(format!("{} memory nodes", mems.len()));
    };
    mem.is("device_type", "memory")?;
    let m = reg(t, mem)?;
    if m != (c.base, RAM) {
        return Err(format!(
            "memory node says {m:x?}, RAM is {:x?}",
            (c.base, RAM)
        ));
    }
    // devices may take only some access widths
    let probe = |cpu: &mut Cpu, a: u64| {
        let b = &mut cpu.bus;
        guard(|| b.load_u8(a).is_ok()).unwrap_or(false)
            || guard(|| b.load32(a & !3).is_ok()).unwrap_or(false)
            || guard(|| b.load64(a & !7).is_ok()).unwrap_or(false)
    };
    for a in [m.0, m.0 + m.1 - 1, m.0 + m.1 / 2] {
        if !probe(cpu, a) {
            return Err(format!("no RAM at {a:#x}"));
        }
    }
    for a in [m.0 - 1, m.0 + m.1] {
        if probe(cpu, a) {
            return Err(format!("RAM at {a:#x}, outside the memory node"));
        }
    }

    // the hart
    let cpus = t.kid("cpus")?;
    let list: Vec<&Node> = cpus
        .kids
        .iter()
        .filter(|k| k.name.starts_with("cpu@"))
        .collect();
    let [cpu0] = list[..] else {
        return Err(format!("{} cpu nodes", list.len()));
    };
    if reg(cpus, cpu0)? != (hart, 0) {
        return Err("the cpu node is not for this hart".into());
    }
    cpu0.is("device_type", "cpu")?;
    cpu0.is("compatible", "riscv")?;
    cpu0.is("status", "okay")?;
    let misa = cpu.verif_csr(0x301);
    let mut isa = format!("rv{}", c.xlen);
    for l in "imafdqc".chars() {
        if misa >> (l as u32 - 'a' as u32) & 1 == 1 {
            isa.push(l);
        }
    }
    if misa >> 8 & 1 == 0 || misa >> (c.xlen - 2) & 3 != c.xlen as u64 / 32 {
        return Err(format!("misa is {misa:#x}"));
    }
    cpu0.is("riscv,isa", &isa)?;
    cpu0.is(
        "mmu-type",
        if c.xlen == 32 {
            "riscv,sv32"
        } else {
            "riscv,sv39"
        },
    )?;
    let mode = if c.xlen == 32 { 1u64 << 31 } else { 8 << 60 };
    cpu.verif_set_csr(0x180, mode);
    if cpu.verif_csr(0x180) != mode {
        return Err("satp does not take the mode of mmu-type".into());
    }
    cpu.verif_set_csr(0x180, 0);
    let regions = cpu0.cell("riscv,pmpregions")?;
    let gran = cpu0.cell("riscv,pmpgranularity")?;
    for k in 0..regions {
        let r = 0x3b0 + k as usize;
        cpu.verif_set_csr(r, 0x1234_5671 + k);
        let v = cpu.verif_csr(r);
        if v != 0x1234_5671 + k {
            return Err(format!("pmpaddr{k} holds {v:#x}"));
        }
        cpu.verif_set_csr(r, 0);
    }
    if regions != 16 || gran != 4 {
        return Err(format!(
            "{regions} PMP regions with {gran}-byte granularity"
        ));
    }
    // 50 units of time pass in 5000 instructions
    let (tb, clk) = (
        cpus.cell("timebase-frequency")?,
        cpu0.cell("clock-frequency")?,
    );
    if tb == 0 || clk != 100 * tb {
        return Err(format!(
            "clock {clk} Hz is not 100 times the timebase {tb} Hz"
        ));
    }
    let ctl = |n: &Node| -> R<()> {
        if !n.raw("interrupt-controller")?.is_empty() || n.cell("#interrupt-cells")? != 1 {
            return Err(format!(
                "{}: not an interrupt controller with one cell",
                n.name
            ));
        }
        Ok(())
    };
    let intc = cpu0.kid("interrupt-controller")?;
    intc.is("compatible", "riscv,cpu-intc")?;
    ctl(intc)?;
    let lines = |n: &Node| -> R<Vec<u64>> {
        let v = n.cells("interrupts-extended")?;
        if v.len() % 2 != 0 {
            return Err(format!("{}: odd interrupts-extended", n.name));
        }
        v.chunks(2)
            .map(|p| {
                let to = target(p[0])?;
                if !std::ptr::eq(to, intc) {
                    return Err(format!("{}: interrupt goes to {:?}", n.name, to.name));
                }
                Ok(p[1])
            })
            .collect()
    };

    // devices
    let soc = t.kid("soc")?;
    soc.is("compatible", "simple-bus")?;
    if !soc.raw("ranges")?.is_empty() {
        return Err("soc/ranges is not the identity".into());
    }
    let find = |what: &str| -> R<&Node> {
        let l: Vec<&Node> = soc
            .kids
            .iter()
            .filter(|k| {
                k.strs("compatible")
                    .is_ok_and(|s| s.iter().any(|x| x == what))
            })
            .collect();
        match l[..] {
            [n] => Ok(n),
            _ => Err(format!("{} nodes compatible with {what}", l.len())),
        }
    };
    if soc.kids.len() != 3 {
        return Err(format!("{} devices on the bus", soc.kids.len()));
    }
    let ext = |cpu: &mut Cpu, (a, n): (u64, u64), what: &str| -> R<()> {
        if n == 0 {
            return Err(format!("{what}: empty reg"));
        }
        // reserved PLIC registers need not answer
        let last = if what == "plic" {
            a + 0x20_1004
        } else {
            a + n - 1
        };
        for x in [a + 4, last] {
            if !probe(cpu, x) {
                return Err(format!("{what}: nothing at {x:#x} although reg covers it"));
            }
        }
        for x in [a - 1, a + n] {
            if probe(cpu, x) {
                return Err(format!("{what}: something at {x:#x}, just outside reg"));
            }
        }
        Ok(())
    };

    let clint = find("riscv,clint0")?;
    let (cl, n) = reg(soc, clint)?;
    ext(cpu, (cl, n), "clint")?;
    if lines(clint)? != [3, 7] {
        return Err("clint lines are not software, timer".into());
    }
    // software interrupt at +0, compare at +0x4000, time at +0xbff8
    let step = |cpu: &mut Cpu| {
        // a jump to itself, so that pending bits are refreshed
        let r = guard(|| cpu.exec_one_cycle().map_err(|e| format!("{:?}", e.1)));
        match r {
            Ok(Ok(())) => Ok(()),
            Ok(Err(m)) | Err(m) => Err(format!("executing at the image: {m}")),
        }
    };
    let spin = c.base + 64;
    for (k, bit) in [(0u64, 3u32), (1, 7)] {
        cpu.verif_set_pc(spin);
        for on in [0u64, 1, 0] {
            let b = &mut cpu.bus;
            b.store32(cl, if k == 0 { on } else { 0 })
                .map_err(|_| "clint store")?;
            b.store64(cl + 0xbff8, 5).map_err(|_| "clint store")?;
            let cmp = if k == 1 && on == 1 { 5 } else { u64::MAX };
            b.store64(cl + 0x4000, cmp).map_err(|_| "clint store")?;
            step(cpu)?;
            let m = mip(cpu) & 0x88;
            if m != on << bit {
                return Err(format!("clint line {k} at level {on}: mip is {m:#x}"));
            }
        }
    }

    let plic = find("riscv,plic0")?;
    let (pl, n) = reg(soc, plic)?;
    ext(cpu, (pl, n), "plic")?;
    ctl(plic)?;
    if lines(plic)? != [11, 9] {
        return Err("plic lines are not machine external, supervisor external".into());
    }
    let (ndev, maxp) = (plic.cell("riscv,ndev")?, plic.cell("riscv,max-priority")?);
    if ndev != 31 || maxp < 1 {
        return Err(format!(
            "{ndev} interrupt sources with priorities up to {maxp}"
        ));
    }
    for s in 1..=ndev {
        let a = pl + 4 * s;
        cpu.bus.store32(a, maxp).map_err(|_| "plic store")?;
        let v = cpu.bus.load32(a).map_err(|_| "plic load")?;
        if v != maxp {
            return Err(format!("priority of source {s} does not hold {maxp}"));
        }
        cpu.bus.store32(a, 0).map_err(|_| "plic store")?;
    }

    let uart = find("ns16550a")?;
    let (ua, n) = reg(soc, uart)?;
    ext(cpu, (ua, n), "uart")?;
    let shift = uart.cell("reg-shift")?;
    if uart.cell("reg-io-width")? != 1 || shift != 0 {
        return Err("uart registers are not adjacent bytes".into());
    }
    if !std::ptr::eq(target(uart.num("interrupt-parent")?)?, plic) {
        return Err("the uart's interrupt parent is not the plic".into());
    }
    let irq = uart.cell("interrupts")?;
    // let the transmitter interrupt through each context
    for (ctx, bit) in [(0u64, 11u32), (1, 9)] {
        let e = |_| "uart or plic access".to_string();
        cpu.verif_set_pc(spin);
        cpu.bus.store32(pl + 4 * irq, 1).map_err(e)?;
        cpu.bus
            .store32(pl + 0x2000 + 0x80 * ctx, 1 << irq)
            .map_err(e)?;
        cpu.bus
            .store32(pl + 0x20_0000 + 0x1000 * ctx, 0)
            .map_err(e)?;
        let before = {
            step(cpu)?;
            mip(cpu) & 0xa00
        };
        cpu.bus.store8(ua + 1, 2).map_err(e)?;
        step(cpu)?;
        let after = mip(cpu) & 0xa00;
        let claim = cpu.bus.load32(pl + 0x20_0004 + 0x1000 * ctx).map_err(e)?;
        cpu.bus.store8(ua + 1, 0).map_err(e)?;
        cpu.bus
            .store32(pl + 0x20_0004 + 0x1000 * ctx, claim)
            .map_err(e)?;
        cpu.bus.store32(pl + 0x2000 + 0x80 * ctx, 0).map_err(e)?;
        if before != 0 || after != 1 << bit || claim != irq {
            return Err(format!(
                "uart interrupt {irq} in plic context {ctx}: mip {before:#x} then {after:#x}, claimed {claim}"
            ));
        }
    }

    // chosen
    let chosen = t.kid("chosen")?;
    let path = chosen.strs("stdout-path")?;
    let [p] = &path[..] else {
        return Err("stdout-path is not one path".into());
    };
    let to = t.at(p.split(':').next().unwrap());
    if !p.starts_with('/') || !to.is_some_and(|n| std::ptr::eq(n, uart)) {
        return Err(format!("stdout-path {p:?} is not the serial port"));
    }
    chosen.strs("bootargs")?;
    let rd = if chosen.props.contains_key("linux,initrd-start") {
        (
            chosen.num("linux,initrd-start")?,
            chosen.num("linux,initrd-end")?,
        )
    } else {
        (0, 0)
    };
    match c.initrd {
        Some(r) if rd != r => return Err(format!("ramdisk is at {r:x?}, tree says {rd:x?}")),
        None if rd.0 != rd.1 => return Err(format!("no ramdisk, but the tree says {rd:x?}")),
        _ => {}
    }
    // the host interface exists
    if !t.kids.iter().any(|k| {
        k.strs("compatible")
            .is_ok_and(|s| s.contains(&"ucb,htif0".to_string()))
    }) {
        return Err("no host interface node".into());
    }
    Ok(())
}

fn bases(xlen: u32) -> Vec<u64> {
    let mut v = vec![
        0x8000_0000u64,
        0x1001_0000,
        0x4000_0000,
        0xa000_0000,
        0xc123_4000,
    ];
    for k in 12..31 {
        v.push(0x8000_0000 + (1 << k));
    }
    for k in 29..31 {
        v.push(1 << k);
    }
    v.extend([0x9abc_d000, 0x7fff_f000, 0x8765_4320, 0xdead_b000]);
    if xlen == 64 {
        for k in 32..47 {
            v.push(1 << k);
            v.push((1 << k) + 0x8000_0000);
            v.push((1 << k) - 0x1000);
        }
        v.extend([0x1234_5678_9000, 0xffff_f000, 0xff_ffff_f000]);
    }
    // every address of one or two set bits above the devices
    let top = if xlen == 32 { 32 } else { 47 };
    for j in 29..top {
        for k in 3..=j {
            v.push(1 << j | 1 << k);
        }
    }
    v.sort();
    v.dedup();
    v
}

fn boot(cx: &mut Ctx, xlen: u32, d: &[usize]) -> CaseResult {
    let base = bases(xlen)[d[0]];
    const SIZES: [Option<u64>; 5] = [None, Some(1), Some(4096), Some(70_001), Some(5 << 20)];
    let initrd = SIZES[d[1]];
    let kernel = d[2] == 1;
    let pc = match d[3] {
        0 => None,
        1 => Some(base + 64),
        _ => Some(0x1004),
    };
    // the image starts with a word of its own and holds a self-jump for the device probes
    let mut text = vec![0x6f, 0, 0, 0].repeat(40);
    text[0..4].copy_from_slice(&[0x13, 0, 0, 0]);
    let mut e = Elf::new(xlen);
    // the lowest address is not that of the first program header
    if d[4] == 1 {
        e = e.seg(base + 0x5000, vec![9; 9], 9);
    }
    let image = e.seg(base, text, 160).build();
    let mut args = args_for("x");
    args.init_pc = pc;
    let mut files = vec![];
    let mut file = |n: u64| {
        let p = scratch_path("img");
        std::fs::write(&p, vec![0xa5; n as usize]).expect("scratch image");
        files.push(p.clone());
        p
    };
    let end = base + RAM;
    let top = if base < 1 << 32 {
        end.min(1 << 32)
    } else {
        end
    } - 0x1000;
    if let Some(n) = initrd {
        if top - n < base + 0x6000 {
            return Ok(());
        }
        args.initrd_path = Some(file(n));
    }
    if kernel {
        args.kernel_path = Some(file(1000));
    }
    let built = guard(|| {
        let l = loader_for(&image);
        let isa = l.target_arch();
        assert!(matches!((isa, xlen), (Isa::Rv32, 32) | (Isa::Rv64, 64)));
        Cpu::new(l, &args, isa)
    });
    for f in files {
        let _ = std::fs::remove_file(f);
    }
    let desc = format!(
        "RV{xlen}, image at {base:#x}, ramdisk of {initrd:?} bytes, kernel {kernel}, --pc {pc:x?}"
    );
    cx.step_done();
    cx.state(&(xlen, d));
    let mut cpu = match built {
        Ok(c) => c,
        Err(m) => return bad("boot-abort", format!("{desc}\nstarting panics: {m}")),
    };
    // run to the image
    let mask = if xlen == 32 { 0xffff_ffff } else { u64::MAX };
    let start = cpu.pc() & mask;
    let want = pc.unwrap_or(base);
    let mut steps = 0;
    let mut dt = 0x1020;
    if pc.is_some() {
        if start != want {
            return bad("pc", format!("{desc}\nexecution starts at {start:#x}"));
        }
        if d[3] == 1 {
            for a in 0x1000..0x2000u64 {
                // find the blob
                if cpu
                    .bus
                    .load_u32(a & !3)
                    .is_ok_and(|v| (v as u32).swap_bytes() == 0xd00d_feed)
                {
                    dt = a & !3;
                    break;
                }
            }
        }
    } else {
        while cpu.pc() & mask != base {
            let r = guard(|| cpu.exec_one_cycle().map_err(|e| format!("{:?}", e.1)));
            match r {
                Ok(Ok(())) => {}
                Ok(Err(m)) => {
                    return bad(
                        "boot-trap",
                        format!("{desc}\nthe boot ROM traps at {:#x}: {m}", cpu.pc()),
                    )
                }
                Err(m) => return bad("boot-abort", format!("{desc}\nthe boot ROM panics: {m}")),
            }
            cx.step_done();
            steps += 1;
            if steps > 40 {
                return bad(
                    "boot-lost",
                    format!("{desc}\nthe image is not reached, pc is {:#x}", cpu.pc()),
                );
            }
        }
        let (a0, a1) = (cpu.regs.read(Some(10)), cpu.regs.read(Some(11)));
        if a0 != cpu.verif_csr(0xf14) || a0 != 0 {
            return bad("hart-id", format!("{desc}\na0 is {a0:#x} at the image"));
        }
        dt = a1;
    }
    if cpu.verif_priv() != 3 || cpu.verif_csr(0x300) & 0x2_000a != 0 || cpu.verif_csr(0x180) != 0 {
        return bad(
            "reset",
            format!("{desc}\nnot machine mode with interrupts and translation off"),
        );
    }
    // the blob, as the guest reads it
    let rd = |cpu: &mut Cpu, a: u64| guard(|| cpu.bus.load_u8(a).ok()).ok().flatten();
    let mut blob = vec![];
    let mut n = 8;
    while blob.len() < n {
        match rd(&mut cpu, dt + blob.len() as u64) {
            Some(v) => blob.push(v as u8),
            None => {
                return bad(
                    "blob",
                    format!("{desc}\nthe blob at {dt:#x} cannot be read completely"),
                )
            }
        }
        if blob.len() == 8 {
            n = u32::from_be_bytes(blob[4..8].try_into().unwrap()) as usize;
            if blob[..4] != [0xd0, 0x0d, 0xfe, 0xed]
                || !(40..=0x10_0000).contains(&n)
                || dt % 8 != 0
            {
                return bad(
                    "blob",
                    format!("{desc}\nno device tree at {dt:#x}: {blob:x?}"),
                );
            }
        }
    }
    // other access widths see the same bytes
    for k in 0..blob.len().next_multiple_of(8) / 8 {
        let a = dt + 8 * k as u64;
        let b: Vec<u64> = (0..8)
            .map(|i| rd(&mut cpu, a + i).unwrap_or(0x100))
            .collect();
        let le = |s: &[u64]| s.iter().rev().fold(0u64, |x, y| x << 8 | y);
        let bus = &mut cpu.bus;
        let same = bus.load64(a).is_ok_and(|v| v == le(&b))
            && (0..2).all(|i| {
                bus.load32(a + 4 * i)
                    .is_ok_and(|v| v as u32 as u64 == le(&b[4 * i as usize..][..4]))
            })
            && (0..2).all(|i| {
                bus.load_u32(a + 4 * i)
                    .is_ok_and(|v| v == le(&b[4 * i as usize..][..4]))
            })
            && (0..4).all(|i| {
                bus.load16(a + 2 * i)
                    .is_ok_and(|v| v as u16 as u64 == le(&b[2 * i as usize..][..2]))
            })
            && (0..4).all(|i| {
                bus.load_u16(a + 2 * i)
                    .is_ok_and(|v| v == le(&b[2 * i as usize..][..2]))
            })
            && (0..8).all(|i| {
                bus.load8(a + i)
                    .is_ok_and(|v| v as u8 as u64 == b[i as usize])
            });
        if !same {
            return bad(
                "rom-width",
                format!("{desc}\naccess widths disagree about the ROM at {a:#x}"),
            );
        }
    }
    // it is read-only
    for a in [dt, dt + 8, dt - 8, 0x1000] {
        let before = rd(&mut cpu, a);
        let r = guard(|| {
            let b = &mut cpu.bus;
            (
                b.store8(a, 0).is_err(),
                b.store16(a, 0).is_err(),
                b.store32(a, 0).is_err(),
                b.store64(a, 0).is_err(),
            )
        });
        if !matches!(r, Ok((true, true, true, true))) || rd(&mut cpu, a) != before {
            return bad(
                "rom-write",
                format!("{desc}\nthe boot ROM can be written at {a:#x}: {r:?}"),
            );
        }
    }
    let c = Cfg {
        xlen,
        base,
        initrd: initrd.map(|n| (top - n, top)),
    };
    let tree = match parse(&blob) {
        Ok(t) => t,
        Err(m) => return bad("blob", format!("{desc}\nthe device tree is malformed: {m}")),
    };
    cx.state(&blob);
    if let Err(m) = machine(&tree, &mut cpu, &c) {
        return bad("tree", format!("{desc}\n{m}"));
    }
    cx.trace_done();
    Ok(())
}

pub fn run(r: &Report) {
    r.note(
        "one hart, images whose lowest address lies above the devices; the ramdisk fits into RAM",
    );
    r.note(
        "with --pc the hart starts there instead of in the boot ROM, so a0 and a1 are not given",
    );
    for x in [32, 64] {
        let n = bases(x).len();
        r.space(&format!("boot{x}"), &[n, 5, 2, 3, 2], |c, d| boot(c, x, d));
    }
}
