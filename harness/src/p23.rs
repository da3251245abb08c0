//! P23: the inspection options (-e -p -s -d -a) describe the image and run nothing.
//! Every case is one run of the real command line program on an image built here; its whole
//! standard output is parsed and compared with a description made from the image.
use crate::drv::*;
use crate::e2e;
use crate::model::{expand, sext};
use std::collections::VecDeque;

// ---------------------------------------------------------------- disassembler
#[derive(Clone, Copy, PartialEq, Debug)]
enum Fm {
    U,
    J,
    I,
    Sh,
    ShW,
    S,
    B,
    R,
    Bare,
    Csr,
    Sf,
    Amo,
    Lr,
}
struct Op {
    name: &'static str,
    mask: u32,
    bits: u32,
    fm: Fm,
    only64: bool,
}
const NAMES: [&str; 32] = [
    "zero", "ra", "sp", "gp", "tp", "t0", "t1", "t2", "s0", "s1", "a0", "a1", "a2", "a3", "a4",
    "a5", "a6", "a7", "s2", "s3", "s4", "s5", "s6", "s7", "s8", "s9", "s10", "s11", "t3", "t4",
    "t5", "t6",
];

/// The 32-bit instructions of RV32IMA / RV64IMA, Zicsr and the privileged ISA.
fn table() -> Vec<Op> {
    let mut t = vec![];
    let mut add = |name, mask, bits, fm, only64| {
        t.push(Op {
            name,
            mask,
            bits,
            fm,
            only64,
        })
    };
    add("lui", 0x7f, 0x37, Fm::U, false);
    add("auipc", 0x7f, 0x17, Fm::U, false);
    add("jal", 0x7f, 0x6f, Fm::J, false);
    add("jalr", 0x707f, 0x67, Fm::I, false);
    for (n, f3) in [
        ("beq", 0),
        ("bne", 1),
        ("blt", 4),
        ("bge", 5),
        ("bltu", 6),
        ("bgeu", 7),
    ] {
        add(n, 0x707f, f3 << 12 | 0x63, Fm::B, false);
    }
    for (n, f3, w) in [
        ("lb", 0, false),
        ("lh", 1, false),
        ("lw", 2, false),
        ("ld", 3, true),
        ("lbu", 4, false),
        ("lhu", 5, false),
        ("lwu", 6, true),
    ] {
        add(n, 0x707f, f3 << 12 | 0x03, Fm::I, w);
    }
    for (n, f3, w) in [
        ("sb", 0, false),
        ("sh", 1, false),
        ("sw", 2, false),
        ("sd", 3, true),
    ] {
        add(n, 0x707f, f3 << 12 | 0x23, Fm::S, w);
    }
    for (n, f3) in [
        ("addi", 0),
        ("slti", 2),
        ("sltiu", 3),
        ("xori", 4),
        ("ori", 6),
        ("andi", 7),
    ] {
        add(n, 0x707f, f3 << 12 | 0x13, Fm::I, false);
    }
    for (n, f3, hi) in [("slli", 1, 0), ("srli", 5, 0), ("srai", 5, 0x4000_0000)] {
        add(n, 0, f3 << 12 | hi | 0x13, Fm::Sh, false);
    }
    for (n, f3, hi) in [("slliw", 1, 0), ("srliw", 5, 0), ("sraiw", 5, 0x4000_0000)] {
        add(n, 0xfe00_707f, f3 << 12 | hi | 0x1b, Fm::ShW, true);
    }
    add("addiw", 0x707f, 0x1b, Fm::I, true);
    for (n, f3, f7) in [
        ("add", 0, 0),
        ("sub", 0, 0x20),
        ("sll", 1, 0),
        ("slt", 2, 0),
        ("sltu", 3, 0),
        ("xor", 4, 0),
        ("srl", 5, 0),
        ("sra", 5, 0x20),
        ("or", 6, 0),
        ("and", 7, 0),
        ("mul", 0, 1),
        ("mulh", 1, 1),
        ("mulhsu", 2, 1),
        ("mulhu", 3, 1),
        ("div", 4, 1),
        ("divu", 5, 1),
        ("rem", 6, 1),
        ("remu", 7, 1),
    ] {
        add(n, 0xfe00_707f, f7 << 25 | f3 << 12 | 0x33, Fm::R, false);
    }
    for (n, f3, f7) in [
        ("addw", 0, 0),
        ("subw", 0, 0x20),
        ("sllw", 1, 0),
        ("srlw", 5, 0),
        ("sraw", 5, 0x20),
        ("mulw", 0, 1),
        ("divw", 4, 1),
        ("divuw", 5, 1),
        ("remw", 6, 1),
        ("remuw", 7, 1),
    ] {
        add(n, 0xfe00_707f, f7 << 25 | f3 << 12 | 0x3b, Fm::R, true);
    }
    add("fence", 0x707f, 0x0f, Fm::Bare, false);
    add("fence.i", 0x707f, 0x100f, Fm::Bare, false);
    for (n, w) in [
        ("ecall", 0x0000_0073),
        ("ebreak", 0x0010_0073),
        ("sret", 0x1020_0073),
        ("mret", 0x3020_0073),
        ("wfi", 0x1050_0073),
    ] {
        add(n, !0, w, Fm::Bare, false);
    }
    add("sfence.vma", 0xfe00_7fff, 0x1200_0073, Fm::Sf, false);
    for (n, f3) in [
        ("csrrw", 1),
        ("csrrs", 2),
        ("csrrc", 3),
        ("csrrwi", 5),
        ("csrrsi", 6),
        ("csrrci", 7),
    ] {
        add(n, 0x707f, f3 << 12 | 0x73, Fm::Csr, false);
    }
    for (w, d, f5) in [
        ("lr.w", "lr.d", 2),
        ("sc.w", "sc.d", 3),
        ("amoswap.w", "amoswap.d", 1),
        ("amoadd.w", "amoadd.d", 0),
        ("amoxor.w", "amoxor.d", 4),
        ("amoand.w", "amoand.d", 12),
        ("amoor.w", "amoor.d", 8),
        ("amomin.w", "amomin.d", 16),
        ("amomax.w", "amomax.d", 20),
        ("amominu.w", "amominu.d", 24),
        ("amomaxu.w", "amomaxu.d", 28),
    ] {
        let (m, fm) = if f5 == 2 {
            (0xf9f0_707f, Fm::Lr)
        } else {
            (0xf800_707f, Fm::Amo)
        };
        add(w, m, f5 << 27 | 2 << 12 | 0x2f, fm, false);
        add(d, m, f5 << 27 | 3 << 12 | 0x2f, fm, true);
    }
    t
}

/// What a column of the listing may hold.
#[derive(Clone, Copy, PartialEq, Debug)]
enum Col {
    Blank,
    Is(i64),
    /// a field the encoding has but the instruction does not use
    May(i64),
}
#[derive(Clone, Debug)]
struct Line {
    raw: u32,
    names: Vec<String>,
    /// rd, rs1, rs2 (or CSR), immediate
    cols: [Col; 4],
}

fn dis32(tab: &[Op], w: u32, xlen: u32) -> Line {
    use Col::*;
    let f = |hi: u32, lo: u32| ((w >> lo) & ((1u64 << (hi - lo + 1)) - 1) as u32) as i64;
    let sx = |v: i64, n: u32| sext(v as u64, n) as i64;
    let mut l = Line {
        raw: w,
        names: vec![],
        cols: [Blank; 4],
    };
    let Some(op) = tab.iter().find(|o| {
        let mask = match o.fm {
            Fm::Sh if xlen == 32 => 0xfe00_707f,
            Fm::Sh => 0xfc00_707f,
            _ => o.mask,
        };
        w & mask == o.bits && (xlen == 64 || !o.only64)
    }) else {
        return l;
    };
    l.names.push(op.name.to_string());
    if op.name == "fence.i" {
        l.names.push("fence".to_string());
    }
    let (rd, rs1, rs2) = (Is(f(11, 7)), Is(f(19, 15)), Is(f(24, 20)));
    l.cols = match op.fm {
        Fm::U => [rd, Blank, Blank, Is((w & 0xffff_f000) as i32 as i64)],
        Fm::J => {
            let i = f(31, 31) << 20 | f(19, 12) << 12 | f(20, 20) << 11 | f(30, 21) << 1;
            [rd, Blank, Blank, Is(sx(i, 21))]
        }
        Fm::I => [rd, rs1, Blank, Is(sx(f(31, 20), 12))],
        Fm::Sh if xlen == 64 => [rd, rs1, Blank, Is(f(25, 20))],
        Fm::Sh | Fm::ShW => [rd, rs1, Blank, Is(f(24, 20))],
        Fm::S => [Blank, rs1, rs2, Is(sx(f(31, 25) << 5 | f(11, 7), 12))],
        Fm::B => {
            let i = f(31, 31) << 12 | f(7, 7) << 11 | f(30, 25) << 5 | f(11, 8) << 1;
            [Blank, rs1, rs2, Is(sx(i, 13))]
        }
        Fm::R => [rd, rs1, rs2, Blank],
        Fm::Bare => [Blank; 4],
        Fm::Csr => [rd, rs1, Is(f(31, 20)), Blank],
        Fm::Sf => [Blank, rs1, rs2, Blank],
        Fm::Amo => [rd, rs1, rs2, May(f(26, 25))],
        Fm::Lr => [rd, rs1, Blank, May(f(26, 25))],
    };
    l
}

fn dis16(h: u16, xlen: u32) -> Line {
    use Col::*;
    let mut l = Line {
        raw: h as u32,
        names: vec![],
        cols: [Blank; 4],
    };
    let Some(e) = expand(h, xlen) else {
        return l;
    };
    let w = h as u32;
    let f = |hi: u32, lo: u32| ((w >> lo) & ((1 << (hi - lo + 1)) - 1)) as i64;
    // the immediate as the equivalent 32-bit instruction holds it
    let imm = |k: char| -> i64 {
        let g = |hi: u32, lo: u32| ((e >> lo) & ((1u64 << (hi - lo + 1)) - 1) as u32) as u64;
        (match k {
            'i' => sext(g(31, 20), 12),
            's' => sext(g(31, 25) << 5 | g(11, 7), 12),
            'b' => sext(
                g(31, 31) << 12 | g(7, 7) << 11 | g(30, 25) << 5 | g(11, 8) << 1,
                13,
            ),
            'j' => sext(
                g(31, 31) << 20 | g(19, 12) << 12 | g(20, 20) << 11 | g(30, 21) << 1,
                21,
            ),
            'u' => (e & 0xffff_f000) as i32 as i64 as u64,
            _ => g(25, 20),
        }) as i64
    };
    let wide = f(11, 7);
    let (p1, p2) = (f(9, 7) + 8, f(4, 2) + 8);
    let r2 = f(6, 2);
    let rv64 = xlen == 64;
    let mut n: Vec<&str> = vec![];
    l.cols = match (w & 3, f(15, 13)) {
        (0, 0) => {
            n.push("addi4spn");
            [Is(p2), May(2), Blank, Is(imm('i'))]
        }
        (0, q @ (2 | 3)) => {
            n.push(if q == 2 { "lw" } else { "ld" });
            [Is(p2), Is(p1), Blank, Is(imm('i'))]
        }
        (0, q) => {
            n.push(if q == 6 { "sw" } else { "sd" });
            [Blank, Is(p1), Is(p2), Is(imm('s'))]
        }
        (1, 0) => {
            if wide == 0 {
                n.push("nop");
                [May(0), May(0), Blank, May(imm('i'))]
            } else {
                n.push("addi");
                [Is(wide), Is(wide), Blank, Is(imm('i'))]
            }
        }
        (1, 1) if rv64 => {
            n.push("addiw");
            [Is(wide), Is(wide), Blank, Is(imm('i'))]
        }
        (1, 1) => {
            n.push("jal");
            [May(1), Blank, Blank, Is(imm('j'))]
        }
        (1, 2) => {
            n.push("li");
            [Is(wide), May(0), Blank, Is(imm('i'))]
        }
        (1, 3) if wide == 2 => {
            n.push("addi16sp");
            [May(2), May(2), Blank, Is(imm('i'))]
        }
        (1, 3) => {
            n.push("lui");
            [Is(wide), Blank, Blank, Is(imm('u'))]
        }
        (1, 4) => match f(11, 10) {
            0 | 1 => {
                n.push(if f(11, 10) == 0 { "srli" } else { "srai" });
                [Is(p1), Is(p1), Blank, Is(imm('h'))]
            }
            2 => {
                n.push("andi");
                [Is(p1), Is(p1), Blank, Is(imm('i'))]
            }
            _ => {
                n.push(
                    [["sub", "xor", "or", "and"], ["subw", "addw", "", ""]][f(12, 12) as usize]
                        [f(6, 5) as usize],
                );
                [Is(p1), Is(p1), Is(p2), Blank]
            }
        },
        (1, 5) => {
            n.push("j");
            [May(0), Blank, Blank, Is(imm('j'))]
        }
        (1, q) => {
            n.push(if q == 6 { "beqz" } else { "bnez" });
            [Blank, Is(p1), May(0), Is(imm('b'))]
        }
        (2, 0) => {
            n.push("slli");
            [Is(wide), Is(wide), Blank, Is(imm('h'))]
        }
        (2, q @ (2 | 3)) => {
            n.push(if q == 2 { "lwsp" } else { "ldsp" });
            [Is(wide), May(2), Blank, Is(imm('i'))]
        }
        (2, 4) => match (f(12, 12), wide, r2) {
            (0, _, 0) => {
                n.push("jr");
                [May(wide), Is(wide), Blank, Blank]
            }
            (0, _, _) => {
                n.push("mv");
                [Is(wide), May(0), Is(r2), Blank]
            }
            (_, 0, 0) => {
                n.push("ebreak");
                [May(0), Blank, Blank, Blank]
            }
            (_, _, 0) => {
                n.push("jalr");
                [May(wide), Is(wide), Blank, Blank]
            }
            _ => {
                n.push("add");
                [Is(wide), Is(wide), Is(r2), Blank]
            }
        },
        (_, q) => {
            n.push(if q == 6 { "swsp" } else { "sdsp" });
            [Blank, May(2), Is(r2), Is(imm('s'))]
        }
    };
    for k in n {
        l.names.push(format!("C.{k}"));
    }
    l
}

/// The lines a section's contents must produce; the last may be an incomplete instruction.
fn listing(tab: &[Op], data: &[u8], xlen: u32) -> (Vec<Line>, usize) {
    let mut v = vec![];
    let mut k = 0;
    while k + 2 <= data.len() {
        let h = u16::from_le_bytes([data[k], data[k + 1]]);
        if h & 3 != 3 {
            v.push(dis16(h, xlen));
            k += 2;
        } else if k + 4 <= data.len() {
            let w = u32::from_le_bytes(data[k..k + 4].try_into().unwrap());
            v.push(dis32(tab, w, xlen));
            k += 4;
        } else {
            break;
        }
    }
    (v, data.len() - k)
}

fn check_line(known: &[String], text: &str, l: &Line, xlen: u32) -> CaseResult {
    let fail = |why: String| {
        bad(
            format!(
                "listing-{}",
                l.names.first().map(|s| s.as_str()).unwrap_or("undefined")
            ),
            format!("RV{xlen} {:#x} listed as {text:?}: {why}", l.raw),
        )
    };
    let mut it = text.splitn(2, char::is_whitespace);
    let enc = it.next().unwrap_or("");
    if u32::from_str_radix(enc, 16) != Ok(l.raw) {
        return fail(format!("expected encoding {:#x}", l.raw));
    }
    let rest = it.next().unwrap_or("");
    if l.names.is_empty() {
        let first = rest.split([' ', '\t', ',']).find(|s| !s.is_empty());
        if first.is_some_and(|f| known.iter().any(|n| n.eq_ignore_ascii_case(f))) {
            return fail("not an instruction of this machine".into());
        }
        return Ok(());
    }
    let mut parts = rest.split(',');
    let head: Vec<&str> = parts.next().unwrap_or("").split_whitespace().collect();
    let Some(name) = head.first() else {
        return fail("no mnemonic".into());
    };
    if !l.names.iter().any(|n| n == name) {
        return fail(format!("expected {:?}", l.names));
    }
    // the destination is a register name, the other operands are numbers
    let mut got = vec![String::new(), String::new()];
    for t in &head[1..] {
        let k = t.starts_with(|c: char| c == '-' || c.is_ascii_digit()) as usize;
        if !got[k].is_empty() {
            return fail("too many operands".into());
        }
        got[k] = t.to_string();
    }
    got.extend(parts.map(|p| p.trim().to_string()));
    for k in 0..4 {
        let g = got.get(k).map(|s| s.as_str()).unwrap_or("");
        let ok = |v: i64| {
            if k == 0 {
                g == NAMES[v as usize]
            } else {
                g.parse() == Ok(v)
            }
        };
        let good = match l.cols[k] {
            Col::Blank => g.is_empty(),
            Col::Is(v) => ok(v),
            Col::May(v) => g.is_empty() || ok(v),
        };
        if !good {
            return fail(format!(
                "{} is {g:?}, expected {:?}",
                ["rd", "rs1", "rs2", "immediate"][k],
                l.cols[k]
            ));
        }
    }
    Ok(())
}

// ---------------------------------------------------------------- images
#[derive(Clone)]
struct Ph {
    ptype: u32,
    flags: u32,
    vaddr: u64,
    paddr: u64,
    data: Vec<u8>,
    memsz: u64,
    align: u64,
}
#[derive(Clone)]
struct Sh {
    name: String,
    stype: u32,
    flags: u64,
    addr: u64,
    data: Vec<u8>,
    /// size in the header when it is not the size of the data
    size: Option<u64>,
    link: u32,
    info: u32,
    align: u64,
    entsize: u64,
}
#[derive(Clone)]
struct Img {
    xlen: u32,
    ident: [u8; 16],
    etype: u16,
    machine: u16,
    version: u32,
    entry: u64,
    flags: u32,
    ehsize: u16,
    ph: Vec<Ph>,
    sh: Vec<Sh>,
    /// position of the section name table among the sections
    names_at: usize,
    pstride: u16,
    sstride: u16,
    /// the header tables come after the contents
    tables_last: bool,
    /// file offsets, filled in by `build`
    poff: Vec<u64>,
    soff: Vec<u64>,
    phoff: u64,
    shoff: u64,
}
impl Ph {
    fn new(data: Vec<u8>) -> Ph {
        Ph {
            ptype: 1,
            flags: 5,
            vaddr: 0x8000_0000,
            paddr: 0x8000_0000,
            memsz: data.len() as u64,
            data,
            align: 4,
        }
    }
}
impl Sh {
    fn new(name: &str, flags: u64, data: Vec<u8>) -> Sh {
        Sh {
            name: name.to_string(),
            stype: 1,
            flags,
            addr: 0x8000_0000,
            data,
            size: None,
            link: 0,
            info: 0,
            align: 4,
            entsize: 0,
        }
    }
    fn size(&self) -> u64 {
        self.size.unwrap_or(self.data.len() as u64)
    }
}
impl Img {
    fn new(xlen: u32) -> Img {
        let w = xlen == 64;
        let mut ident = [0u8; 16];
        ident[..7].copy_from_slice(&[0x7f, b'E', b'L', b'F', 1 + w as u8, 1, 1]);
        Img {
            xlen,
            ident,
            etype: 2,
            machine: 243,
            version: 1,
            entry: 0x8000_0000,
            flags: 5,
            ehsize: if w { 64 } else { 52 },
            ph: vec![],
            sh: vec![],
            names_at: 0,
            pstride: if w { 56 } else { 32 },
            sstride: if w { 64 } else { 40 },
            tables_last: false,
            poff: vec![],
            soff: vec![],
            phoff: 0,
            shoff: 0,
        }
    }
    fn build(&mut self) -> Vec<u8> {
        let w = self.xlen == 64;
        // the name table is a section like the others
        if !self.sh.is_empty() {
            let at = self.names_at.min(self.sh.len());
            self.names_at = at;
            let mut t = Sh::new(".shstrtab", 0, vec![]);
            t.stype = 3;
            self.sh.insert(at, t);
            let mut names = vec![0u8];
            for s in &self.sh {
                names.extend_from_slice(s.name.as_bytes());
                names.push(0);
            }
            self.sh[at].data = names;
        } else {
            self.names_at = 0;
        }
        let eh = if w { 64u64 } else { 52 };
        let ptab = self.pstride as u64 * self.ph.len() as u64;
        let stab = self.sstride as u64 * self.sh.len() as u64;
        let mut at = eh;
        if !self.tables_last {
            at += ptab + stab;
        }
        let mut body = vec![];
        self.poff.clear();
        self.soff.clear();
        for p in &self.ph {
            self.poff.push(at + body.len() as u64);
            body.extend_from_slice(&p.data);
        }
        // section data last, the final section ending the file
        for s in &self.sh {
            self.soff.push(at + body.len() as u64);
            body.extend_from_slice(&s.data);
        }
        let tables = if self.tables_last {
            at + body.len() as u64
        } else {
            eh
        };
        self.phoff = if self.ph.is_empty() { 0 } else { tables };
        self.shoff = if self.sh.is_empty() { 0 } else { tables + ptab };
        let mut o: Vec<u8> = vec![];
        let word = |o: &mut Vec<u8>, v: u64| {
            if w {
                o.extend_from_slice(&v.to_le_bytes())
            } else {
                o.extend_from_slice(&(v as u32).to_le_bytes())
            }
        };
        o.extend_from_slice(&self.ident);
        o.extend_from_slice(&self.etype.to_le_bytes());
        o.extend_from_slice(&self.machine.to_le_bytes());
        o.extend_from_slice(&self.version.to_le_bytes());
        word(&mut o, self.entry);
        word(&mut o, self.phoff);
        word(&mut o, self.shoff);
        o.extend_from_slice(&self.flags.to_le_bytes());
        for v in [
            self.ehsize,
            self.pstride,
            self.ph.len() as u16,
            self.sstride,
            self.sh.len() as u16,
            self.names_at as u16,
        ] {
            o.extend_from_slice(&v.to_le_bytes());
        }
        let mut tabs = vec![];
        for (k, p) in self.ph.iter().enumerate() {
            let e = tabs.len() + self.pstride as usize;
            tabs.extend_from_slice(&p.ptype.to_le_bytes());
            if w {
                tabs.extend_from_slice(&p.flags.to_le_bytes());
            }
            for v in [self.poff[k], p.vaddr, p.paddr, p.data.len() as u64, p.memsz] {
                word(&mut tabs, v);
            }
            if !w {
                tabs.extend_from_slice(&p.flags.to_le_bytes());
            }
            word(&mut tabs, p.align);
            tabs.resize(e, 0xdd);
        }
        let mut nm = 1u32;
        for (k, s) in self.sh.iter().enumerate() {
            let e = tabs.len() + self.sstride as usize;
            tabs.extend_from_slice(&nm.to_le_bytes());
            nm += s.name.len() as u32 + 1;
            tabs.extend_from_slice(&s.stype.to_le_bytes());
            for v in [s.flags, s.addr, self.soff[k], s.size()] {
                word(&mut tabs, v);
            }
            tabs.extend_from_slice(&s.link.to_le_bytes());
            tabs.extend_from_slice(&s.info.to_le_bytes());
            word(&mut tabs, s.align);
            word(&mut tabs, s.entsize);
            tabs.resize(e, 0xdd);
        }
        if self.tables_last {
            o.extend_from_slice(&body);
            o.extend_from_slice(&tabs);
        } else {
            o.extend_from_slice(&tabs);
            o.extend_from_slice(&body);
        }
        o
    }
}

// ---------------------------------------------------------------- expected output
enum Val {
    Num(u64),
    Text(Vec<String>),
}
fn one(s: &str) -> Val {
    Val::Text(vec![s.to_string()])
}
fn named(list: &[(u64, &str, bool)], v: u64) -> Val {
    match list.iter().find(|e| e.0 == v) {
        Some((_, n, true)) => one(n),
        Some((_, n, false)) => Val::Text(vec![n.to_string(), "unknown type".into()]),
        None => one("unknown type"),
    }
}
fn eh_fields(i: &Img) -> Vec<(&'static str, Val)> {
    let magic: Vec<String> = i.ident.iter().map(|b| format!("{b:02x}")).collect();
    vec![
        ("magic", one(&magic.join(" "))),
        ("class", Val::Num(i.ident[4] as u64)),
        ("endian", Val::Num(i.ident[5] as u64)),
        ("version", Val::Num(i.ident[6] as u64)),
        ("os_abi", Val::Num(i.ident[7] as u64)),
        ("os_abi_ver", Val::Num(i.ident[8] as u64)),
        (
            "e_type",
            named(
                &[
                    (0, "ET_NONE", true),
                    (1, "ET_REL", true),
                    (2, "ET_EXEC", true),
                    (3, "ET_DYN", true),
                    (4, "ET_CORE", true),
                ],
                i.etype as u64,
            ),
        ),
        ("e_machine", Val::Num(i.machine as u64)),
        ("e_version", Val::Num(i.version as u64)),
        ("e_entry", Val::Num(i.entry)),
        ("e_phoff", Val::Num(i.phoff)),
        ("e_shoff", Val::Num(i.shoff)),
        ("e_flags", Val::Num(i.flags as u64)),
        ("e_ehsize", Val::Num(i.ehsize as u64)),
        ("e_phentsize", Val::Num(i.pstride as u64)),
        ("e_phnum", Val::Num(i.ph.len() as u64)),
        ("e_shentsize", Val::Num(i.sstride as u64)),
        ("e_shnum", Val::Num(i.sh.len() as u64)),
        ("e_shstrndx", Val::Num(i.names_at as u64)),
    ]
}
fn ph_fields(i: &Img, k: usize) -> Vec<(&'static str, Val)> {
    let p = &i.ph[k];
    let t = named(
        &[
            (0, "PT_NULL", true),
            (1, "PT_LOAD", true),
            (2, "PT_DYNAMIC", true),
            (3, "PT_INTERP", true),
            (4, "PT_NOTE", true),
            (5, "PT_SHLIB", true),
            (6, "PT_PHDR", true),
            (7, "PT_TLS", false),
            (0x7000_0000, "PT_LOPROC", false),
            (0x7fff_ffff, "PT_HIPROC", false),
        ],
        p.ptype as u64,
    );
    vec![
        ("p_type", t),
        ("p_offset", Val::Num(i.poff[k])),
        ("p_vaddr", Val::Num(p.vaddr)),
        ("p_paddr", Val::Num(p.paddr)),
        ("p_filesz", Val::Num(p.data.len() as u64)),
        ("p_memsz", Val::Num(p.memsz)),
        ("p_flags", Val::Num(p.flags as u64)),
        ("p_align", Val::Num(p.align)),
    ]
}
fn sh_fields(i: &Img, k: usize) -> Vec<(&'static str, Val)> {
    let s = &i.sh[k];
    let t = named(
        &[
            (0, "SHT_NULL", true),
            (1, "SHT_PROGBITS", true),
            (2, "SHT_SYMTAB", true),
            (3, "SHT_STRTAB", true),
            (4, "SHT_RELA", true),
            (5, "SHT_HASH", true),
            (6, "SHT_DYNAMIC", true),
            (7, "SHT_NOTE", true),
            (8, "SHT_NOBITS", true),
            (9, "SHT_REL", true),
            (10, "SHT_SHLIB", true),
            (11, "SHT_DYNSYM", true),
            (14, "SHT_INIT_ARRAY", false),
            (15, "SHT_FINI_ARRAY", false),
            (16, "SHT_PREINIT_ARRAY", false),
            (17, "SHT_GROUP", false),
            (18, "SHT_SYMTAB_SHNDX", false),
            (0x7000_0000, "SHT_LOPROC", false),
            (0x7fff_ffff, "SHT_HIPROC", false),
            (0x8000_0000, "SHT_LOUSER", false),
            (0xffff_ffff, "SHT_HIUSER", false),
        ],
        s.stype as u64,
    );
    vec![
        ("sh_name", one(&s.name)),
        ("sh_type", t),
        ("sh_flags", Val::Num(s.flags)),
        ("sh_addr", Val::Num(s.addr)),
        ("sh_offset", Val::Num(i.soff[k])),
        ("sh_size", Val::Num(s.size())),
        ("sh_link", Val::Num(s.link as u64)),
        ("sh_info", Val::Num(s.info as u64)),
        ("sh_addralign", Val::Num(s.align)),
        ("sh_entsize", Val::Num(s.entsize)),
    ]
}

struct Text<'a> {
    lines: VecDeque<&'a str>,
}
impl<'a> Text<'a> {
    fn skip_blank(&mut self) {
        while self
            .lines
            .front()
            .is_some_and(|l| l.trim().is_empty() || l.trim().bytes().all(|c| c == b'-'))
        {
            self.lines.pop_front();
        }
    }
    fn next(&mut self) -> &'a str {
        self.skip_blank();
        self.lines.pop_front().unwrap_or("<end of output>")
    }
    /// the next line, unless a new block starts or the output ends
    fn more(&mut self) -> Option<&'a str> {
        self.skip_blank();
        match self.lines.front() {
            Some(l) if !l.starts_with("====") => self.lines.pop_front(),
            _ => None,
        }
    }
    fn block(&mut self, title: &str, fields: Vec<(&'static str, Val)>) -> CaseResult {
        let t = self.next();
        if t.trim_matches('=').trim() != title {
            return bad(
                "missing-block",
                format!("expected the block {title:?}, found {t:?}"),
            );
        }
        for (key, v) in fields {
            let l = self.next();
            let (k, got) = l.split_once(':').unwrap_or((l, ""));
            let got = got.trim();
            let ok = k == key
                && match &v {
                    Val::Text(s) => s.iter().any(|s| s == got),
                    Val::Num(n) => {
                        let tok = got.split_whitespace().next().unwrap_or("");
                        let p = match tok.strip_prefix("0x") {
                            Some(h) => u64::from_str_radix(h, 16),
                            None => tok.parse(),
                        };
                        p == Ok(*n)
                    }
                };
            if !ok {
                let want = match &v {
                    Val::Text(s) => format!("{s:?}"),
                    Val::Num(n) => format!("{n:#x}"),
                };
                return bad(
                    format!("field-{key}"),
                    format!("{title}: expected {key} = {want}, found {l:?}"),
                );
            }
        }
        Ok(())
    }
}

struct World {
    tab: Vec<Op>,
    known: Vec<String>,
}

fn check(c: &mut Ctx, w: &World, img: &mut Img, opt: &str, extra: &[&str]) -> CaseResult {
    let dir = e2e::Dir::new();
    let bytes = img.build();
    dir.put("image", &bytes);
    let mut args = vec![opt, "image"];
    args.extend_from_slice(extra);
    let o = e2e::run(&dir, &args, b"", &[], 60.0);
    c.state(&(&bytes, opt));
    c.trace_done();
    if o.code != Some(0) || o.timed_out {
        return bad(
            "inspection-fails",
            format!("{opt} on a well-formed image: {}", o.show()),
        );
    }
    let out = String::from_utf8_lossy(&o.out).into_owned();
    let r = compare(c, w, img, opt, &out);
    if let Err((k, t)) = r {
        return bad(k, format!("option {opt}: {t}"));
    }
    Ok(())
}

fn compare(c: &mut Ctx, w: &World, img: &Img, opt: &str, out: &str) -> CaseResult {
    let mut t = Text {
        lines: out.lines().collect(),
    };
    // banner
    for want in ["In file image", "elfcheck: OK"] {
        let l = t.next();
        if l.trim() != want {
            return bad("banner", format!("expected {want:?}, found {l:?}"));
        }
    }
    if opt == "-e" || opt == "-a" {
        t.block("elf header", eh_fields(img))?;
        c.step_done();
    }
    if opt == "-p" || opt == "-a" {
        for k in 0..img.ph.len() {
            t.block(&format!("program header {}", k + 1), ph_fields(img, k))?;
            c.step_done();
            if opt == "-a" {
                continue;
            }
            let d = &img.ph[k].data;
            let mut words = vec![];
            while let Some(l) = t.more() {
                words.extend(l.split_whitespace());
            }
            for (j, ch) in d.chunks(4).enumerate() {
                let got = words
                    .get(j)
                    .and_then(|s| u32::from_str_radix(s, 16).ok())
                    .map(|v| v.to_le_bytes());
                if !got.is_some_and(|g| g[..ch.len()] == *ch) {
                    return bad(
                        "segment-words",
                        format!(
                            "segment {k}: word {j} should show the bytes {ch:02x?}, found {:?}",
                            words.get(j)
                        ),
                    );
                }
                c.step_done();
            }
            if words.len() > d.len().div_ceil(4) {
                return bad(
                    "segment-words",
                    format!(
                        "segment {k}: {} words shown for {} bytes in the file",
                        words.len(),
                        d.len()
                    ),
                );
            }
        }
    }
    if opt == "-s" || opt == "-d" || opt == "-a" {
        for k in 0..img.sh.len() {
            let s = &img.sh[k];
            if opt != "-a" && s.flags & 4 == 0 {
                continue;
            }
            t.block(&format!("section header {}", k + 1), sh_fields(img, k))?;
            c.step_done();
            if opt == "-a" {
                continue;
            }
            let data: &[u8] = if s.stype == 8 { &[] } else { &s.data };
            let (lines, tail) = listing(&w.tab, data, img.xlen);
            for l in &lines {
                let g = t.more().unwrap_or("<nothing>");
                check_line(&w.known, g, l, img.xlen)?;
                c.step_done();
            }
            // an incomplete instruction at the end may be shown in any way
            while let Some(l) = t.more() {
                if tail == 0 || l.len() > 80 {
                    return bad(
                        "listing-extra",
                        format!("section {k}: extra line {l:?} after {} lines", lines.len()),
                    );
                }
            }
        }
    }
    t.skip_blank();
    if let Some(l) = t.lines.front() {
        return bad("extra-output", format!("unexpected output {l:?}"));
    }
    Ok(())
}

fn code_image(xlen: u32, data: Vec<u8>) -> Img {
    let mut i = Img::new(xlen);
    i.ph.push(Ph::new(vec![]));
    i.sh.push(Sh::new(".text", 6, data));
    i
}

/// A program that shows it ran: it writes to the UART and stops with status 7.
fn runner(xlen: u32) -> Vec<u8> {
    let mut v = vec![];
    for w in [
        0x1000_02b7u32, // lui t0, 0x10000
        0x0520_0313,    // li t1, 'R'
        0x0062_8023,    // sb t1, 0(t0)
        0x05d0_0893,    // li a7, 93
        0x0070_0513,    // li a0, 7
        0x0000_006f,    // j .
    ] {
        v.extend_from_slice(&w.to_le_bytes());
    }
    let _ = xlen;
    v
}

pub fn run(r: &Report) {
    let tab = table();
    let mut known: Vec<String> = tab.iter().map(|o| o.name.to_string()).collect();
    for h in 0..=0xffffu16 {
        if h & 3 != 3 {
            for n in dis16(h, 64).names.into_iter().chain(dis16(h, 32).names) {
                if !known.contains(&n) {
                    known.push(n);
                }
            }
        }
    }
    let w = World { tab, known };
    r.note("images are well formed: header tables and contents lie inside the file, sections are little endian RISC-V; a final incomplete word or instruction may be shown in any way");
    r.note("the text layout is not part of the property: only the order of blocks and lines, key names, numbers, encodings, mnemonics and operands are compared");
    let th = r.thorough;
    for xlen in [32u32, 64] {
        // every halfword that is not the start of a longer instruction
        r.space(&format!("halfwords{xlen}"), &[16, 2], |c, d| {
            let mut v = vec![];
            for h in 0..=0xffffu32 {
                if h & 3 != 3 && h >> 12 == d[0] as u32 {
                    v.extend_from_slice(&(h as u16).to_le_bytes());
                }
            }
            check(c, &w, &mut code_image(xlen, v), ["-d", "-s"][d[1]], &[])
        });
        // every opcode, funct3, funct7 and rs2 field
        let pairs = [(1u32, 2u32), (0, 0), (31, 30), (10, 0), (0, 17), (2, 31)];
        let np = if th { pairs.len() } else { 3 };
        r.space(&format!("fields{xlen}"), &[32, 8, np], |c, d| {
            let mut v = vec![];
            for hi in 0..4096u32 {
                let (rd, rs1) = pairs[d[2]];
                let w =
                    hi << 20 | rs1 << 15 | (d[1] as u32) << 12 | rd << 7 | (d[0] as u32) << 2 | 3;
                v.extend_from_slice(&w.to_le_bytes());
            }
            check(c, &w, &mut code_image(xlen, v), "-d", &[])
        });
        // every instruction with every register in every field
        let ops: Vec<&Op> = w.tab.iter().filter(|o| xlen == 64 || !o.only64).collect();
        r.space(
            &format!("registers{xlen}"),
            &[ops.len(), if th { 32 } else { 8 }],
            |c, d| {
                let op = ops[d[0]];
                let mut v = vec![];
                for rd in 0..32u32 {
                    for rs1 in 0..32u32 {
                        let b = if th {
                            d[1] as u32
                        } else {
                            (d[1] as u32 * 4 + rd + rs1) % 32
                        };
                        for rs2 in [b] {
                            let x = op.bits | rs2 << 20 | rs1 << 15 | rd << 7;
                            v.extend_from_slice(&x.to_le_bytes());
                        }
                    }
                }
                check(c, &w, &mut code_image(xlen, v), "-d", &[])
            },
        );
        // branch, store and upper immediates
        let lows = if th { 64 } else { 8 };
        r.space(&format!("uppers{xlen}"), &[3, lows], |c, d| {
            let op = [0x37u32, 0x17, 0x6f][d[0]];
            let mut v = vec![];
            let span = (1u32 << 20) / 64;
            for k in 0..span {
                let imm = if th {
                    d[1] as u32 * span + k
                } else {
                    // all low or all high halves against chosen other halves
                    let other = [0u32, 1, 0x3ff, 0x200][d[1] % 4];
                    match d[1] / 4 {
                        0 => (k & 0x3ff) | other << 10,
                        _ => (k & 0x3ff) << 10 | other,
                    }
                };
                if !th && k >= 1024 {
                    break;
                }
                v.extend_from_slice(&(imm << 12 | 5 << 7 | op).to_le_bytes());
            }
            check(c, &w, &mut code_image(xlen, v), "-d", &[])
        });
        r.space(&format!("stores{xlen}"), &[10], |c, d| {
            let (op, f3) = [
                (0x23u32, 0u32),
                (0x23, 1),
                (0x23, 2),
                (0x23, 3),
                (0x63, 0),
                (0x63, 1),
                (0x63, 4),
                (0x63, 5),
                (0x63, 6),
                (0x63, 7),
            ][d[0]];
            let mut v = vec![];
            for hi in 0..128u32 {
                for lo in 0..32u32 {
                    let x = hi << 25 | 9 << 20 | 20 << 15 | f3 << 12 | lo << 7 | op;
                    v.extend_from_slice(&x.to_le_bytes());
                }
            }
            check(c, &w, &mut code_image(xlen, v), "-d", &[])
        });
    }
    // instruction streams: valid and undefined units of both sizes, and a cut-off end
    let units: [&[u8]; 6] = [
        &[0x01, 0x00],             // c.nop
        &[0x13, 0x05, 0x15, 0x00], // addi a0, a0, 1
        &[0x00, 0x00],             // undefined halfword
        &[0xff, 0xff, 0xff, 0xff], // undefined word
        &[0x02, 0x90],             // c.ebreak
        &[0x73, 0x00, 0x20, 0x30], // mret
    ];
    let depth = if th { 5 } else { 3 };
    for len in 1..=depth {
        let mut dims = vec![2usize, 2, 4];
        dims.extend(std::iter::repeat_n(units.len(), len));
        r.space(&format!("streams-{len}"), &dims, |c, d| {
            let mut v = vec![];
            for &u in &d[3..] {
                v.extend_from_slice(units[u]);
            }
            let n = v.len();
            if d[2] >= n {
                return Ok(());
            }
            v.truncate(n - d[2]);
            let mut i = code_image([32, 64][d[0]], v);
            i.tables_last = d[1] == 1;
            check(c, &w, &mut i, "-d", &[])
        });
    }
    // which sections are listed
    let ns = if th { 4 } else { 3 };
    for n in 0..=ns {
        let kinds = 8;
        let mut dims = vec![2usize, 3, 2];
        dims.extend(std::iter::repeat_n(kinds, n));
        r.space(&format!("sections-{n}"), &dims, |c, d| {
            let mut i = Img::new([32, 64][d[0]]);
            i.tables_last = d[2] == 1;
            i.ph.push(Ph::new(vec![1, 2, 3, 4]));
            for (k, &kind) in d[3..].iter().enumerate() {
                let a = 0x0010_0093u32 + ((k as u32) << 20);
                let mut code = a.to_le_bytes().to_vec();
                code.extend_from_slice(&[0x01, 0x00]);
                let mut s = Sh::new(&format!(".s{k}"), 6, code);
                match kind {
                    0 => {}
                    1 => s.flags = 2,
                    2 => {
                        s.stype = 8;
                        s.data = vec![];
                        s.size = Some(0x40);
                    }
                    3 => s.data = vec![],
                    4 => s.flags = 0xf7,
                    5 => s.flags = 0x7fff_fffb,
                    6 => {
                        s.flags = 4;
                        s.stype = 14;
                        s.name = String::new();
                    }
                    _ => {
                        s.stype = 7;
                        s.flags = 0x20;
                    }
                }
                i.sh.push(s);
            }
            i.names_at = if d[2] == 1 { 0 } else { usize::MAX };
            check(c, &w, &mut i, ["-d", "-s", "-a"][d[1]], &[])
        });
    }
    // segment contents
    let sizes: Vec<usize> = if th {
        (0..=70).collect()
    } else {
        vec![0, 1, 2, 3, 4, 5, 7, 8, 28, 31, 32, 33, 36, 64, 68]
    };
    r.space(
        "segments",
        &[2, 2, sizes.len(), sizes.len(), 4, 2],
        |c, d| {
            let xlen = [32, 64][d[0]];
            let mut i = Img::new(xlen);
            i.tables_last = d[1] == 1;
            for (k, &n) in [sizes[d[2]], sizes[d[3]]].iter().enumerate() {
                let data = (0..n).map(|j| (j * 37 + 11 + k * 91) as u8).collect();
                let mut p = Ph::new(data);
                p.memsz = match d[4] {
                    0 => n as u64,
                    1 => n as u64 + 1,
                    2 => n as u64 + 0x1000,
                    _ => 0xffff_0000,
                };
                if d[5] == 1 {
                    p.ptype = [4, 0][k];
                }
                i.ph.push(p);
            }
            check(c, &w, &mut i, "-p", &[])
        },
    );
    // every header field
    let vals: [u64; 8] = [
        0,
        1,
        2,
        0x80,
        0x8001,
        0xdead_beef,
        0x0123_4567_89ab_cdef,
        u64::MAX,
    ];
    r.space("elf-header", &[2, 2, 13, vals.len()], |c, d| {
        let xlen = [32, 64][d[0]];
        let mut i = code_image(xlen, vec![1, 0]);
        let v = vals[d[3]];
        match d[2] {
            k @ 0..=4 => i.ident[5 + k] = v as u8,
            5 => i.ident[15] = v as u8,
            6 => i.etype = v as u16,
            7 => i.machine = v as u16,
            8 => i.version = v as u32,
            9 => i.entry = if xlen == 64 { v } else { v as u32 as u64 },
            10 => i.flags = v as u32,
            11 => i.ehsize = v as u16,
            _ => i.etype = d[3] as u16,
        }
        check(c, &w, &mut i, ["-e", "-a"][d[1]], &[])
    });
    r.space("program-header", &[2, 2, 3, 6, 24], |c, d| {
        let xlen = [32, 64][d[0]];
        let mut i = code_image(xlen, vec![1, 0]);
        i.ph = (0..3).map(|k| Ph::new(vec![k as u8; 4])).collect();
        let v = if d[4] < vals.len() {
            vals[d[4]]
        } else {
            [
                3u64,
                4,
                5,
                6,
                7,
                8,
                9,
                10,
                0x10,
                0xff,
                0x100,
                0x7000_0000,
                0x7000_0003,
                0x7fff_ffff,
                0x8000_0000,
                0x6474_e551,
            ][d[4] - vals.len()]
        };
        let x = if xlen == 64 { v } else { v as u32 as u64 };
        let p = &mut i.ph[d[2]];
        match d[3] {
            0 => p.ptype = v as u32,
            1 => p.flags = v as u32,
            2 => p.vaddr = x,
            3 => p.paddr = x,
            4 => p.memsz = x,
            _ => p.align = x,
        }
        check(c, &w, &mut i, ["-p", "-a"][d[1]], &[])
    });
    r.space("section-header", &[2, 2, 3, 7, 28], |c, d| {
        let xlen = [32, 64][d[0]];
        let mut i = Img::new(xlen);
        i.sh = (0..3)
            .map(|k| Sh::new([".text", ".rodata", ".init"][k], 6, vec![1, 0]))
            .collect();
        i.names_at = 1;
        let v = if d[4] < vals.len() {
            vals[d[4]]
        } else {
            [
                3u64,
                4,
                5,
                6,
                7,
                8,
                9,
                10,
                11,
                12,
                13,
                14,
                15,
                16,
                17,
                18,
                19,
                0x7000_0000,
                0x7000_0003,
                0x8000_0000,
            ][d[4] - vals.len()]
        };
        let x = if xlen == 64 { v } else { v as u32 as u64 };
        let s = &mut i.sh[d[2]];
        match d[3] {
            0 => s.stype = v as u32,
            1 => s.flags = x,
            2 => s.addr = x,
            3 => s.link = v as u32,
            4 => s.info = v as u32,
            5 => s.align = x,
            _ => s.entsize = x,
        }
        check(c, &w, &mut i, ["-d", "-a"][d[1]], &[])
    });
    // numbers and sizes of table entries, position of the name table, names
    r.space("tables", &[2, 5, 5, 5, 3, 3, 2], |c, d| {
        let xlen = [32, 64][d[0]];
        let mut i = Img::new(xlen);
        i.ph = (0..d[1])
            .map(|k| Ph::new(vec![k as u8 + 1; 4 * (k % 2)]))
            .collect();
        i.sh = (0..d[2])
            .map(|k| {
                let n = [".text", "", ".a.long.section.name.with.dots", "x"][k];
                Sh::new(n, if k % 2 == 0 { 6 } else { 2 }, vec![1, 0])
            })
            .collect();
        i.names_at = d[3];
        if d[3] > d[2] {
            return Ok(());
        }
        i.pstride += [0, 8, 40][d[4]];
        i.sstride += [0, 8, 40][d[5]];
        i.tables_last = d[6] == 1;
        check(c, &w, &mut i, "-a", &[])?;
        check(c, &w, &mut i.again(), "-e", &[])
    });
    // nothing of the image runs, whatever the option and the other arguments
    r.space("no-run", &[2, 10, 4], |c, d| {
        let xlen = [32, 64][d[0]];
        let code = runner(xlen);
        let mut i = Img::new(xlen);
        i.ph.push(Ph::new(code.clone()));
        i.sh.push(Sh::new(".text", 6, code));
        let opts = [
            ("-e", "-e"),
            ("-p", "-p"),
            ("-s", "-s"),
            ("-d", "-d"),
            ("-a", "-a"),
            ("--elfhead", "-e"),
            ("--program", "-p"),
            ("--section", "-s"),
            ("--disasem", "-d"),
            ("--all", "-a"),
        ];
        let (o, short) = opts[d[1]];
        let extra: &[&str] = [
            &[][..],
            &["--pc=0x80000000"],
            &["--loglv=trace"],
            &["one", "two"],
        ][d[2]];
        let dir = e2e::Dir::new();
        dir.put("image", &i.build());
        let mut args = vec![o, "image"];
        args.extend_from_slice(extra);
        let out = e2e::run(&dir, &args, b"", &[], 20.0);
        c.trace_done();
        c.state(&(d[0], d[1], d[2], 99));
        if out.code != Some(0) {
            return bad("inspection-fails", format!("{args:?}: {}", out.show()));
        }
        let text = String::from_utf8_lossy(&out.out).into_owned();
        compare(c, &w, &i, short, &text)
    });
    // what is not an ELF image is refused
    r.space("not-elf", &[2, 6, 4, 4], |c, d| {
        let xlen = [32, 64][d[0]];
        let opt = ["-e", "-p", "-s", "-d", "-a", ""][d[1]];
        let mut i = code_image(xlen, runner(xlen));
        i.ident[d[2]] = [0, 0xff, i.ident[d[2]] ^ 1, i.ident[d[2]] ^ 0x80][d[3]];
        let dir = e2e::Dir::new();
        dir.put("image", &i.build());
        let mut args = vec!["image"];
        if !opt.is_empty() {
            args.insert(0, opt);
        }
        let out = e2e::run(&dir, &args, b"", &[], 20.0);
        c.trace_done();
        c.state(&(d[0], d[1], d[2], d[3], 98));
        let text = String::from_utf8_lossy(&out.out);
        if out.code == Some(0) || out.timed_out || text.contains("====") || text.contains("OK") {
            return bad(
                "not-elf-accepted",
                format!("{args:?} with a wrong magic number: {}", out.show()),
            );
        }
        Ok(())
    });
}

impl Img {
    /// The same image before its section name table was added.
    fn again(&self) -> Img {
        let mut i = self.clone();
        if !i.sh.is_empty() {
            i.sh.remove(i.names_at);
        }
        i
    }
}
