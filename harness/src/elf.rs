//! Minimal ELF writer (independent of carron's own parser).
pub struct Seg {
    pub ptype: u32,
    pub paddr: u64,
    pub vaddr: u64,
    pub data: Vec<u8>,
    pub memsz: u64,
}
/// One section: name, type, data; `None` data stands for the first loadable segment's image.
struct Sect {
    name: &'static str,
    kind: u32,
    flags: u64,
    data: Option<Vec<u8>>,
}
pub struct Elf {
    pub xlen: u32,
    pub entry: u64,
    pub segs: Vec<Seg>,
    pub syms: Vec<(String, u64)>,
    /// extra bytes before the first segment image
    pub pad: usize,
    pub phoff_last: bool,
    /// order of .text, .symtab, .strtab, .shstrtab
    pub order: [usize; 4],
    /// 0: all sections, 1: no symbol table, 2: no section headers
    pub strip: usize,
    /// the section header table comes before the section contents
    pub shoff_first: bool,
    /// sections to put before and after the usual ones
    pub front: Vec<(&'static str, u32, Vec<u8>)>,
    pub back: Vec<(&'static str, u32, Vec<u8>)>,
    /// file offset of segments without file data
    pub empty_off: Option<u64>,
}
impl Elf {
    pub fn new(xlen: u32) -> Elf {
        Elf {
            xlen,
            entry: 0x8000_0000,
            segs: vec![],
            syms: vec![],
            pad: 0,
            phoff_last: false,
            order: [0, 1, 2, 3],
            strip: 0,
            shoff_first: false,
            front: vec![],
            back: vec![],
            empty_off: None,
        }
    }
    pub fn seg(mut self, paddr: u64, data: Vec<u8>, memsz: u64) -> Elf {
        self.segs.push(Seg {
            ptype: 1,
            paddr,
            vaddr: paddr,
            data,
            memsz,
        });
        self
    }
    pub fn sym(mut self, name: &str, v: u64) -> Elf {
        self.syms.push((name.to_string(), v));
        self
    }
    pub fn build(&self) -> Vec<u8> {
        let w = self.xlen == 64;
        let (ehsz, phsz, shsz, symsz) = if w {
            (64usize, 56usize, 64usize, 24usize)
        } else {
            (52, 32, 40, 16)
        };
        let mut out = vec![0u8; ehsz];
        let phtab_len = phsz * self.segs.len();
        let mut phoff = ehsz;
        if !self.phoff_last {
            out.resize(ehsz + phtab_len, 0);
        }
        out.resize(out.len() + self.pad, 0xee);
        let mut offs = vec![];
        for s in &self.segs {
            while out.len() % 16 != 0 {
                out.push(0xee);
            }
            offs.push(out.len());
            out.extend_from_slice(&s.data);
        }
        // symbol + string tables
        let mut strtab = vec![0u8];
        let mut symtab = vec![0u8; symsz];
        for (n, v) in &self.syms {
            let name = strtab.len() as u32;
            strtab.extend_from_slice(n.as_bytes());
            strtab.push(0);
            symtab.extend_from_slice(&name.to_le_bytes());
            if w {
                symtab.extend_from_slice(&[0x10, 0, 0xf1, 0xff]);
                symtab.extend_from_slice(&v.to_le_bytes());
                symtab.extend_from_slice(&8u64.to_le_bytes());
            } else {
                symtab.extend_from_slice(&(*v as u32).to_le_bytes());
                symtab.extend_from_slice(&8u32.to_le_bytes());
                symtab.extend_from_slice(&[0x10, 0, 0xf1, 0xff]);
            }
        }
        let text = self.segs.iter().position(|s| s.ptype == 1);
        let mut sects = vec![];
        let extra = |l: &Vec<(&'static str, u32, Vec<u8>)>| -> Vec<Sect> {
            l.iter()
                .map(|(name, kind, d)| Sect {
                    name,
                    kind: *kind,
                    flags: 0,
                    data: Some(d.clone()),
                })
                .collect()
        };
        sects.extend(extra(&self.front));
        for k in self.order {
            let (name, kind, flags, data) = match k {
                0 => (".text", 1, 6, None),
                1 => (".symtab", 2, 0, Some(symtab.clone())),
                2 => (".strtab", 3, 0, Some(strtab.clone())),
                _ => (".shstrtab", 3, 0, Some(vec![])),
            };
            if self.strip == 0 || k == 0 || k == 3 {
                sects.push(Sect {
                    name,
                    kind,
                    flags,
                    data,
                });
            }
        }
        sects.extend(extra(&self.back));
        if self.strip >= 2 {
            sects.clear();
        }
        let mut shstr = vec![0u8];
        let mut names = vec![];
        for s in &sects {
            names.push(shstr.len() as u64);
            shstr.extend_from_slice(s.name.as_bytes());
            shstr.push(0);
        }
        for s in &mut sects {
            if s.name == ".shstrtab" {
                s.data = Some(shstr.clone());
            }
        }
        let index = |n: &str| {
            sects
                .iter()
                .position(|s| s.name == n)
                .map_or(0, |k| k as u64 + 1)
        };
        let align = |o: &mut Vec<u8>| {
            while o.len() % 8 != 0 {
                o.push(0)
            }
        };
        align(&mut out);
        let mut shoff = out.len();
        let shtab = (sects.len() + 1) * shsz;
        if self.shoff_first && self.strip < 2 {
            out.resize(shoff + shtab, 0);
        }
        // no section, one row
        let mut rows: Vec<[u64; 10]> = vec![[0; 10]];
        for (s, name) in sects.iter().zip(&names) {
            let (addr, off, len) = match &s.data {
                Some(d) => {
                    align(&mut out);
                    let off = out.len();
                    out.extend_from_slice(d);
                    (0, off as u64, d.len() as u64)
                }
                None => match text {
                    Some(i) => (
                        self.segs[i].vaddr,
                        offs[i] as u64,
                        self.segs[i].data.len() as u64,
                    ),
                    None => (0, 0, 0),
                },
            };
            let (link, info, ent) = match s.name {
                ".symtab" => (index(".strtab"), 1, symsz as u64),
                _ => (0, 0, 0),
            };
            rows.push([
                *name,
                s.kind as u64,
                s.flags,
                addr,
                off,
                len,
                link,
                info,
                4,
                ent,
            ]);
        }
        align(&mut out);
        if self.phoff_last {
            phoff = out.len();
            out.resize(phoff + phtab_len, 0);
        }
        align(&mut out);
        if !self.shoff_first {
            shoff = out.len();
        }
        let mut tab = vec![];
        for r in &rows {
            if w {
                tab.extend_from_slice(&(r[0] as u32).to_le_bytes());
                tab.extend_from_slice(&(r[1] as u32).to_le_bytes());
                for v in &r[2..6] {
                    tab.extend_from_slice(&v.to_le_bytes());
                }
                tab.extend_from_slice(&(r[6] as u32).to_le_bytes());
                tab.extend_from_slice(&(r[7] as u32).to_le_bytes());
                tab.extend_from_slice(&r[8].to_le_bytes());
                tab.extend_from_slice(&r[9].to_le_bytes());
            } else {
                for v in r {
                    tab.extend_from_slice(&(*v as u32).to_le_bytes());
                }
            }
        }
        if self.strip == 2 {
            rows.clear();
            shoff = 0;
        } else {
            if out.len() < shoff + shtab {
                out.resize(shoff + shtab, 0);
            }
            out[shoff..shoff + shtab].copy_from_slice(&tab);
        }
        // program headers
        for (i, s) in self.segs.iter().enumerate() {
            let at = phoff + i * phsz;
            let fsz = s.data.len() as u64;
            let off = match self.empty_off {
                Some(o) if fsz == 0 => o,
                _ => offs[i] as u64,
            };
            let mut b = vec![];
            b.extend_from_slice(&s.ptype.to_le_bytes());
            if w {
                b.extend_from_slice(&7u32.to_le_bytes());
                for v in [off, s.vaddr, s.paddr, fsz, s.memsz, 16] {
                    b.extend_from_slice(&v.to_le_bytes());
                }
            } else {
                for v in [off, s.vaddr, s.paddr, fsz, s.memsz, 7, 16] {
                    b.extend_from_slice(&(v as u32).to_le_bytes());
                }
            }
            out[at..at + phsz].copy_from_slice(&b);
        }
        // header
        let mut h = vec![0x7f, b'E', b'L', b'F', if w { 2 } else { 1 }, 1, 1, 0];
        h.extend_from_slice(&[0; 8]);
        h.extend_from_slice(&2u16.to_le_bytes());
        h.extend_from_slice(&0xf3u16.to_le_bytes());
        h.extend_from_slice(&1u32.to_le_bytes());
        let addr = |h: &mut Vec<u8>, v: u64| {
            if w {
                h.extend_from_slice(&v.to_le_bytes())
            } else {
                h.extend_from_slice(&(v as u32).to_le_bytes())
            }
        };
        addr(&mut h, self.entry);
        addr(&mut h, phoff as u64);
        addr(&mut h, shoff as u64);
        h.extend_from_slice(&1u32.to_le_bytes()); // flags: RVC
        let shstrndx = if self.strip >= 2 {
            0
        } else {
            index(".shstrtab") as usize
        };
        for v in [ehsz, phsz, self.segs.len(), shsz, rows.len(), shstrndx] {
            h.extend_from_slice(&(v as u16).to_le_bytes());
        }
        out[..ehsz].copy_from_slice(&h);
        out
    }
}
