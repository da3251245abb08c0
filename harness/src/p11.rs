//! P11: Sv32/Sv39 translation.
use crate::asm::*;
use crate::drv::{CaseResult, Ctx, Report};
use crate::lock::{self, Ev, CODE};
use crate::model::*;
use crate::p06::{MT, ST};

const T: [u64; 3] = [0x8002_2000, 0x8002_1000, 0x8002_0000]; // table of each level (0 = last)
const DEEP: u64 = 0x8002_3000;

#[derive(Clone, Copy)]
pub struct Geo {
    pub xlen: u32,
    pub levels: usize,
    pub pte: u64,
    pub vb: u64,
}
pub fn geo(xlen: u32) -> Geo {
    if xlen == 32 {
        Geo {
            xlen,
            levels: 2,
            pte: 4,
            vb: 10,
        }
    } else {
        Geo {
            xlen,
            levels: 3,
            pte: 8,
            vb: 9,
        }
    }
}
impl Geo {
    pub fn slot(&self, level: usize, va: u64) -> u64 {
        T[level] + self.pte * (va >> (12 + self.vb * level as u64) & ((1 << self.vb) - 1))
    }
    pub fn satp(&self) -> u64 {
        let m = if self.xlen == 32 { 1 << 31 } else { 8 << 60 };
        m | T[self.levels - 1] >> 12
    }
    /// pointer entries from the root down to (not including) `leaf`
    pub fn path(&self, ram: &mut Ram, va: u64, leaf: usize) {
        for l in (leaf + 1..self.levels).rev() {
            ram.put(self.slot(l, va), self.pte, T[l - 1] >> 12 << 10 | 1);
        }
    }
    pub fn leaf(&self, ram: &mut Ram, va: u64, level: usize, pa: u64, flags: u64) {
        self.path(ram, va, level);
        ram.put(self.slot(level, va), self.pte, pa >> 12 << 10 | flags);
    }
    /// a mapping for the code at CODE that is always fine for `prv`
    pub fn code(&self, ram: &mut Ram, prv: u8) {
        let top = self.levels - 1;
        ram.put(
            self.slot(top, 0x8000_0000),
            self.pte,
            0x8000_0000u64 >> 12 << 10 | 0xcf | ((prv == U) as u64) << 4,
        );
    }
    pub fn page(&self, level: usize) -> u64 {
        1 << (12 + self.vb * level as u64)
    }
    pub fn target(&self, level: usize) -> u64 {
        if level == 0 {
            0x8003_0000
        } else if level == 1 {
            0x8080_0000
        } else {
            0xc000_0000
        }
    }
}

pub const KINDS: usize = 5;
/// privilege set-ups: U, S, M with MPRV to U, M with MPRV to S, plain M
pub fn who(h: &mut Hart, k: usize) -> u8 {
    match k {
        0 => h.prv = U,
        1 => h.prv = S,
        2 => h.mstatus |= MST_MPRV,
        3 => h.mstatus |= MST_MPRV | 1 << 11,
        _ => {}
    }
    [U, S, U, S, M][k]
}
/// access kinds at `va`; the value loaded or stored is distinctive
pub fn access(h: &mut Hart, ram: &mut Ram, kind: usize, va: u64, pa: Option<u64>) -> u32 {
    h.x[8] = va;
    h.x[9] = 0x4142_4344;
    match kind {
        0 => load(2, 7, 8, 0),
        1 => store(2, 9, 8, 0),
        2 => amo(0, 4, 7, 8, 9),
        3 => amo(2, 4, 7, 8, 0),
        _ => {
            h.pc = va;
            if let Some(p) = pa {
                ram.put(p, 4, addi(5, 5, 1) as u64);
            }
            addi(5, 5, 1)
        }
    }
}
fn start(g: Geo) -> (Hart, Ram) {
    let mut h = Hart::new(g.xlen);
    h.pc = CODE;
    h.mtvec = MT;
    h.stvec = ST;
    h.satp = g.satp();
    (h, Ram::default())
}
fn go(
    ctx: &mut Ctx,
    h: &Hart,
    ram: &mut Ram,
    word: u32,
    kind: usize,
    key: &str,
    watch: u64,
) -> CaseResult {
    if kind != 4 {
        ram.put(CODE, 4, word as u64);
    }
    let w = watch & !7;
    let r = [(w, 16)];
    lock::run(ctx, h, ram, 1, if Ram::ok(w, 16) { &r } else { &[] }, key)
}

pub fn run(rep: &Report) {
    rep.note("reserved PTE bits, A/D/U on pointer entries and W-without-R leaves beyond the fault they require are not enumerated; every change to a table is followed by SFENCE.VMA");
    for xlen in [32u32, 64] {
        let g = geo(xlen);
        let vas: Vec<u64> = if xlen == 32 {
            vec![0x40c0_1000, 0xffc0_0000]
        } else {
            vec![0x15_6765_4000, 0xffff_fff5_6765_4000]
        };
        // every flag byte at every level, every access kind, mode and SUM/MXR
        rep.space(
            &format!("flags{xlen}"),
            &[256, g.levels, KINDS, 5, 4, vas.len(), 2],
            |ctx, d| {
                let (mut h, mut ram) = start(g);
                let (fl, lvl, kind) = (d[0] as u64, d[1], d[2]);
                if lvl > 0 && fl & 0xe == 0 && fl & 0xd0 != 0 {
                    return Ok(());
                }
                let prv = who(&mut h, d[3]);
                h.mstatus |= (d[4] as u64 & 1) * MST_SUM | (d[4] as u64 >> 1) * MST_MXR;
                h.medeleg = d[6] as u64 * 0xb000;
                g.code(&mut ram, prv);
                let off = [0, 0xabc][d[6]];
                let va = vas[d[5]] + off;
                let pa = g.target(lvl) + (va & (g.page(lvl) - 1));
                g.leaf(&mut ram, va, lvl, g.target(lvl), fl | 0x300 * d[6] as u64);
                ram.put(pa, 4, 0x8123_4567);
                let word = access(&mut h, &mut ram, kind, va, Some(pa));
                go(ctx, &h, &mut ram, word, kind, "flags", pa)
            },
        );
        // alignment of superpages and reach of physical page numbers
        let ppnbits = if xlen == 32 { 22 } else { 44 };
        rep.space(
            &format!("ppn{xlen}"),
            &[ppnbits, g.levels, g.levels, KINDS, 2],
            |ctx, d| {
                let (mut h, mut ram) = start(g);
                let (bit, at, leaf) = (d[0], d[1], d[2]);
                if at < leaf {
                    return Ok(());
                }
                let prv = who(&mut h, [1, 3][d[4]]);
                g.code(&mut ram, prv);
                let va = vas[0] + 0x40;
                let pa = g.target(leaf) + (va & (g.page(leaf) - 1));
                g.leaf(&mut ram, va, leaf, g.target(leaf), 0xcf);
                ram.put(pa, 4, 0x8123_4567);
                // flip one page-number bit in the entry at level `at`
                let s = g.slot(at, va);
                let e = ram.get(s, g.pte) ^ 1 << (10 + bit);
                if e >> 10 << 12 < RAM_BASE
                    && e >> 10 << 12 >= 0x1000
                    && (0x1000..0x1100_0000).contains(&(e >> 10 << 12))
                {
                    return Ok(()); // device space as a final target is P17's subject
                }
                ram.put(s, g.pte, e);
                // what the flipped entry leads to is present as well
                if at == leaf {
                    let q = ((e >> 10) << 12) + (va & (g.page(leaf) - 1));
                    if Ram::ok(q, 8)
                        && q & !0xfff != s & !0xfff
                        && (e >> 10) << 12 & (g.page(leaf) - 1) == 0
                    {
                        ram.put(q, 4, 0x0badcafe);
                    }
                } else {
                    let q = ((e >> 10) << 12) + (g.slot(at - 1, va) & 0xfff);
                    if Ram::ok(q, 8) {
                        ram.put(q, g.pte, 0x9000_0000u64 >> 12 << 10 | 0xcf);
                    }
                }
                let word = access(&mut h, &mut ram, d[3], va, Some(pa));
                go(ctx, &h, &mut ram, word, d[3], "ppn", pa)
            },
        );
        // reach of the root: every one or two bits of the page number in satp flipped
        rep.space(
            &format!("root{xlen}"),
            &[ppnbits + 1, ppnbits + 1, KINDS, 2],
            |ctx, d| {
                let (mut h, mut ram) = start(g);
                if d[0] < d[1] {
                    return Ok(());
                }
                let prv = who(&mut h, [1, 3][d[3]]);
                for k in [d[0], d[1]] {
                    if k < ppnbits {
                        h.satp ^= 1 << k;
                    }
                }
                g.code(&mut ram, prv);
                let va = vas[0] + 0x40;
                let pa = g.target(0) + (va & 0xfff);
                g.leaf(&mut ram, va, 0, g.target(0), 0xcf);
                ram.put(pa, 4, 0x8123_4567);
                // where the flipped root leads, a different but complete mapping
                let top = g.levels - 1;
                let root = (h.satp & ((1 << ppnbits) - 1)) << 12;
                let slot = |v: u64| root + (g.slot(top, v) & 0xfff);
                if root != T[top] && Ram::ok(slot(va), 8) && Ram::ok(slot(CODE), 8) {
                    for v in [va, CODE] {
                        let at = g.slot(top, v) & 0xfff;
                        let e = if v == CODE {
                            ram.get(T[top] + at, g.pte)
                        } else {
                            0x9000_0000u64 >> 12 << 10 | 0xcf
                        };
                        ram.put(root + at, g.pte, e);
                    }
                }
                let word = access(&mut h, &mut ram, d[2], va, Some(pa));
                go(ctx, &h, &mut ram, word, d[2], "root", pa)
            },
        );
        // every virtual-address bit: canonical form, index selection, page offset
        rep.space(
            &format!("va-bits{xlen}"),
            &[
                xlen as usize + 1,
                xlen as usize + 1,
                g.levels,
                KINDS,
                vas.len(),
                2,
            ],
            |ctx, d| {
                let (mut h, mut ram) = start(g);
                let prv = who(&mut h, d[5]);
                g.code(&mut ram, prv);
                let leaf = d[2];
                let mut va = vas[d[4]];
                for k in [d[0], d[1]] {
                    if k < xlen as usize {
                        va ^= 1 << k;
                    }
                }
                va &= !3;
                let fl = 0xcf | ((prv == U) as u64) << 4;
                let base = vas[d[4]];
                g.leaf(&mut ram, base, leaf, g.target(leaf), fl);
                // a different page one index further at every level, so a wrong index shows
                for l in leaf..g.levels {
                    let s = g.slot(l, base ^ 1 << (12 + g.vb * l as u64));
                    if ram.get(s, g.pte) == 0 {
                        ram.put(
                            s,
                            g.pte,
                            g.target(l).wrapping_add(if l == 0 { 0x1000 } else { 0 }) >> 12 << 10
                                | fl,
                        );
                    }
                }
                let mut probe = ram.clone();
                let pa = h
                    .translate(
                        &mut probe,
                        if d[3] == 4 { Acc::Fetch } else { Acc::Load },
                        va,
                        4,
                    )
                    .ok();
                if let Some(p) = pa {
                    if Ram::ok(p, 4) && !(0x8000_0000..0x8004_0000).contains(&(p & !0xffff)) {
                        ram.put(p, 4, 0x8765_4321);
                    }
                }
                if va >= CODE && va < CODE + 0x10000 {
                    return Ok(());
                }
                let word = access(&mut h, &mut ram, d[3], va, pa.filter(|&p| Ram::ok(p, 4)));
                go(ctx, &h, &mut ram, word, d[3], "va", pa.unwrap_or(0))
            },
        );
        // canonical form: every run of equal bits above the page index, mapped wherever it leads
        if xlen == 64 {
            rep.space(
                "canonical",
                &[27, 27, 2, 3, g.levels, KINDS, 2],
                |ctx, d| {
                    let (from, to) = (38 + d[0] as u32, 38 + d[1] as u32);
                    if from > to || (from == to && d[0] > 0) {
                        return Ok(());
                    }
                    let (mut h, mut ram) = start(g);
                    let prv = who(&mut h, d[6]);
                    g.code(&mut ram, prv);
                    let ones = if from == to {
                        0
                    } else {
                        !0 >> (64 - to) & !0 << from
                    };
                    let low = [0x15_6765_4000u64, 0x0a_0000_0000, 0x3f_ffff_f000][d[3]];
                    let mut va = ones ^ (d[2] as u64 * (!0 << 38)) | low;
                    if d[5] == 4 && d[4] == 0 {
                        va += 0xff0;
                    }
                    let leaf = d[4];
                    let fl = 0xcf | ((prv == U) as u64) << 4;
                    let root = g.slot(2, va);
                    if leaf == 2 && root == g.slot(2, 0x8000_0000) {
                        return Ok(());
                    }
                    g.leaf(&mut ram, va, leaf, g.target(leaf), fl);
                    let pa = g.target(leaf) + (va & (g.page(leaf) - 1));
                    ram.put(pa, 4, 0x8123_4567);
                    let word = access(&mut h, &mut ram, d[5], va, Some(pa));
                    go(ctx, &h, &mut ram, word, d[5], "canonical", pa)
                },
            );
        }
        // arbitrary table contents: each entry on the walk from a hostile alphabet
        let ent: Vec<u64> = {
            let p = |pa: u64, f: u64| pa >> 12 << 10 | f;
            let mut v = vec![
                0,
                p(T[0], 1),
                p(T[1], 1),
                p(T[2], 1),
                p(DEEP, 1),
                p(0x4000_0000, 1),
                p(0x0200_0000, 1),
                p(0x0c00_0000, 1),
                p(0x1000_0000, 1),
                p(0x1000, 1),
                p(0xffff_f000, 1),
                p(0x8000_0000, 0xcf),
                p(0x8000_0000, 0xdf),
                p(0xc000_0000, 0xc7),
                p(0x9000_0000, 0xcd),
                p(0x8003_0000, 0xd9),
                p(0x8003_0000, 0x05),
                p(0xffff_f000, 0xdb),
                if xlen == 32 {
                    0xffff_ff01
                } else {
                    0x003f_ffff_ffff_fc01
                },
                if xlen == 32 {
                    0xffff_ffcf
                } else {
                    0x003f_ffff_ffff_ffcf
                },
                p(0x8003_0000, 0xce),
                if xlen == 32 {
                    p(0x1_0000_0000, 0xcf)
                } else {
                    p(0x8000_0000_0000, 0xcf)
                },
            ];
            v.dedup();
            v
        };
        let ne = ent.len();
        rep.space(
            &format!("tables{xlen}"),
            &[ne, ne, if g.levels == 3 { ne } else { 1 }, KINDS, 4, 4],
            |ctx, d| {
                let (mut h, mut ram) = start(g);
                let prv = who(&mut h, d[4]);
                h.mstatus |= (d[5] as u64 & 1) * MST_SUM | (d[5] as u64 >> 1) * MST_MXR;
                let va = vas[0] + 0x804;
                // plant the entries at the walked slot of every table, so self-references keep walking
                for l in 0..g.levels {
                    ram.put(g.slot(l, va), g.pte, ent[d[l]]);
                }
                ram.put(
                    DEEP + (g.slot(0, va) & 0xfff),
                    g.pte,
                    0xc000_0000u64 >> 12 << 10 | 0xdf,
                );
                g.code(&mut ram, prv);
                let mut probe = ram.clone();
                let pa = h
                    .translate(
                        &mut probe,
                        if d[3] == 4 { Acc::Fetch } else { Acc::Load },
                        va,
                        4,
                    )
                    .ok();
                let dev = |p: u64| p < 0x1100_0000;
                if pa.is_some_and(dev) {
                    return Ok(());
                }
                let word = access(&mut h, &mut ram, d[3], va, None);
                if d[3] == 4 {
                    // fetched bytes are whatever is there; make them harmless
                    if let Some(p) = pa.filter(|&p| Ram::ok(p, 4)) {
                        ram.put(p, 4, word as u64);
                    }
                }
                go(ctx, &h, &mut ram, word, d[3], "table", pa.unwrap_or(0))
            },
        );
        // instructions across a page boundary, both pages independent
        rep.space(&format!("cross{xlen}"), &[256, 3, 2, 4, 2], |ctx, d| {
            let (mut h, mut ram) = start(g);
            let prv = [U, S][d[2]];
            h.prv = prv;
            h.medeleg = d[4] as u64 * 0xb002;
            let u = ((prv == U) as u64) << 4;
            let (f1, f2) = match d[1] {
                0 => (0xcf | u, d[0] as u64),
                1 => (d[0] as u64, 0xcf | u),
                _ => (d[0] as u64, d[0] as u64),
            };
            let va = vas[0];
            g.leaf(&mut ram, va, 0, 0x8003_0000, f1);
            g.leaf(&mut ram, va + 0x1000, 0, 0x8003_5000, f2);
            let word = [addi(5, 5, 1), jal_small(), load(2, 5, 8, 0), 0xffff_ffff][d[3]];
            h.x[8] = va + 0xff0;
            h.pc = va + 0xffe;
            ram.put(0x8003_0ffe, 2, word as u64 & 0xffff);
            ram.put(0x8003_5000, 2, word as u64 >> 16);
            // the halfword physically after the first page is something else
            ram.put(0x8003_1000, 2, 0x0001);
            lock::run(ctx, &h, &ram, 1, &[], "cross")
        });
        // data at every offset around a page boundary (misaligned accesses may report either fault)
        let ops = crate::p04::ops(xlen);
        rep.space(
            &format!("offsets{xlen}"),
            &[ops.len(), 24, 4, 2],
            |ctx, d| {
                let (mut h, mut ram) = start(g);
                h.prv = [U, S][d[3]];
                g.code(&mut ram, h.prv);
                let u = ((h.prv == U) as u64) << 4;
                let va = vas[0];
                g.leaf(&mut ram, va, 0, 0x8003_0000, 0xcf | u);
                g.leaf(
                    &mut ram,
                    va + 0x1000,
                    0,
                    0x8003_5000,
                    [0xcf | u, 0, 0xc3 | u, 0xcf ^ 0x80 | u][d[2]],
                );
                for k in 0..16 {
                    ram.put(0x8003_0ff0 + k, 1, 0x90 + k);
                    ram.put(0x8003_5000 + k, 1, 0xa0 + k);
                }
                let op = ops[d[0]];
                h.x[8] = va + 0xff0 + d[1] as u64;
                h.x[9] = 0x5152_5354;
                ram.put(
                    CODE,
                    4,
                    if op.0 {
                        store(op.1, 9, 8, 0)
                    } else {
                        load(op.1, 9, 8, 0)
                    } as u64,
                );
                lock::run(
                    ctx,
                    &h,
                    &ram,
                    1,
                    &[(0x8003_0ff0, 32), (0x8003_5000, 32)],
                    "offset",
                )
            },
        );
        // paging off, and modes that ignore satp
        rep.space(&format!("bare{xlen}"), &[3, KINDS, 5, 4], |ctx, d| {
            let (mut h, mut ram) = start(g);
            h.satp = [
                0,
                0x80020,
                if xlen == 32 {
                    0x7fff_ffff
                } else {
                    (1 << 60) - 1
                },
            ][d[0]];
            let va = [0x8003_0010, 0xffff_fffc, 0x4000_0000, 0x8000_2000][d[3]];
            who(&mut h, d[2]);
            if Ram::ok(va, 4) {
                ram.put(va, 4, 0x1234_5678);
            }
            let word = access(
                &mut h,
                &mut ram,
                d[1],
                va,
                Some(va).filter(|&p| Ram::ok(p, 4)),
            );
            go(ctx, &h, &mut ram, word, d[1], "bare", va)
        });
        // histories: tables, satp, SUM/MXR and privilege change between accesses
        let va = vas[0] + 0x10;
        let mk = |ws: &[u32]| ws.iter().map(|&w| Ev::I(w)).collect::<Vec<_>>();
        let st = |rs2: u32, rs1: u32| {
            if xlen == 32 {
                store(2, rs2, rs1, 0)
            } else {
                store(3, rs2, rs1, 0)
            }
        };
        let al: Vec<Vec<Ev>> = vec![
            mk(&[load(2, 7, 8, 0)]),
            mk(&[store(2, 9, 8, 0)]),
            mk(&[amo(0, 4, 7, 8, 9)]),
            mk(&[st(12, 11), SFENCE]), // leaf := other page, RW
            mk(&[st(13, 11), SFENCE]), // leaf := user page
            mk(&[st(14, 11), SFENCE]), // leaf := X only
            mk(&[st(0, 11), SFENCE]),  // leaf invalid
            mk(&[csr(2, 0, 0x100, 15)]),
            mk(&[csr(3, 0, 0x100, 16)]),
            mk(&[csr(1, 0, 0x180, 17), SFENCE]),
            mk(&[csr(1, 0, 0x180, 18), SFENCE]),
            mk(&[csr(1, 0, 0x180, 0), SFENCE]),
            mk(&[csr(3, 0, 0x180, 19), SFENCE]), // the mode alone
            mk(&[csr(2, 0, 0x180, 19), SFENCE]),
        ];
        let n = al.len();
        rep.space(
            &format!("histories{xlen}"),
            &[3, n, n, n, n, n, if rep.thorough { n } else { 1 }],
            |ctx, d| {
                let (mut h, mut ram) = start(g);
                who(&mut h, [1, 3, 4][d[0]]);
                g.code(&mut ram, S);
                g.leaf(&mut ram, va, 0, 0x8003_0000, 0xcf);
                let slot = g.slot(0, va);
                let e = |pa: u64, f: u64| pa >> 12 << 10 | f;
                h.x[8] = va;
                h.x[9] = 0x2222_2222;
                h.x[11] = slot;
                h.x[12] = e(0x8003_5000, 0xc7);
                h.x[13] = e(0x8003_6000, 0xd7);
                h.x[14] = e(0x8003_7000, 0x49);
                h.x[15] = MST_SUM | MST_MXR;
                h.x[16] = MST_SUM;
                h.x[17] = (g.satp() & !0xfffff) | 0x8004_0000 >> 12;
                h.x[18] = g.satp();
                h.x[19] = if xlen == 32 { 1 << 31 } else { 8 << 60 };
                // the second address space maps the code and the same page elsewhere
                let top = g.levels - 1;
                let root2 = 0x8004_0000;
                for (v, pa, f) in [
                    (0x8000_0000u64, 0x8000_0000u64, 0xcfu64),
                    (va, 0xc000_0000, 0xcf),
                ] {
                    let s = g.slot(top, v) - T[top] + root2;
                    ram.put(s, g.pte, e(pa, f));
                }
                for (k, p) in [0x8003_0000u64, 0x8003_5000, 0x8003_6000, 0x8003_7000]
                    .iter()
                    .enumerate()
                {
                    ram.put(p + 0x10, 4, 0x1111_0000 + k as u64);
                }
                let evs: Vec<Ev> = d[1..if rep.thorough { 7 } else { 6 }]
                    .iter()
                    .flat_map(|&k| al[k].clone())
                    .collect();
                lock::run_seq(
                    ctx,
                    &h,
                    &ram,
                    &evs,
                    &[
                        (0x8003_0010, 16),
                        (0x8003_5010, 16),
                        (0x8003_6010, 16),
                        (0x8003_7010, 16),
                    ],
                    "history",
                )
            },
        );
    }
    rep.sample("RV64 Sv39 level-1 leaf flags 0x5b, store from S with SUM=1: D clear -> cause 15, tval = va".into());
    rep.sample(
        "RV32 4-byte instruction at page end, second page X=0: cause 12, mepc=va, mtval=va+2"
            .into(),
    );
}
fn jal_small() -> u32 {
    j(-6, 1)
}
