//! P03: jumps and branches.
use crate::asm;
use crate::drv::Report;
use crate::lock::{self, CODE};
use crate::model::{self, Hart, Ram};

fn base(xlen: u32, pc: u64) -> (Hart, Ram) {
    let mut h = Hart::new(xlen);
    h.pc = pc;
    h.mtvec = CODE + 0x100;
    (h, Ram::default())
}

pub fn run(rep: &Report) {
    rep.note("every branch/jump immediate from several pcs (RAM base, odd half-word, middle, last word of RAM); operand classes cover every signed/unsigned order");
    for xlen in [32u32, 64] {
        let w = |v: u64| if xlen == 32 { v & 0xffff_ffff } else { v };
        let pcs = [CODE, CODE + 2, CODE + 0x10_0000, 0xffff_fffc];
        let pairs: Vec<(u64, u64)> = {
            let v = [
                0u64,
                1,
                2,
                0x7fff_ffff,
                0x8000_0000,
                0xffff_ffff,
                1 << 32,
                (1 << 63) - 1,
                1 << 63,
                u64::MAX,
            ];
            let mut p = vec![];
            for a in v {
                for b in v {
                    p.push((w(a), w(b)));
                }
            }
            p.sort();
            p.dedup();
            p
        };
        // all 4096 offsets, one taken and one not-taken pair each
        rep.space(
            &format!("branch-offsets{xlen}"),
            &[6, 4096, 4, pcs.len()],
            |ctx, d| {
                let f3 = [0, 1, 4, 5, 6, 7][d[0]];
                let (mut h, mut ram) = base(xlen, pcs[d[3]]);
                let (a, b) = [(5, 5), (3, 9), (9, 3), (w(u64::MAX), 1)][d[2]];
                h.x[10] = a;
                h.x[11] = b;
                let off = ((d[1] as i32) << 19) >> 18;
                ram.put(h.pc, 4, asm::b(off, 11, 10, f3) as u64);
                lock::run(ctx, &h, &ram, 1, &[], &format!("branch{f3}"))
            },
        );
        rep.space(
            &format!("branch-operands{xlen}"),
            &[6, pairs.len(), 3, 2],
            |ctx, d| {
                let f3 = [0, 1, 4, 5, 6, 7][d[0]];
                let (mut h, mut ram) = base(xlen, pcs[d[3]]);
                h.x[20] = pairs[d[1]].0;
                h.x[21] = pairs[d[1]].1;
                ram.put(h.pc, 4, asm::b([0, -8, 64][d[2]], 21, 20, f3) as u64);
                lock::run(ctx, &h, &ram, 1, &[], &format!("branch{f3}"))
            },
        );
        rep.space(&format!("branch-regs{xlen}"), &[6, 32, 32], |ctx, d| {
            let f3 = [0, 1, 4, 5, 6, 7][d[0]];
            let (mut h, mut ram) = base(xlen, CODE);
            crate::p01::regfile(&mut h, 1);
            ram.put(h.pc, 4, asm::b(-16, d[1] as u32, d[2] as u32, f3) as u64);
            lock::run(ctx, &h, &ram, 1, &[], &format!("branch{f3}"))
        });
        // JAL: every offset
        rep.space(&format!("jal{xlen}"), &[1 << 20, 3], |ctx, d| {
            let (h, mut ram) = base(xlen, pcs[d[1]]);
            let off = ((d[0] as i32) << 12) >> 11;
            ram.put(h.pc, 4, asm::j(off, 1 + (d[0] as u32) % 31) as u64);
            lock::run(ctx, &h, &ram, 1, &[], "jal")
        });
        rep.space(&format!("jal-small{xlen}"), &[4096, 4, 32], |ctx, d| {
            let (h, mut ram) = base(xlen, pcs[d[1]]);
            ram.put(
                h.pc,
                4,
                asm::j((d[0] as i32 - 2048) * 2, d[2] as u32) as u64,
            );
            lock::run(ctx, &h, &ram, 1, &[], "jal")
        });
        // JALR: every immediate, base values, rd == rs1
        let bases = [
            0,
            1,
            CODE,
            CODE + 1,
            CODE + 3,
            w(u64::MAX),
            w(u64::MAX - 2047),
            w(1 << 63),
            0x7fff_ffff,
        ];
        rep.space(&format!("jalr{xlen}"), &[4096, bases.len(), 3], |ctx, d| {
            let (mut h, mut ram) = base(xlen, CODE);
            h.x[6] = bases[d[1]];
            let rd = [0, 5, 6][d[2]];
            ram.put(h.pc, 4, asm::i(d[0] as i32, 6, 0, rd, 0x67) as u64);
            lock::run(ctx, &h, &ram, 1, &[], "jalr")
        });
        rep.space(&format!("jalr-regs{xlen}"), &[32, 32, 4], |ctx, d| {
            let (mut h, mut ram) = base(xlen, pcs[d[2]]);
            crate::p01::regfile(&mut h, 1);
            ram.put(h.pc, 4, asm::i(5, d[0] as u32, 0, d[1] as u32, 0x67) as u64);
            lock::run(ctx, &h, &ram, 1, &[], "jalr")
        });
        // self-targets through registers
        rep.space(&format!("jalr-self{xlen}"), &[3, 3, 3], |ctx, d| {
            let (mut h, mut ram) = base(xlen, pcs[d[0]]);
            h.x[6] = h.pc + d[2] as u64 - 1;
            let rd = [0, 5, 6][d[1]];
            ram.put(h.pc, 4, asm::i(1 - d[2] as i32, 6, 0, rd, 0x67) as u64);
            lock::run(ctx, &h, &ram, 1, &[], "jalr")
        });
        // compressed
        rep.space(&format!("compressed{xlen}"), &[65536, 4, 3], |ctx, d| {
            let hw = d[0] as u16;
            if hw & 3 == 3 {
                return Ok(());
            }
            let Some(i) = model::expand(hw, xlen) else {
                return Ok(());
            };
            if !matches!(i & 0x7f, 0x63 | 0x67 | 0x6f) {
                return Ok(());
            }
            let (mut h, mut ram) = base(xlen, pcs[d[2]]);
            for r in 1..32u64 {
                h.x[r as usize] = match d[1] {
                    0 => 0,
                    1 => h.pc,
                    2 => w(0x9000_0001 + r * 7),
                    _ => w((1 << 63) | (1 << 32) | r),
                };
            }
            ram.put(h.pc, 2, hw as u64);
            lock::run(ctx, &h, &ram, 1, &[], &format!("c{}.{}", hw & 3, hw >> 13))
        });
        // the zero tests look at every bit
        rep.space(
            &format!("zero-tests{xlen}"),
            &[2, 8, xlen as usize, 3],
            |ctx, d| {
                let (mut h, mut ram) = base(xlen, CODE);
                let bit = 1u64 << d[2];
                h.x[8 + d[1]] = w([bit, !bit, bit.wrapping_neg()][d[3]]);
                let hw = 0xc001 | d[0] << 13 | d[1] << 7 | 0x0c;
                ram.put(h.pc, 2, hw as u64);
                lock::run(ctx, &h, &ram, 1, &[], &format!("c1.{}", hw >> 13))
            },
        );
        // so do the comparisons
        rep.space(
            &format!("comparisons{xlen}"),
            &[6, 6, xlen as usize, 2],
            |ctx, d| {
                let f3 = [0, 1, 4, 5, 6, 7][d[0]];
                let v = [
                    0,
                    u64::MAX,
                    0x5555_5555_5555_5555,
                    0xaaaa_aaaa_aaaa_aaaa,
                    0x8000_0000_8000_0000,
                    0x7fff_ffff_7fff_ffff,
                ][d[1]];
                let (mut h, mut ram) = base(xlen, CODE);
                h.x[20] = w(v);
                h.x[21] = w(v ^ 1 << d[2]);
                let (a, b) = [(20, 21), (21, 20)][d[3]];
                ram.put(h.pc, 4, asm::b(64, b, a, f3) as u64);
                lock::run(ctx, &h, &ram, 1, &[], &format!("branch{f3}"))
            },
        );
        // walks of jumps: three transfers in a row inside a small window
        let offs: [i32; 7] = [0, 4, 8, -4, -8, 12, 2];
        let slots = 6u64;
        let kinds = 5;
        let n = kinds * offs.len();
        rep.space(
            &format!("walks{xlen}"),
            &[n, n, n, n, if rep.thorough { n } else { 1 }],
            |ctx, d| {
                let (mut h, mut ram) = base(xlen, CODE + 0x40);
                for s in 0..slots {
                    let k = d[(s % if rep.thorough { 5 } else { 4 }) as usize];
                    let (kind, off) = (k / offs.len(), offs[k % offs.len()]);
                    let at = CODE + 0x38 + 4 * s;
                    let ins = match kind {
                        0 => asm::j(off, 1),
                        1 => asm::b(off, 2, 2, 0),
                        2 => asm::b(off, 2, 3, 1),
                        3 => asm::b(off, 2, 3, 4),
                        _ => asm::i(off, 1, 0, 5, 0x67),
                    };
                    ram.put(at, 4, ins as u64);
                }
                h.x[1] = CODE + 0x40;
                h.x[2] = 7;
                h.x[3] = 6;
                lock::run(ctx, &h, &ram, 5, &[], "walk")
            },
        );
    }
}
