//! P04: loads and stores over RAM as one little-endian byte array.
use crate::asm;
use crate::drv::Report;
use crate::lock::{self, CODE, DATA};
use crate::model::{self, Hart, Ram, RAM_BASE, RAM_SIZE};

pub fn base(xlen: u32) -> (Hart, Ram) {
    let mut h = Hart::new(xlen);
    h.pc = CODE;
    h.mtvec = CODE + 0x400;
    (h, Ram::default())
}
/// a recognisable, sign-varied byte for every address
fn pat(a: u64) -> u8 {
    (a.wrapping_mul(37) ^ (a >> 3).wrapping_mul(101)) as u8 ^ 0x5a
}
fn fill(r: &mut Ram, from: u64, n: u64) {
    for a in from..from + n {
        if Ram::ok(a, 1) {
            r.put(a, 1, pat(a) as u64);
        }
    }
}
pub fn ops(xlen: u32) -> Vec<(bool, u32, u64)> {
    // (store, funct3, size)
    let mut v = vec![
        (false, 0, 1),
        (false, 1, 2),
        (false, 2, 4),
        (false, 4, 1),
        (false, 5, 2),
        (true, 0, 1),
        (true, 1, 2),
        (true, 2, 4),
    ];
    if xlen == 64 {
        v.extend([(false, 3, 8), (false, 6, 4), (true, 3, 8)]);
    }
    v
}
fn enc(op: (bool, u32, u64), data: u32, addr: u32, imm: i32) -> u32 {
    if op.0 {
        asm::store(op.1, data, addr, imm)
    } else {
        asm::load(op.1, data, addr, imm)
    }
}

pub fn run(rep: &Report) {
    rep.note("RAM is [0x80000000, 0x100000000); data window bytes carry an address-dependent pattern; 64 bytes around each access are compared after every step, misaligned and unmapped ones included");
    for xlen in [32u32, 64] {
        let w = |v: u64| if xlen == 32 { v & 0xffff_ffff } else { v };
        let ops = ops(xlen);
        let vals = [
            0x8182_8384_8586_8788u64,
            0x7f01_7f02_7f03_7f04,
            u64::MAX,
            0x0000_0000_ffff_0080,
        ];
        // every immediate, every alignment
        rep.space(&format!("imm{xlen}"), &[ops.len(), 4096, 8, 2], |ctx, d| {
            let op = ops[d[0]];
            let (mut h, mut ram) = base(xlen);
            let imm = d[1] as i32 - 2048;
            h.x[8] = DATA + d[2] as u64;
            h.x[9] = w(vals[d[3]]);
            let ea = h.x[8].wrapping_add(imm as i64 as u64);
            fill(&mut ram, ea - 4, 16);
            ram.put(CODE, 4, enc(op, 9, 8, imm) as u64);
            lock::run(
                ctx,
                &h,
                &ram,
                1,
                &[(ea - 24, 56)],
                &format!("mem{}{}", op.0 as u8, op.1),
            )
        });
        // every register pair (including x0 as destination, source and base)
        rep.space(&format!("regs{xlen}"), &[ops.len(), 32, 32, 2], |ctx, d| {
            let op = ops[d[0]];
            let (mut h, mut ram) = base(xlen);
            for r in 1..32u64 {
                h.x[r as usize] = w(0xffff_ffff_0000_0000u64
                    * (xlen == 64 && r as usize != d[2]) as u64
                    | (DATA + r * 0x108 + 8));
            }
            let a = h.x[d[2]];
            let imm = [0, -8][d[3]];
            fill(&mut ram, a.wrapping_add(imm as i64 as u64), 8);
            ram.put(CODE, 4, enc(op, d[1] as u32, d[2] as u32, imm) as u64);
            lock::run(ctx, &h, &ram, 1, &[], &format!("mem{}{}", op.0 as u8, op.1))
        });
        // memory contents: each byte lane takes every value
        rep.space(
            &format!("bytes{xlen}"),
            &[ops.len(), 8, 256, 3],
            |ctx, d| {
                let op = ops[d[0]];
                let (mut h, mut ram) = base(xlen);
                h.x[8] = DATA;
                let other = [0u64, u64::MAX, 0x8000_0000_8000_8000][d[3]];
                let v = (other & !(0xff << (8 * d[1]))) | (d[2] as u64) << (8 * d[1]);
                if op.0 {
                    h.x[9] = w(v);
                    fill(&mut ram, DATA, 8);
                } else {
                    ram.put(DATA, 8, v);
                    h.x[9] = w(0x1111_1111_1111_1111);
                }
                ram.put(CODE, 4, enc(op, 9, 8, 0) as u64);
                lock::run(
                    ctx,
                    &h,
                    &ram,
                    1,
                    &[(DATA - 16, 40)],
                    &format!("mem{}{}", op.0 as u8, op.1),
                )
            },
        );
        // edges: RAM ends, page ends, address-space ends, unmapped holes
        let tops: Vec<u64> = {
            let mut v = vec![
                RAM_BASE,
                RAM_BASE + RAM_SIZE,
                RAM_BASE + 0x1000,
                RAM_BASE + 0x4000_0000,
                0x4000_0000,
                w(0),
                0x0200_0000 - 8,
                0x1000_0000 - 8,
                0x7fff_0000,
            ];
            if xlen == 64 {
                v.extend([
                    1 << 63,
                    1 << 40,
                    0xffff_ffff_8000_0000,
                    0xffff_ffff_ffff_f000,
                    1 << 56,
                    0x1_8000_0000,
                    0x100_8000_0000,
                ]);
            }
            v
        };
        rep.space(
            &format!("edges{xlen}"),
            &[ops.len(), tops.len(), 24, 5],
            |ctx, d| {
                let op = ops[d[0]];
                let (mut h, mut ram) = base(xlen);
                let ea = w(tops[d[1]].wrapping_sub(12).wrapping_add(d[2] as u64));
                // device ranges and the boot ROM are P17's and P20's subject
                let mapped_dev = |a: u64| {
                    (0x1000..0x4000).contains(&a)
                        || (0x0200_0000..0x0201_0000).contains(&a)
                        || (0x1000_0000..0x1000_0100).contains(&a)
                        || (0x0c00_0000..0x0d00_0000).contains(&a)
                };
                if (0..8).any(|k| mapped_dev(w(ea.wrapping_add(k)))) {
                    return Ok(());
                }
                let imm = [0, 4, -4, 2047, -2048][d[3]];
                h.x[8] = w(ea.wrapping_sub(imm as i64 as u64));
                h.x[9] = w(vals[0]);
                if ea > 16 {
                    for a in ea - 8..=ea.saturating_add(15) {
                        if Ram::ok(a, 1) && !(CODE..CODE + 8).contains(&a) {
                            ram.put(a, 1, pat(a) as u64);
                        }
                    }
                }
                h.pc = CODE + 0x200;
                ram.put(h.pc, 4, enc(op, 9, 8, imm) as u64);
                lock::run(
                    ctx,
                    &h,
                    &ram,
                    1,
                    &[],
                    &format!("edge{}{}", op.0 as u8, op.1),
                )
            },
        );
        // compressed forms: every halfword that is a load or a store
        rep.space(&format!("compressed{xlen}"), &[65536, 4], |ctx, d| {
            let hw = d[0] as u16;
            if hw & 3 == 3 {
                return Ok(());
            }
            let Some(i) = model::expand(hw, xlen) else {
                return Ok(());
            };
            if !matches!(i & 0x7f, 0x03 | 0x23) {
                return Ok(());
            }
            let (mut h, mut ram) = base(xlen);
            let skew = [0u64, 4, 2, 1][d[1]];
            for r in 1..32u64 {
                h.x[r as usize] = DATA + r * 0x1008 + skew;
            }
            let rs1 = (i >> 15 & 31) as usize;
            let imm = if i & 0x7f == 3 {
                i >> 20
            } else {
                (i >> 25 & 0x7f) << 5 | i >> 7 & 31
            };
            let ea = h.x[rs1] + imm as u64;
            fill(&mut ram, ea - 4, 16);
            ram.put(CODE, 2, hw as u64);
            lock::run(
                ctx,
                &h,
                &ram,
                1,
                &[(ea - 16, 40)],
                &format!("c{}.{}", hw & 3, hw >> 13),
            )
        });
        // histories of overlapping accesses inside one 16-byte window
        let acc: Vec<((bool, u32, u64), u64)> = ops
            .iter()
            .flat_map(|&o| (0..16 / o.2).map(move |k| (o, k * o.2)))
            .collect();
        let st: Vec<_> = acc.iter().filter(|a| a.0 .0).copied().collect();
        let ld: Vec<_> = acc.iter().filter(|a| !a.0 .0).copied().collect();
        let third = st.len();
        let fourth = if rep.thorough { st.len() } else { 1 };
        rep.space(
            &format!("histories{xlen}"),
            &[st.len(), st.len(), third, ld.len(), fourth],
            |ctx, d| {
                let (mut h, mut ram) = base(xlen);
                h.x[8] = DATA;
                fill(&mut ram, DATA, 16);
                let mut code = vec![];
                for (k, s) in [st[d[0]], st[d[1]], st[d[2]], st[d[4]]].iter().enumerate() {
                    if k == 3 && fourth == 1 {
                        break;
                    }
                    h.x[10 + k] = w(vals[k]);
                    code.push(enc(s.0, 10 + k as u32, 8, s.1 as i32));
                }
                let l = ld[d[3]];
                code.push(enc(l.0, 20, 8, l.1 as i32));
                lock::put_code(&mut ram, CODE, &code);
                lock::run(ctx, &h, &ram, code.len(), &[(DATA - 16, 48)], "history")
            },
        );
        // loads and stores in any order
        let dims = vec![acc.len(); if rep.thorough { 4 } else { 3 }];
        rep.space(&format!("mixed{xlen}"), &dims, |ctx, d| {
            let (mut h, mut ram) = base(xlen);
            h.x[8] = DATA;
            fill(&mut ram, DATA, 16);
            let mut code = vec![];
            for (k, &i) in d.iter().enumerate() {
                let s = acc[i];
                // stores take turns between fresh values and what was loaded before
                let reg = if k == 0 {
                    20
                } else {
                    [20, 10 + k as u32][k & 1]
                };
                if s.0 .0 && reg != 20 {
                    h.x[reg as usize] = w(vals[k % 4]);
                }
                code.push(enc(s.0, if s.0 .0 { reg } else { 20 }, 8, s.1 as i32));
            }
            h.x[20] = w(vals[0]);
            lock::put_code(&mut ram, CODE, &code);
            lock::run(ctx, &h, &ram, code.len(), &[(DATA - 16, 48)], "mixed")
        });
        // interleavings of loads and stores where addresses come from earlier loads
        let small: Vec<(bool, u32, u64)> = ops.clone();
        let n = small.len() * 3;
        rep.space(&format!("chains{xlen}"), &[n, n, n], |ctx, d| {
            let (mut h, mut ram) = base(xlen);
            h.x[8] = DATA;
            h.x[9] = w(vals[0]);
            ram.put(DATA, 8, DATA + 8);
            ram.put(DATA + 8, 8, w(vals[1]));
            ram.put(DATA + 16, 8, DATA);
            let mut code = vec![];
            for (k, &x) in d.iter().enumerate() {
                let o = small[x / 3];
                let (data, addr, imm) =
                    [(9u32, 8u32, 8i32), (8, 8, 0), (9, 8, k as i32 * 3)][x % 3];
                code.push(enc(o, data, addr, imm));
            }
            lock::put_code(&mut ram, CODE, &code);
            lock::run(ctx, &h, &ram, 3, &[(DATA - 16, 48)], "chain")
        });
        // stores into the instruction stream are seen by the next fetch
        rep.space(&format!("selfmod{xlen}"), &[3, 6, 3], |ctx, d| {
            let (mut h, mut ram) = base(xlen);
            let new = [asm::addi(5, 5, 1), asm::addi(6, 5, 77), 0xffff_ffff][d[0]];
            h.x[8] = CODE;
            h.x[9] = new as u64;
            h.x[5] = 3;
            let (f3, size) = [(0, 1), (1, 2), (2, 4)][d[2]];
            let slot = d[1] as u64;
            let mut code = vec![asm::store(f3, 9, 8, 4 * slot as i32), 0x0000_100f];
            code.resize(8, asm::NOP);
            let _ = size;
            lock::put_code(&mut ram, CODE, &code);
            lock::run(ctx, &h, &ram, 6, &[(CODE - 0, 64)], "selfmod")
        });
    }
    rep.sample("RV64 sd x9(0x8182838485868788),-8(x8=0x80010003): misaligned -> cause 6, tval=0x8000fffb, registers and 56 watched bytes unchanged".into());
    rep.sample("RV32 histories: sh@2, sw@0, lbu@3 from a patterned 16-byte window".into());
}
