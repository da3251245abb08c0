//! P01: computational instructions.
use crate::asm;
use crate::drv::Report;
use crate::lock::{self, CODE};
use crate::model::{self, Hart, Ram};

fn values(xlen: u32, deep: bool) -> Vec<u64> {
    let mut v: Vec<u64> = vec![
        0,
        1,
        2,
        3,
        4,
        5,
        6,
        7,
        8,
        10,
        12,
        16,
        31,
        32,
        33,
        63,
        64,
        65,
        100,
        0x7f,
        0x80,
        0xff,
        0x100,
        0x7ff,
        0x800,
        0xfff,
        0x7fff,
        0x8000,
        0xffff,
        0x1_0000,
        0x7fff_ffff,
        0x8000_0000,
        0x8000_0001,
        0xffff_ffff,
        0xffff_fffe,
        0x1_0000_0000,
        0x1_0000_0001,
        0x1_8000_0000,
        0x7_ffff_ffff,
        0x7fff_ffff_ffff_ffff,
        0x8000_0000_0000_0000,
        0x8000_0000_0000_0001,
        u64::MAX,
        u64::MAX - 1,
        u64::MAX - 6,
        0xffff_ffff_0000_0000,
        0xffff_ffff_8000_0000,
        0xffff_ffff_7fff_ffff,
        0x8000_0000_8000_0000,
        0x7fff_ffff_ffff_0000,
        0xaaaa_aaaa_aaaa_aaaa,
        0x5555_5555_5555_5555,
        0x0123_4567_89ab_cdef,
        0xfedc_ba98_7654_3210,
        0xdead_beef_0bad_cafe,
        0x0000_0000_dead_beef,
    ];
    if deep {
        for k in 0..64 {
            let p = 1u64 << k;
            v.extend([
                p,
                p - 1,
                p + 1,
                p.wrapping_neg(),
                !p,
                p | 0x8000_0000_0000_0000,
                p.wrapping_mul(3),
            ]);
        }
    }
    if xlen == 32 {
        for x in v.iter_mut() {
            *x &= 0xffff_ffff;
        }
    }
    v.sort();
    v.dedup();
    v
}

/// register-register forms: (opcode, f3, f7)
fn rr_ops(xlen: u32) -> Vec<(u32, u32, u32)> {
    let mut v = vec![];
    for f3 in 0..8 {
        v.push((0x33, f3, 0));
        v.push((0x33, f3, 1));
    }
    v.push((0x33, 0, 0x20));
    v.push((0x33, 5, 0x20));
    if xlen == 64 {
        for (f3, f7) in [
            (0, 0),
            (0, 0x20),
            (1, 0),
            (5, 0),
            (5, 0x20),
            (0, 1),
            (4, 1),
            (5, 1),
            (6, 1),
            (7, 1),
        ] {
            v.push((0x3b, f3, f7));
        }
    }
    v
}

fn base(xlen: u32) -> (Hart, Ram) {
    let mut h = Hart::new(xlen);
    h.pc = CODE;
    h.mtvec = CODE + 0x100;
    (h, Ram::default())
}

pub fn regfile(h: &mut Hart, k: usize) {
    for i in 1..32u64 {
        let v = match k {
            0 => i,
            1 => i.wrapping_mul(0x9e37_79b9_7f4a_7c15),
            2 => u64::MAX - i,
            3 => (1 << 63) | i << 31,
            4 => 0x7fff_ffff_7fff_ffe0 + i,
            5 => 1 << (i * 2),
            6 => 0xffff_ffff_8000_0000 + i,
            _ => 0x0000_0001_8000_0000 | i << 3,
        };
        h.x[i as usize] = h.w(v);
    }
}

pub fn run(rep: &Report) {
    rep.note("oracle: reference hart written from the ISA manual; every case is one instruction executed by the real Cpu::exec_one_cycle and compared on pc, 31 registers, privilege, CSRs");
    rep.note("operand alphabets are boundary sets (see DESIGN.md); register fields, immediates and shift amounts are complete");
    for xlen in [32u32, 64] {
        let vals = values(xlen, true);
        let ops = rr_ops(xlen);
        // operand alphabet squared, with aliasing patterns of rd/rs1/rs2
        let alias: [(u32, u32, u32); 4] = [(3, 1, 2), (1, 1, 2), (2, 1, 2), (0, 1, 2)];
        let na = alias.len();
        rep.space(
            &format!("rr{xlen}"),
            &[ops.len(), na, vals.len(), vals.len()],
            |ctx, d| {
                let (op, f3, f7) = ops[d[0]];
                let (rd, rs1, rs2) = alias[d[1]];
                let (mut h, mut ram) = base(xlen);
                h.x[rs1 as usize] = vals[d[2]];
                h.x[rs2 as usize] = vals[d[3]];
                h.x[4] = 0x44;
                let w = asm::r(f7, rs2, rs1, f3, rd, op);
                ram.put(CODE, 4, w as u64);
                lock::run(ctx, &h, &ram, 1, &[], &format!("op{op:02x}.{f3}.{f7:02x}"))
            },
        );
        // operands that are one run of ones, or of zeros
        if rep.thorough {
            let mut runs = vec![0u64];
            for lo in 0..xlen {
                for n in 1..=xlen - lo {
                    runs.push((u64::MAX >> (64 - n)) << lo);
                }
            }
            let mask = u64::MAX >> (64 - xlen);
            runs.extend(runs.clone().iter().map(|v| !v & mask));
            runs.sort();
            runs.dedup();
            let k = runs.len();
            rep.space(&format!("runs{xlen}"), &[ops.len(), k, k], |ctx, d| {
                let (op, f3, f7) = ops[d[0]];
                let (mut h, mut ram) = base(xlen);
                h.x[1] = runs[d[1]];
                h.x[2] = runs[d[2]];
                ram.put(CODE, 4, asm::r(f7, 2, 1, f3, 3, op) as u64);
                lock::run(ctx, &h, &ram, 1, &[], &format!("op{op:02x}.{f3}.{f7:02x}"))
            });
        }
        // every register triple
        rep.space(
            &format!("regs{xlen}"),
            &[ops.len(), 32, 32, 32],
            |ctx, d| {
                let (op, f3, f7) = ops[d[0]];
                let (mut h, mut ram) = base(xlen);
                regfile(&mut h, 1);
                let w = asm::r(f7, d[1] as u32, d[2] as u32, f3, d[3] as u32, op);
                ram.put(CODE, 4, w as u64);
                lock::run(ctx, &h, &ram, 1, &[], &format!("op{op:02x}.{f3}.{f7:02x}"))
            },
        );
        // immediates: every 12-bit immediate (shift forms keep their legal funct bits)
        let iops: Vec<(u32, u32)> = (0..8)
            .map(|f3| (0x13, f3))
            .chain(if xlen == 64 {
                vec![(0x1b, 0), (0x1b, 1), (0x1b, 5)]
            } else {
                vec![]
            })
            .collect();
        let ivals: Vec<u64> = values(xlen, false);
        rep.space(
            &format!("imm{xlen}"),
            &[iops.len(), 4096, ivals.len(), 2],
            |ctx, d| {
                let (op, f3) = iops[d[0]];
                let (mut h, mut ram) = base(xlen);
                h.x[7] = ivals[d[2]];
                let rd = if d[3] == 0 { 9 } else { 7 };
                let w = asm::i(d[1] as i32, 7, f3, rd, op);
                let shift = f3 == 1 || f3 == 5;
                let legal = !shift || {
                    let top = if op == 0x13 && xlen == 64 {
                        w >> 26 << 1
                    } else {
                        w >> 25
                    };
                    top == 0 || (f3 == 5 && top == 0x20)
                };
                if !legal {
                    return Ok(()); // P02
                }
                ram.put(CODE, 4, w as u64);
                lock::run(ctx, &h, &ram, 1, &[], &format!("op{op:02x}.{f3}"))
            },
        );
        // every rd/rs1 of the immediate forms
        rep.space(
            &format!("immregs{xlen}"),
            &[iops.len(), 32, 32, 4],
            |ctx, d| {
                let (op, f3) = iops[d[0]];
                let (mut h, mut ram) = base(xlen);
                regfile(&mut h, 1);
                let imm = match d[3] {
                    0 => 1,
                    1 => 31,
                    2 if f3 != 1 && f3 != 5 => -1,
                    2 => 0,
                    _ if f3 == 5 => 0x41f & !0x10,
                    _ if f3 == 1 => 5,
                    _ => 0x7ff,
                };
                ram.put(
                    CODE,
                    4,
                    asm::i(imm, d[1] as u32, f3, d[2] as u32, op) as u64,
                );
                lock::run(ctx, &h, &ram, 1, &[], &format!("op{op:02x}.{f3}"))
            },
        );
        // LUI / AUIPC: every upper immediate, several pcs
        let pcs = [CODE, CODE + 0xffe, 0xffff_f000 - 4];
        rep.space(
            &format!("upper{xlen}"),
            &[2, 1 << 20, pcs.len() - 1],
            |ctx, d| {
                let (mut h, mut ram) = base(xlen);
                h.pc = pcs[d[2]];
                let imm = d[1] as u32;
                let rd = 1 + (imm % 31);
                ram.put(
                    h.pc,
                    4,
                    asm::u(imm, rd, if d[0] == 0 { 0x37 } else { 0x17 }) as u64,
                );
                lock::run(
                    ctx,
                    &h,
                    &ram,
                    1,
                    &[],
                    if d[0] == 0 { "lui" } else { "auipc" },
                )
            },
        );
        rep.space(&format!("upperregs{xlen}"), &[2, 32, 4, 2], |ctx, d| {
            let (mut h, mut ram) = base(xlen);
            h.pc = pcs[d[3]];
            regfile(&mut h, 1);
            let imm = [0, 0x80000, 0xfffff, 0x12345][d[2]];
            ram.put(
                h.pc,
                4,
                asm::u(imm, d[1] as u32, if d[0] == 0 { 0x37 } else { 0x17 }) as u64,
            );
            lock::run(
                ctx,
                &h,
                &ram,
                1,
                &[],
                if d[0] == 0 { "lui" } else { "auipc" },
            )
        });
        // every compressed computational halfword
        rep.space(&format!("compressed{xlen}"), &[65536, 8, 2], |ctx, d| {
            let hw = d[0] as u16;
            if hw & 3 == 3 {
                return Ok(());
            }
            let Some(i) = model::expand(hw, xlen) else {
                return Ok(());
            };
            if !matches!(i & 0x7f, 0x13 | 0x1b | 0x33 | 0x3b | 0x37) {
                return Ok(());
            }
            let (mut h, mut ram) = base(xlen);
            h.pc = CODE + 2 * d[2] as u64;
            regfile(&mut h, d[1]);
            ram.put(h.pc, 2, hw as u64);
            lock::run(ctx, &h, &ram, 1, &[], &format!("c{}.{}", hw & 3, hw >> 13))
        });
        // dependent pairs: nothing but the architectural state carries over
        let pair: Vec<u32> = {
            let mut v = vec![];
            for &(op, f3, f7) in &ops {
                v.push(asm::r(f7, 2, 1, f3, 1, op));
                v.push(asm::r(f7, 1, 2, f3, 2, op));
            }
            for &(op, f3) in &iops {
                v.push(asm::i(3, 1, f3, 2, op));
                v.push(asm::i(3, 2, f3, 1, op));
            }
            v.push(asm::u(0x87654, 1, 0x37));
            v.push(asm::u(0x87654, 2, 0x17));
            v
        };
        let n = if rep.thorough { 4 } else { 3 };
        let mut dims = vec![4];
        dims.extend(std::iter::repeat(pair.len()).take(n));
        rep.space(&format!("chains{xlen}"), &dims, |ctx, d| {
            let (mut h, mut ram) = base(xlen);
            let sv = [
                (0, 0),
                (u64::MAX, 1 << 63),
                (0x8000_0000, 0xffff_ffff),
                (12345, 77),
            ][d[0]];
            h.x[1] = h.w(sv.0);
            h.x[2] = h.w(sv.1);
            let code: Vec<u32> = d[1..].iter().map(|&k| pair[k]).collect();
            lock::put_code(&mut ram, CODE, &code);
            lock::run(ctx, &h, &ram, n, &[], "chain")
        });
    }
}
