//! P05: LR/SC and AMO.
use crate::asm;
use crate::drv::Report;
use crate::lock::{self, CODE, DATA};
use crate::model::RAM_BASE;
use crate::model::RAM_SIZE;
use crate::p04::base;

pub fn run(rep: &Report) {
    rep.note("success of SC after an overlapping store by the same hart, after a trap, or with a width or offset other than the LR's is left open, as the ISA does; all other SC outcomes are fixed");
    const F5: [u32; 9] = [0, 1, 4, 8, 12, 16, 20, 24, 28];
    const ALL: [u32; 11] = [0, 1, 4, 8, 12, 16, 20, 24, 28, 2, 3];
    for xlen in [32u32, 64] {
        let w = |v: u64| if xlen == 32 { v & 0xffff_ffff } else { v };
        let sizes: &[u64] = if xlen == 32 { &[4] } else { &[4, 8] };
        let vals: Vec<u64> = {
            let mut v: Vec<u64> = vec![
                0,
                1,
                2,
                0x7fff_ffff,
                0x8000_0000,
                0x8000_0001,
                0xffff_fffe,
                0xffff_ffff,
                0x1_0000_0000,
                0x5555_5555_aaaa_aaaa,
                0x7fff_ffff_ffff_ffff,
                1 << 63,
                (1 << 63) | 1,
                u64::MAX,
                u64::MAX - 1,
                0xffff_ffff_0000_0000,
                0xffff_ffff_8000_0000,
                0x7fff_ffff_8000_0000,
            ]
            .into_iter()
            .map(w)
            .collect();
            v.sort();
            v.dedup();
            v
        };
        // operation on every operand pair, with the neighbours of the word watched
        rep.space(
            &format!("ops{xlen}"),
            &[F5.len(), sizes.len(), vals.len(), vals.len(), 4, 2],
            |ctx, d| {
                let (mut h, mut ram) = base(xlen);
                let size = sizes[d[1]];
                let at = DATA + 8 + 4 * (d[5] as u64) * (size == 4) as u64;
                ram.put(DATA, 8, 0x0102_0304_0506_0708);
                ram.put(DATA + 8, 8, 0xf1f2_f3f4_f5f6_f7f8);
                ram.put(DATA + 16, 8, 0x1112_1314_1516_1718);
                ram.put(at, size, vals[d[2]]);
                h.x[5] = at;
                h.x[6] = vals[d[3]];
                let i = asm::amo(F5[d[0]], size, 7, 5, 6) | (d[4] as u32) << 25;
                ram.put(CODE, 4, i as u64);
                lock::run(
                    ctx,
                    &h,
                    &ram,
                    1,
                    &[(DATA - 8, 48)],
                    &format!("amo{}", F5[d[0]]),
                )
            },
        );
        // register choices, aliasing and x0 included
        rep.space(
            &format!("regs{xlen}"),
            &[
                ALL.len(),
                sizes.len(),
                32,
                32,
                if rep.thorough { 32 } else { 8 },
            ],
            |ctx, d| {
                let (mut h, mut ram) = base(xlen);
                for r in 1..32u64 {
                    h.x[r as usize] = DATA + 0x40 * r;
                }
                let rs2 = if rep.thorough {
                    d[4]
                } else {
                    [0, 1, 2, 10, 15, 16, 30, 31][d[4]]
                };
                let rs2 = if ALL[d[0]] == 2 { 0 } else { rs2 };
                ram.put(DATA + 0x40 * d[3] as u64, 8, 0x8000_0001_8765_4321);
                ram.put(
                    CODE,
                    4,
                    asm::amo(ALL[d[0]], sizes[d[1]], d[2] as u32, d[3] as u32, rs2 as u32) as u64,
                );
                lock::run(ctx, &h, &ram, 1, &[], &format!("amo{}", ALL[d[0]]))
            },
        );
        // alignment and unmapped addresses; with and without a matching reservation
        let tops: Vec<u64> = {
            let mut v = vec![
                DATA + 8,
                RAM_BASE + RAM_SIZE,
                RAM_BASE,
                0x4000_0000,
                0x9000_1000,
            ];
            if xlen == 64 {
                v.extend([1u64 << 40, 1 << 63, 0xffff_ffff_8000_0000]);
            }
            v
        };
        rep.space(
            &format!("faults{xlen}"),
            &[ALL.len(), sizes.len(), tops.len(), 16, 2, 3],
            |ctx, d| {
                let (mut h, mut ram) = base(xlen);
                let size = sizes[d[1]];
                let ea = w(tops[d[2]].wrapping_sub(8).wrapping_add(d[3] as u64));
                h.pc = CODE + 0x200;
                h.x[5] = ea;
                h.x[6] = 0x55aa;
                h.x[8] = [DATA + 64, ea & !7, DATA][d[5]];
                let first = if d[4] == 1 {
                    asm::amo(2, size, 9, 8, 0)
                } else {
                    asm::NOP
                };
                lock::put_code(
                    &mut ram,
                    h.pc,
                    &[
                        first,
                        asm::amo(ALL[d[0]], size, 7, 5, if ALL[d[0]] == 2 { 0 } else { 6 }),
                    ],
                );
                // an SC that would fault but holds no reservation may do either
                h.mtvec = CODE + 0x400;
                lock::run(
                    ctx,
                    &h,
                    &ram,
                    2,
                    &[(DATA - 8, 48)],
                    &format!("fault{}", ALL[d[0]]),
                )
            },
        );
        // operands that differ in one bit
        rep.space(
            &format!("bits{xlen}"),
            &[F5.len(), sizes.len(), 6, xlen as usize, 2],
            |ctx, d| {
                let v = [
                    0,
                    u64::MAX,
                    0x5555_5555_5555_5555,
                    0xaaaa_aaaa_aaaa_aaaa,
                    0x8000_0000_8000_0000,
                    0x7fff_ffff_7fff_ffff,
                ][d[2]];
                let o = v ^ 1 << d[3];
                let (a, b) = [(v, o), (o, v)][d[4]];
                let (mut h, mut ram) = base(xlen);
                ram.put(DATA, 8, a);
                h.x[5] = DATA;
                h.x[6] = w(b);
                ram.put(CODE, 4, asm::amo(F5[d[0]], sizes[d[1]], 7, 5, 6) as u64);
                lock::run(
                    ctx,
                    &h,
                    &ram,
                    1,
                    &[(DATA - 8, 24)],
                    &format!("amo{}", F5[d[0]]),
                )
            },
        );
        // a reservation is for one address: all bits of it count
        rep.space(
            &format!("reserved{xlen}"),
            &[sizes.len(), sizes.len(), 31, 2],
            |ctx, d| {
                let other = DATA ^ 1 << d[2];
                let (mut h, mut ram) = base(xlen);
                h.mtvec = CODE + 0x400;
                let (a, b) = [(DATA, other), (other, DATA)][d[3]];
                h.x[5] = a;
                h.x[8] = b;
                h.x[6] = 0x55aa;
                let code = [
                    asm::amo(2, sizes[d[0]], 9, 5, 0),
                    asm::amo(3, sizes[d[1]], 7, 8, 6),
                ];
                lock::put_code(&mut ram, CODE, &code);
                lock::run(ctx, &h, &ram, 2, &[(DATA - 8, 24)], "reserved")
            },
        );
        // reservation protocol: every program of `depth` operations
        let mut al: Vec<(&str, Vec<u32>)> = vec![
            ("lr.w A", vec![asm::amo(2, 4, 10, 8, 0)]),
            ("lr.w B", vec![asm::amo(2, 4, 11, 9, 0)]),
            ("lr.w C", vec![asm::amo(2, 4, 11, 18, 0)]),
            ("sc.w A", vec![asm::amo(3, 4, 12, 8, 6)]),
            ("sc.w B", vec![asm::amo(3, 4, 13, 9, 7)]),
            ("sc.w C rd=x0", vec![asm::amo(3, 4, 0, 18, 7)]),
            ("sw A", vec![asm::store(2, 5, 8, 0)]),
            ("sb B", vec![asm::store(0, 5, 9, 0)]),
            ("amoadd.w A", vec![asm::amo(0, 4, 14, 8, 7)]),
            ("amoswap.w C", vec![asm::amo(1, 4, 14, 18, 7)]),
            ("lw A", vec![asm::load(2, 15, 8, 0)]),
            ("ecall", vec![asm::ECALL]),
            ("sc.w misaligned", vec![asm::amo(3, 4, 12, 19, 6)]),
            ("lr.w misaligned", vec![asm::amo(2, 4, 12, 19, 0)]),
            ("sc.w unmapped", vec![asm::amo(3, 4, 12, 20, 6)]),
        ];
        if xlen == 64 {
            al.extend([
                ("lr.d A", vec![asm::amo(2, 8, 16, 8, 0)]),
                ("sc.d A", vec![asm::amo(3, 8, 17, 8, 6)]),
                ("sd A", vec![asm::store(3, 5, 8, 0)]),
            ]);
        }
        let n = al.len();
        let deep = if rep.thorough { n } else { 1 };
        let name = format!("protocol{xlen}");
        rep.space(&name, &[n, n, n, n, n, deep], |ctx, d| {
            let (mut h, mut ram) = base(xlen);
            h.x[8] = DATA;
            h.x[9] = DATA + 4;
            h.x[18] = DATA + 64;
            h.x[19] = DATA + 2;
            h.x[20] = 0x4000_0000;
            h.x[5] = w(0x5151_5151_5252_5252);
            h.x[6] = w(0x6161_6161_6262_6262);
            h.x[7] = w(0x7171_7171_7272_7272);
            ram.put(DATA, 8, 0x8000_0000_8000_0001);
            // traps skip the instruction: mepc += 4; mret
            h.mtvec = CODE + 0x400;
            lock::put_code(
                &mut ram,
                h.mtvec,
                &[
                    asm::csr(2, 28, 0x341, 0),
                    asm::addi(28, 28, 4),
                    asm::csr(1, 0, 0x341, 28),
                    asm::MRET,
                ],
            );
            let len = if deep == 1 { 5 } else { 6 };
            let mut code = vec![];
            for &k in &d[..len] {
                code.extend(&al[k].1);
            }
            lock::put_code(&mut ram, CODE, &code);
            h.mstatus = 0x1800;
            let traps = d[..len]
                .iter()
                .filter(|&&k| {
                    matches!(
                        al[k].0,
                        "ecall" | "sc.w misaligned" | "lr.w misaligned" | "sc.w unmapped"
                    )
                })
                .count();
            lock::run(
                ctx,
                &h,
                &ram,
                code.len() + 4 * traps,
                &[(DATA - 16, 96)],
                "protocol",
            )
            .map_err(|(k, t)| {
                (
                    k,
                    format!(
                        "program: {:?}\n{t}",
                        d[..len].iter().map(|&k| al[k].0).collect::<Vec<_>>()
                    ),
                )
            })
        });
    }
    rep.sample(
        "RV64 program [lr.w A, sw A, sc.w A, sc.w A]: second sc must fail, first is left open"
            .into(),
    );
    rep.sample(
        "RV32 amomin.w on mem=0x80000000, rs2=0x7fffffff -> mem 0x80000000, rd=0x80000000".into(),
    );
}
