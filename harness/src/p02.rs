//! P02: every instruction word is its ISA operation or an illegal-instruction trap.
use crate::drv::{CaseResult, Ctx, Report};
use crate::lock::{self, CODE, DATA};
use crate::model::{Hart, Ram};

fn start(xlen: u32, prv: u8) -> Hart {
    let mut h = Hart::new(xlen);
    h.pc = CODE + 0x8000;
    h.prv = prv;
    h.mtvec = CODE + 0x200;
    h.stvec = CODE + 0x300;
    h.mepc = CODE + 0x400;
    h.sepc = CODE + 0x500;
    h.mstatus = 0x1800 | 0x100;
    for i in 1..32u64 {
        h.x[i as usize] = DATA + i * 0x1040;
    }
    h
}

fn one(ctx: &mut Ctx, xlen: u32, prv: u8, w: u32, ilen: u64) -> CaseResult {
    let h = start(xlen, prv);
    let mut ram = Ram::default();
    ram.put(h.pc, ilen, w as u64);
    let key = if ilen == 2 {
        format!("c{}.{}", w & 3, w >> 13)
    } else {
        format!("op{:02x}.{}", w & 0x7f, w >> 12 & 7)
    };
    lock::run(ctx, &h, &ram, 1, &[], &key).map_err(|(k, t)| (k, format!("word {w:#x}: {t}")))
}

pub fn run(rep: &Report) {
    rep.note("every 16-bit encoding in every privilege mode; thorough: every 32-bit word in machine mode; quick: every major opcode, funct3, funct7 and rs2 with rd and rs1 from small sets");
    rep.note("CSR addresses the model does not define may either trap or act (platform freedom); they are still required not to abort");
    for xlen in [32u32, 64] {
        rep.space(&format!("halfwords{xlen}"), &[3, 65536], |ctx, d| {
            let w = d[1] as u32;
            if w & 3 == 3 {
                return Ok(());
            }
            one(ctx, xlen, [0, 1, 3][d[0]], w, 2)
        });
        let rds = [0u32, 1, 2, 31];
        let rs1s = [0u32, 1, 2, 30];
        rep.space(
            &format!("fields{xlen}"),
            &[32, 8, 128, 32, rds.len(), rs1s.len()],
            |ctx, d| {
                let w = (d[2] as u32) << 25
                    | (d[3] as u32) << 20
                    | rs1s[d[5]] << 15
                    | (d[1] as u32) << 12
                    | rds[d[4]] << 7
                    | (d[0] as u32) << 2
                    | 3;
                one(ctx, xlen, 3, w, 4)
            },
        );
        // SYSTEM, AMO, FENCE and JALR in the lower modes, all rd/rs1
        let ops = [0x73u32, 0x2f, 0x0f, 0x67];
        rep.space(
            &format!("system{xlen}"),
            &[ops.len(), 2, 4096, 8, 4, 4],
            |ctx, d| {
                let w = (d[2] as u32) << 20
                    | rs1s[d[4]] << 15
                    | (d[3] as u32) << 12
                    | rds[d[5]] << 7
                    | ops[d[0]];
                one(ctx, xlen, d[1] as u8, w, 4)
            },
        );
        rep.space(
            &format!("regfields{xlen}"),
            &[32, 8, 3, 32, 32, 32],
            |ctx, d| {
                let op = (d[0] as u32) << 2 | 3;
                let f7 = [0u32, 0x20, 1][d[2]];
                if !rep.thorough && (d[3] + d[4] + d[5]) % 4 != 0 {
                    return Ok(());
                }
                let w = f7 << 25
                    | (d[3] as u32) << 20
                    | (d[4] as u32) << 15
                    | (d[1] as u32) << 12
                    | (d[5] as u32) << 7
                    | op;
                one(ctx, xlen, 3, w, 4)
            },
        );
        if rep.thorough {
            rep.space(&format!("words{xlen}"), &[1 << 15, 1 << 15], |ctx, d| {
                one(ctx, xlen, 3, (d[0] << 17 | d[1] << 2 | 3) as u32, 4)
            });
        }
    }
}
