//! Instruction encoders.
#![allow(dead_code)]
pub fn r(f7: u32, rs2: u32, rs1: u32, f3: u32, rd: u32, op: u32) -> u32 {
    f7 << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
}
pub fn i(imm: i32, rs1: u32, f3: u32, rd: u32, op: u32) -> u32 {
    (imm as u32 & 0xfff) << 20 | rs1 << 15 | f3 << 12 | rd << 7 | op
}
pub fn s(imm: i32, rs2: u32, rs1: u32, f3: u32, op: u32) -> u32 {
    let imm = imm as u32;
    (imm >> 5 & 0x7f) << 25 | rs2 << 20 | rs1 << 15 | f3 << 12 | (imm & 31) << 7 | op
}
pub fn b(off: i32, rs2: u32, rs1: u32, f3: u32) -> u32 {
    let o = off as u32;
    (o >> 12 & 1) << 31
        | (o >> 5 & 0x3f) << 25
        | rs2 << 20
        | rs1 << 15
        | f3 << 12
        | (o >> 1 & 15) << 8
        | (o >> 11 & 1) << 7
        | 0x63
}
pub fn j(off: i32, rd: u32) -> u32 {
    let o = off as u32;
    (o >> 20 & 1) << 31
        | (o >> 1 & 0x3ff) << 21
        | (o >> 11 & 1) << 20
        | (o >> 12 & 0xff) << 12
        | rd << 7
        | 0x6f
}
pub fn u(imm20: u32, rd: u32, op: u32) -> u32 {
    imm20 << 12 | rd << 7 | op
}
pub fn addi(rd: u32, rs1: u32, imm: i32) -> u32 {
    i(imm, rs1, 0, rd, 0x13)
}
pub fn lui(rd: u32, imm20: u32) -> u32 {
    u(imm20 & 0xfffff, rd, 0x37)
}
/// f3: 1 rw, 2 rs, 3 rc, 5 rwi, 6 rsi, 7 rci
pub fn csr(f3: u32, rd: u32, csr: u32, src: u32) -> u32 {
    csr << 20 | src << 15 | f3 << 12 | rd << 7 | 0x73
}
pub fn amo(f5: u32, size: u64, rd: u32, rs1: u32, rs2: u32) -> u32 {
    r(f5 << 2, rs2, rs1, if size == 4 { 2 } else { 3 }, rd, 0x2f)
}
pub fn load(f3: u32, rd: u32, rs1: u32, imm: i32) -> u32 {
    i(imm, rs1, f3, rd, 0x03)
}
pub fn store(f3: u32, rs2: u32, rs1: u32, imm: i32) -> u32 {
    s(imm, rs2, rs1, f3, 0x23)
}
pub const ECALL: u32 = 0x73;
pub const EBREAK: u32 = 0x0010_0073;
pub const MRET: u32 = 0x3020_0073;
pub const SRET: u32 = 0x1020_0073;
pub const WFI: u32 = 0x1050_0073;
pub const NOP: u32 = 0x13;
pub const SFENCE: u32 = 0x1200_0073;
