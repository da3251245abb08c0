//! The implementation under test: one real carron `Cpu`, driven step by step.
use crate::elf;
use crate::model::{Hart, Ram, MST_DEFINED, RAM_BASE};
use carron::bus::Device;
use carron::cmdline::{Arguments, ExeOption};
use carron::cpu::Cpu;
use carron::elfload::ElfLoader;
use carron::Isa;
use std::panic::{catch_unwind, AssertUnwindSafe};
use std::sync::atomic::{AtomicU64, Ordering};

pub const MTIME: u64 = 0x0200_bff8;
pub const MSIP: u64 = 0x0200_0000;
pub const PLIC: u64 = 0x0c00_0000;
pub const MTIMECMP: u64 = 0x0200_4000;

/// also compare PMP and trigger CSRs after every step
pub static FULL_DIFF: std::sync::atomic::AtomicBool = std::sync::atomic::AtomicBool::new(false);

pub struct Imp {
    pub cpu: Cpu,
    pub xlen: u32,
    plic_lines: u64,
}

pub fn args_for(path: &str) -> Arguments {
    Arguments {
        filename: path.to_string(),
        exe_option: ExeOption::OPT_DEFAULT,
        pk_path: None,
        kernel_path: None,
        initrd_path: None,
        init_pc: None,
        main_args: Vec::new(),
    }
}

static NEXT: AtomicU64 = AtomicU64::new(0);
pub fn scratch_path(tag: &str) -> String {
    let n = NEXT.fetch_add(1, Ordering::SeqCst);
    format!(
        "{}/carron-mc-{}-{}-{}",
        scratch_dir(),
        std::process::id(),
        tag,
        n
    )
}
pub fn scratch_dir() -> String {
    std::env::var("CARRON_MC_SCRATCH")
        .unwrap_or_else(|_| std::env::temp_dir().to_string_lossy().into_owned())
}

/// Load an ELF image through the real loader.
pub fn loader_for(image: &[u8]) -> ElfLoader {
    let p = scratch_path("elf");
    std::fs::write(&p, image).expect("scratch elf");
    let l = ElfLoader::try_new(&p).expect("open scratch elf");
    let _ = std::fs::remove_file(&p);
    l
}

#[derive(Debug, Clone, PartialEq, Eq)]
pub enum StepRes {
    Ok,
    Panic(String),
}

thread_local! {
    pub static LAST_PANIC: std::cell::RefCell<String> = const { std::cell::RefCell::new(String::new()) };
}
pub fn guard<R>(f: impl FnOnce() -> R) -> Result<R, String> {
    catch_unwind(AssertUnwindSafe(f)).map_err(|_| LAST_PANIC.with(|p| p.borrow().clone()))
}

impl Imp {
    pub fn new(xlen: u32) -> Imp {
        let image = elf::Elf::new(xlen).seg(RAM_BASE, vec![0; 4], 4).build();
        Imp::with_image(xlen, &image)
    }
    pub fn with_image(xlen: u32, image: &[u8]) -> Imp {
        let loader = loader_for(image);
        let isa = loader.target_arch();
        assert!(matches!((isa, xlen), (Isa::Rv32, 32) | (Isa::Rv64, 64)));
        let cpu = Cpu::new(loader, &args_for("x"), isa);
        let mut imp = Imp {
            cpu,
            xlen,
            plic_lines: 0,
        };
        imp.timer(0, u64::MAX);
        imp
    }
    pub fn timer(&mut self, mtime: u64, cmp: u64) {
        self.cpu.bus.clint.store64(MTIME, mtime).unwrap();
        self.cpu.bus.clint.store64(MTIMECMP, cmp).unwrap();
    }
    /// Drive the interrupt lines: mip bits 3 and 7 from the CLINT, 9 and 11 from the PLIC.
    /// (The emulator raises STIP, bit 5, together with MTIP.)
    pub fn lines(&mut self, mip: u64) {
        self.timer(0, if mip & 0x80 != 0 { 0 } else { u64::MAX });
        self.cpu.bus.clint.store32(MSIP, mip >> 3 & 1).unwrap();
        if mip & 0xa00 != self.plic_lines {
            self.plic_lines = mip & 0xa00;
            let p = &mut self.cpu.bus.plic;
            *p = Default::default();
            for (bit, ctx) in [(11, 0u64), (9, 1)] {
                if mip >> bit & 1 == 1 {
                    // source 1 for M, source 2 for S
                    let src = ctx + 1;
                    p.store32(PLIC + 4 * src, 1).unwrap();
                    p.store32(PLIC + 0x2000 + 0x80 * ctx, 1 << src).unwrap();
                }
            }
            for src in [1u32, 2] {
                p.set_interrupt_level(src, 1);
            }
        }
    }
    pub fn set_x(&mut self, i: usize, v: u64) {
        self.cpu.regs.write(Some(i), v);
    }
    pub fn x(&self, i: usize) -> u64 {
        self.cpu.regs.read(Some(i))
    }
    pub fn pc(&self) -> u64 {
        if self.xlen == 32 {
            self.cpu.pc() & 0xffff_ffff
        } else {
            self.cpu.pc()
        }
    }
    pub fn put8(&mut self, pa: u64, v: u8) {
        self.cpu.bus.dram.store8(pa, v as u64).unwrap();
    }
    pub fn get8(&self, pa: u64) -> u8 {
        self.cpu.bus.dram.load_u8(pa).unwrap() as u8
    }
    pub fn csr(&self, n: usize) -> u64 {
        self.cpu.verif_csr(n)
    }
    pub fn set_csr(&mut self, n: usize, v: u64) {
        self.cpu.verif_set_csr(n, v)
    }

    /// Put the implementation into the model's state.
    pub fn load(&mut self, h: &Hart) {
        let c = &mut self.cpu;
        c.verif_set_pc(0);
        c.verif_reset();
        for i in 1..32 {
            if h.x[i] != 0 {
                c.regs.write(Some(i), h.x[i]);
            }
        }
        c.verif_set_pc(h.pc);
        c.verif_set_priv(h.prv);
        let mut w = |n: usize, v: u64| {
            if v != 0 {
                c.verif_set_csr(n, v)
            }
        };
        w(0x300, h.mstatus);
        w(0x302, h.medeleg);
        w(0x303, h.mideleg);
        w(0x304, h.mie);
        w(0x305, h.mtvec);
        w(0x306, h.mcounteren);
        w(0x340, h.mscratch);
        w(0x341, h.mepc);
        w(0x342, h.mcause);
        w(0x343, h.mtval);
        w(0x344, h.mip);
        w(0x105, h.stvec);
        w(0x106, h.scounteren);
        w(0x140, h.sscratch);
        w(0x141, h.sepc);
        w(0x142, h.scause);
        w(0x143, h.stval);
        w(0x180, h.satp);
        w(0xc01, h.time);
        for i in 0..16 {
            w(0x3b0 + i, h.pmpaddr[i]);
        }
        for i in 0..4 {
            if h.xlen == 32 || i % 2 == 0 {
                w(0x3a0 + i, h.csr_read(0x3a0 + i as u32));
            }
        }
        let mut touched = false;
        for i in 0..8 {
            if h.tdata1[i] != 0 || h.tdata2[i] != 0 {
                touched = true;
                c.verif_set_csr(0x7a0, i as u64);
                c.verif_set_csr(0x7a2, h.tdata2[i]);
                c.verif_set_csr(0x7a1, h.tdata1[i]);
            }
        }
        if touched || h.tselect != 0 {
            c.verif_set_csr(0x7a0, h.tselect);
        }
    }
    pub fn load_ram(&mut self, r: &Ram) {
        for &(a, b) in &r.bytes {
            self.put8(a, b);
        }
    }
    /// forget everything the case wrote
    pub fn clear_ram(&mut self, r: &Ram) {
        for &(a, _) in &r.bytes {
            self.put8(a, 0);
        }
    }

    /// One iteration of the emulation loop body: execute, and take the trap if any.
    pub fn step(&mut self) -> StepRes {
        let cpu = &mut self.cpu;
        match guard(|| match cpu.exec_one_cycle() {
            Ok(()) => {}
            Err((addr, cause, _)) => {
                let t = addr.unwrap_or(cpu.pc());
                cpu.trap(t, cause)
            }
        }) {
            Ok(()) => StepRes::Ok,
            Err(m) => StepRes::Panic(m),
        }
    }

    /// First difference between the model state and the implementation.
    pub fn diff(&self, h: &Hart) -> Option<String> {
        if self.pc() != h.w(h.pc) {
            return Some(format!(
                "pc: spec {:#x}, carron {:#x}",
                h.w(h.pc),
                self.pc()
            ));
        }
        if self.cpu.verif_priv() != h.prv {
            return Some(format!(
                "privilege: spec {}, carron {}",
                h.prv,
                self.cpu.verif_priv()
            ));
        }
        for i in 0..32 {
            if self.x(i) != h.x[i] {
                return Some(format!("x{i}: spec {:#x}, carron {:#x}", h.x[i], self.x(i)));
            }
        }
        let ms = self.csr(0x300);
        if (ms ^ h.mstatus) & MST_DEFINED != 0 {
            return Some(format!(
                "mstatus: spec {:#x}, carron {:#x}",
                h.mstatus & MST_DEFINED,
                ms
            ));
        }
        if self.xlen == 64 && ms >> 32 & 15 != 10 {
            return Some(format!("mstatus.SXL/UXL changed: {ms:#x}"));
        }
        for &(n, name) in CSRS {
            let (a, b) = (h.csr_read(n), self.csr(n as usize));
            if a != b {
                return Some(format!("{name}: spec {a:#x}, carron {b:#x}"));
            }
        }
        if FULL_DIFF.load(Ordering::Relaxed) {
            let odd = |n: u32| self.xlen == 64 && n & 1 == 1;
            for n in (0x3a0..0x3a4)
                .filter(|&n| !odd(n))
                .chain(0x3b0..0x3c0)
                .chain(0x7a0..0x7a3)
            {
                let (a, b) = (h.csr_read(n), self.csr(n as usize));
                if a != b {
                    return Some(format!("csr {n:#x}: spec {a:#x}, carron {b:#x}"));
                }
            }
        }
        None
    }
    pub fn diff_ram(&self, r: &Ram, watch: &[(u64, u64)]) -> Option<String> {
        for &(a, b) in &r.bytes {
            let v = self.get8(a);
            if v != b {
                return Some(format!("memory byte {a:#x}: spec {b:#x}, carron {v:#x}"));
            }
        }
        for &(base, len) in watch {
            for a in base..base + len {
                let v = self.get8(a);
                if v != 0 && v != r.byte(a) {
                    return Some(format!(
                        "memory byte {a:#x}: spec {:#x}, carron {v:#x}",
                        r.byte(a)
                    ));
                }
            }
        }
        None
    }
}

/// CSRs compared after every step (mstatus and mip are treated separately).
pub const CSRS: &[(u32, &str)] = &[
    (0x302, "medeleg"),
    (0x303, "mideleg"),
    (0x304, "mie"),
    (0x305, "mtvec"),
    (0x306, "mcounteren"),
    (0x340, "mscratch"),
    (0x341, "mepc"),
    (0x342, "mcause"),
    (0x343, "mtval"),
    (0x105, "stvec"),
    (0x106, "scounteren"),
    (0x140, "sscratch"),
    (0x141, "sepc"),
    (0x142, "scause"),
    (0x143, "stval"),
    (0x180, "satp"),
];
