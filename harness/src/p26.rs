//! P26: the command line. Every case is one run of the real command line program with images that
//! report what they were started with: which image, from which address, with which arguments,
//! kernel and ramdisk.
use crate::asm::*;
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::e2e::{run_env, Asm, Dir, Out, BASE, FROMHOST, TOHOST};
use crate::elf::Elf;
use crate::p21::{Arg::V, Parts};

const DATA: u64 = 0x8000_8000;
const ARGS: u64 = 1024;
const KERNEL: &[u8; 8] = b"kernel!\n";
const KERNEL2: &[u8; 8] = b"--kern2\n";
const DISK: &[u8; 16] = b"ramdisk contents";
const DISK_AT: u64 = 0x1_0000_0000 - 0x1000 - 16;
fn kernel_at(xlen: u32) -> u64 {
    BASE + if xlen == 32 { 0x40_0000 } else { 0x20_0000 }
}

/// an image that reports; `tag` tells images apart
fn reporter(xlen: u32, tag: u8) -> Vec<u8> {
    let mut a = Asm::new(xlen);
    for k in 0..4 {
        while a.here() < BASE + 0x40 * k {
            a.w(NOP);
        }
        a.w(addi(9, 0, b'0' as i32 + k as i32));
        a.jal(0, "main");
    }
    a.label("main");
    a.putc(b'@').putc(b'@').putc(tag);
    a.li(31, crate::e2e::UART).w(store(0, 9, 31, 0));
    a.sys(2011, [V(DATA), V(ARGS), V(0), V(0), V(0)]);
    a.sys(64, [V(1), V(DATA), V(ARGS), V(0), V(0)]);
    a.sys(64, [V(1), V(kernel_at(xlen)), V(8), V(0), V(0)]);
    a.sys(64, [V(1), V(DISK_AT), V(16), V(0), V(0)]);
    a.exit(1);
    let code = a.build();
    let n = code.len() as u64;
    Elf::new(xlen)
        .seg(BASE, code, n)
        .sym("tohost", TOHOST)
        .sym("fromhost", FROMHOST)
        .build()
}

/// what a run has to report
struct Want<'a> {
    tag: u8,
    entry: u8,
    args: Vec<&'a str>,
    kernel: [u8; 8],
    disk: [u8; 16],
}
fn agrees(o: &Out, w: &Want) -> Result<(), String> {
    let Some(r) = o.after(b"@@") else {
        return Err(format!("the image was not run: {}", o.show()));
    };
    if o.code != Some(1) || r.len() != 2 + ARGS as usize + 24 {
        return Err(format!("report of {} bytes, {}", r.len(), o.show()));
    }
    if r[0] != w.tag {
        return Err(format!("ran image {:?}", r[0] as char));
    }
    if r[1] != b'0' + w.entry {
        return Err(format!("started at entry {:?}", r[1] as char));
    }
    let m = &r[2..2 + ARGS as usize];
    let q = |k: usize| u64::from_le_bytes(m[8 * k..8 * k + 8].try_into().unwrap());
    let n = q(0) as usize;
    let mut got = vec![];
    for k in 0..n.min(20) {
        let p = q(k + 1).wrapping_sub(DATA) as usize;
        if p >= m.len() {
            return Err(format!("argument {k} of {n} is at {:#x}", q(k + 1)));
        }
        got.push(
            m[p..]
                .iter()
                .take_while(|&&c| c != 0)
                .copied()
                .collect::<Vec<u8>>(),
        );
    }
    let show = |v: &[Vec<u8>]| -> Vec<String> {
        v.iter()
            .map(|s| String::from_utf8_lossy(s).into_owned())
            .collect()
    };
    if got.len() != w.args.len() || got.iter().zip(&w.args).any(|(g, a)| g != a.as_bytes()) {
        return Err(format!("arguments {:?}, expected {:?}", show(&got), w.args));
    }
    let t = &r[2 + ARGS as usize..];
    if t[..8] != w.kernel {
        return Err(format!("kernel place holds {:?}", &t[..8]));
    }
    if t[8..] != w.disk {
        return Err(format!("ramdisk place holds {:?}", &t[8..]));
    }
    Ok(())
}
/// refused: a non-zero status, in time, and nothing was run or inspected
fn refused(o: &Out) -> Result<(), String> {
    let ran = o.after(b"@@").is_some();
    if ran || o.timed_out || !matches!(o.code, Some(c) if c != 0) || o.after(b"magic").is_some() {
        return Err(format!("not refused: {}", o.show()));
    }
    Ok(())
}

fn dir(xlen: u32) -> Dir {
    let d = Dir::new();
    d.put("prog", &reporter(xlen, b'P'));
    d.put("pk", &reporter(xlen, b'K'));
    d.put("kern", KERNEL);
    d.put("kern2", KERNEL2);
    d.put("disk", DISK);
    d.put("my prog", &reporter(xlen, b'S'));
    d.put("-prog", &reporter(xlen, b'D'));
    d.put("--pk", &reporter(xlen, b'L'));
    d.put("empty", b"");
    d.put("text", b"#!/bin/sh\necho no image here, whatever this is\n");
    std::fs::create_dir(format!("{}/sub", d.0)).unwrap();
    d.put("sub/prog", &reporter(xlen, b'U'));
    d
}
fn verdict(key: &str, xlen: u32, args: &[&str], r: Result<(), String>) -> CaseResult {
    match r {
        Ok(()) => Ok(()),
        Err(e) => bad(key, format!("RV{xlen}, carron {args:?}: {e}")),
    }
}
fn carron(d: &Dir, args: &[&str]) -> Out {
    run_env(d, "carron-cli", args, &[], 60.0)
}

/// one occurrence of an option with a value: absent, or (form) x (place)
fn options(
    cx: &mut Ctx,
    dirs: &[Dir; 2],
    x: usize,
    d: &[usize],
    nargs: usize,
    rev: bool,
) -> CaseResult {
    let xlen = [32, 64][x];
    let opts = [
        ("--pk", "pk"),
        ("--kernel", "kern"),
        ("--initrd", "disk"),
        ("--pc", "0x80000040"),
        ("--loglv", "nolog"),
    ];
    let mut at: [Vec<String>; 3] = Default::default();
    let order: Vec<usize> = if rev {
        (0..d.len()).rev().collect()
    } else {
        (0..d.len()).collect()
    };
    for k in order {
        let (form, place) = match d[k] {
            0 => continue,
            c => ((c - 1) / 3, (c - 1) % 3),
        };
        let (o, v) = opts[k];
        if form == 0 {
            at[place].push(format!("{o}={v}"));
        } else {
            at[place].extend([o.to_string(), v.to_string()]);
        }
    }
    let given = ["one", "two two"];
    let mut args: Vec<&str> = at[0].iter().map(|s| s.as_str()).collect();
    args.push("prog");
    args.extend(at[1].iter().map(|s| s.as_str()));
    args.extend(&given[..nargs]);
    args.extend(at[2].iter().map(|s| s.as_str()));
    let on = |k: usize| d.get(k).is_some_and(|&c| c > 0);
    let mut want = vec!["prog"];
    if on(0) {
        want.insert(0, "pk");
    }
    want.extend(&given[..nargs]);
    let w = Want {
        tag: if on(0) { b'K' } else { b'P' },
        entry: on(3) as u8,
        args: want,
        kernel: if on(1) { *KERNEL } else { [0; 8] },
        disk: if on(2) { *DISK } else { [0; 16] },
    };
    let o = carron(&dirs[x], &args);
    cx.step_done();
    cx.trace_done();
    cx.state(&(&args, x));
    verdict("options", xlen, &args, agrees(&o, &w))
}

pub fn run(r: &Report) {
    r.note("options may stand anywhere before `--`, as `--option=value` or `--option value`; what a repeated --pk, --kernel, --initrd, --pc or --loglv means is not specified");
    r.note("operands that begin with a hyphen have to follow `--`; an unknown log level may be refused or taken for none");
    let dirs = [dir(32), dir(64)];
    let one = |cx: &mut Ctx, x: usize, args: &[&str]| -> Out {
        cx.step_done();
        cx.trace_done();
        cx.state(&(args, x));
        carron(&dirs[x], args)
    };
    // which options, in which form, where, in which order
    if r.thorough {
        r.space("options", &[2, 7, 7, 7, 7, 7, 2, 3], |c, d| {
            options(c, &dirs, d[0], &d[1..6], d[7], d[6] == 1)
        });
    } else {
        r.space("options", &[7, 7, 7, 7, 7, 2], |c, d| {
            let sum = d.iter().sum::<usize>();
            options(c, &dirs, sum % 2, &d[..5], sum / 2 % 3, d[5] == 1)
        });
    }

    // operands
    const OPERANDS: [&str; 16] = [
        "a",
        "",
        "two words",
        "-",
        "-x",
        "--pc",
        "--",
        "-e",
        "é",
        "a=b",
        "*",
        "$HOME",
        "\\",
        "'\"",
        "--kernel=kern2",
        "0x80000040",
    ];
    let lens = if r.thorough { 4 } else { 3 };
    for n in 0..=lens {
        let mut dims = vec![2, 2, 2];
        dims.extend(vec![OPERANDS.len(); n]);
        r.space(&format!("operands-{n}"), &dims, |c, d| {
            let (x, pk, sep) = (d[0], d[1] == 1, d[2] == 1);
            let ops: Vec<&str> = d[3..].iter().map(|&k| OPERANDS[k]).collect();
            let hyphen = |s: &&str| s.len() > 1 && s.starts_with('-');
            let mut args = if pk { vec!["--pk", "pk"] } else { vec![] };
            args.push("prog");
            let mut want = if pk { vec!["pk", "prog"] } else { vec!["prog"] };
            if sep {
                args.push("--");
            } else if ops.iter().any(|s| hyphen(s)) {
                return Ok(()); // options, see the other spaces
            }
            args.extend(&ops);
            want.extend(&ops);
            let o = one(c, x, &args);
            let w = Want {
                tag: if pk { b'K' } else { b'P' },
                entry: 0,
                args: want,
                kernel: [0; 8],
                disk: [0; 16],
            };
            verdict("operands", [32, 64][x], &args, agrees(&o, &w))
        });
    }

    // names of images: in other directories, with blanks and hyphens
    const NAMES: [(&str, u8); 7] = [
        ("prog", b'P'),
        ("./prog", b'P'),
        ("sub/prog", b'U'),
        ("sub/../pk", b'K'),
        ("my prog", b'S'),
        ("./-prog", b'D'),
        ("./--pk", b'L'),
    ];
    r.space("names", &[2, 7, 8, 2], |c, d| {
        let (name, t) = NAMES[d[1]];
        let mut args = vec![];
        let mut want = vec![];
        let mut tag = t;
        if d[2] > 0 {
            args.extend(["--pk", NAMES[d[2] - 1].0]);
            want.push(NAMES[d[2] - 1].0);
            tag = NAMES[d[2] - 1].1;
        }
        if d[3] == 1 {
            args.push("--");
        }
        args.extend([name, "x"]);
        want.extend([name, "x"]);
        let o = one(c, d[0], &args);
        let w = Want {
            tag,
            entry: 0,
            args: want,
            kernel: [0; 8],
            disk: [0; 16],
        };
        verdict("names", [32, 64][d[0]], &args, agrees(&o, &w))
    });

    // every way to write an address
    r.space("pc", &[2, 4, 8, 2], |c, d| {
        let pc = BASE + 0x40 * d[1] as u64;
        let v = match d[2] {
            0 => format!("0x{pc:x}"),
            1 => format!("{pc:x}"),
            2 => format!("0x{pc:016x}"),
            3 => format!("{pc:016x}"),
            4 => format!("0x{pc:X}"),
            5 => format!("{pc:X}"),
            6 => format!("0x{pc:020x}"),
            _ => format!("{pc:030x}"),
        };
        let joined = format!("--pc={v}");
        let args = if d[3] == 0 {
            vec![joined.as_str(), "prog"]
        } else {
            vec!["--pc", &v, "prog"]
        };
        let o = one(c, d[0], &args);
        let w = Want {
            tag: b'P',
            entry: d[1] as u8,
            args: vec!["prog"],
            kernel: [0; 8],
            disk: [0; 16],
        };
        verdict("pc", [32, 64][d[0]], &args, agrees(&o, &w))
    });

    // an address that is none is refused
    const NO_ADDR: [&str; 16] = [
        "",
        "0x",
        "zz",
        "0xzz",
        "8000004g",
        "-1",
        "80000040h",
        "0x80000040 ",
        " 80000040",
        "0x1_0000",
        "10000000000000000",
        "0x10000000080000000",
        "0b1",
        "main",
        "0x8000.0",
        "0x-1",
    ];
    r.space("no-address", &[2, NO_ADDR.len(), 2], |c, d| {
        let joined = format!("--pc={}", NO_ADDR[d[1]]);
        let args = if d[2] == 0 {
            vec![joined.as_str(), "prog"]
        } else {
            vec!["prog", joined.as_str()]
        };
        // ...as far as it is not hexadecimal after all
        if NO_ADDR[d[1]] == "0b1" {
            return Ok(());
        }
        let o = one(c, d[0], &args);
        verdict("no-address", [32, 64][d[0]], &args, refused(&o))
    });

    // a good address with one character inserted or exchanged: still hexadecimal, or refused
    const ODD: [char; 13] = [
        'x', 'X', '0', 'g', '-', '+', ' ', '_', '.', ',', 'h', '\t', '8',
    ];
    const GOOD: [&str; 3] = ["80000040", "0x80000040", "0x0000000080000040"];
    r.space("odd-address", &[2, 3, 19, ODD.len(), 2], |c, d| {
        let g = GOOD[d[1]];
        if d[2] + d[4] > g.len() {
            return Ok(());
        }
        let v = format!("{}{}{}", &g[..d[2]], ODD[d[3]], &g[d[2] + d[4]..]);
        // what is hexadecimal with an optional 0x is another space's
        let digits = v.strip_prefix("0x").unwrap_or(&v);
        let plus = digits.strip_prefix('+').unwrap_or(digits);
        if plus.chars().all(|c| c.is_ascii_hexdigit()) && !plus.is_empty() {
            if u64::from_str_radix(plus, 16) != Ok(BASE + 0x40) || plus != digits {
                return Ok(());
            }
            let o = one(c, d[0], &[&format!("--pc={v}"), "prog"]);
            let w = Want {
                tag: b'P',
                entry: 1,
                args: vec!["prog"],
                kernel: [0; 8],
                disk: [0; 16],
            };
            return verdict("pc", [32, 64][d[0]], &[&v], agrees(&o, &w));
        }
        // an upper-case prefix, or the prefix twice, may be one
        if v.replace("0x", "")
            .chars()
            .all(|c| c.is_ascii_hexdigit() || c == 'X')
            && !v.starts_with('x')
        {
            return Ok(());
        }
        let args = [&*format!("--pc={v}"), "prog"];
        let o = one(c, d[0], &args);
        verdict("no-address", [32, 64][d[0]], &args, refused(&o))
    });

    // what cannot be opened, or is no image, is refused
    const BAD: [&str; 4] = ["missing", "sub", "prog/prog", "missing/prog"];
    r.space("unreadable", &[2, 4, BAD.len() + 2, 2], |c, d| {
        let f = [&BAD[..], &["empty", "text"]].concat()[d[2]];
        let extra = if d[3] == 1 { vec!["x"] } else { vec![] };
        let mut args = match d[1] {
            0 => vec![f],
            1 => vec!["--kernel", f, "prog"],
            2 => vec!["--initrd", f, "prog"],
            _ => vec!["--pk", f, "prog"],
        };
        // a kernel or ramdisk may hold anything; an empty one is not specified
        if matches!(d[1], 1 | 2) && d[2] >= BAD.len() {
            return Ok(());
        }
        args.extend(extra);
        let o = one(c, d[0], &args);
        verdict("unreadable", [32, 64][d[0]], &args, refused(&o))
    });
    // the program a proxy kernel is to run is for the proxy kernel to open
    r.space("proxy", &[2, BAD.len() + 2, 2], |c, d| {
        let f = [&BAD[..], &["empty", "text"]].concat()[d[1]];
        let args = if d[2] == 0 {
            vec!["--pk", "pk", f, "x"]
        } else {
            vec![f, "x", "--pk=pk"]
        };
        let o = one(c, d[0], &args);
        let w = Want {
            tag: b'K',
            entry: 0,
            args: vec!["pk", f, "x"],
            kernel: [0; 8],
            disk: [0; 16],
        };
        verdict("proxy", [32, 64][d[0]], &args, agrees(&o, &w))
    });

    // options that contradict each other, are unknown or incomplete are refused
    const SHOW: [&str; 10] = [
        "-e",
        "--elfhead",
        "-p",
        "--program",
        "-s",
        "--section",
        "-d",
        "--disasem",
        "-a",
        "--all",
    ];
    r.space("contradictions", &[2, 10, 10, 3], |c, d| {
        if d[1] / 2 == d[2] / 2 {
            return Ok(());
        }
        let (a, b) = (SHOW[d[1]], SHOW[d[2]]);
        let merged = format!("{a}{}", &b[1..]);
        let args = match d[3] {
            0 => vec![a, b, "prog"],
            1 => vec![a, "prog", b],
            _ if a.len() == 2 && b.len() == 2 => vec![merged.as_str(), "prog"],
            _ => return Ok(()),
        };
        let o = one(c, d[0], &args);
        verdict("contradictions", [32, 64][d[0]], &args, refused(&o))
    });
    const WRONG: [&[&str]; 16] = [
        &[],
        &["--"],
        &["-x", "prog"],
        &["prog", "-x"],
        &["--nothing", "prog"],
        &["prog", "--nothing=1"],
        &["prog", "--pk"],
        &["prog", "--kernel"],
        &["prog", "--initrd"],
        &["prog", "--pc"],
        &["prog", "--loglv"],
        &["--elfhead=1", "prog"],
        &["-ex", "prog"],
        &["--pk", "pk"],
        &["--kernel", "kern", "--initrd", "disk"],
        &["-e"],
    ];
    r.space("wrong", &[2, WRONG.len()], |c, d| {
        let o = one(c, d[0], WRONG[d[1]]);
        verdict("wrong", [32, 64][d[0]], WRONG[d[1]], refused(&o))
    });

    // inspection: of the image that would be run, and it is not run
    r.space("inspect", &[2, 10, 2, 2, 3, 2], |c, d| {
        let o = SHOW[d[1]];
        let mut args = if d[2] == 0 {
            vec![o, "prog"]
        } else {
            vec!["prog", o]
        };
        if d[3] == 1 {
            args.splice(0..0, ["--pk", "pk"]);
        }
        match d[4] {
            1 => args.extend(["--kernel", "kern", "--pc=0x80000040"]),
            2 => args.extend(["--initrd=disk", "a"]),
            _ => {}
        }
        if d[5] == 1 {
            args.push(o);
        }
        let x = d[0];
        let got = one(c, x, &args);
        let plain = carron(
            &dirs[x],
            &[SHOW[d[1] ^ 1], if d[3] == 1 { "pk" } else { "prog" }],
        );
        let body = |o: &Out| {
            let t = String::from_utf8_lossy(&o.out).into_owned();
            t.split_once("elfcheck: OK\n\n").map(|p| p.1.to_string())
        };
        let r = if got.code != Some(0) || got.after(b"@@").is_some() {
            Err(got.show())
        } else if body(&got) != body(&plain) || body(&got).is_none() {
            Err("shows something else than for the image alone".to_string())
        } else {
            Ok(())
        };
        verdict("inspect", [32, 64][x], &args, r)
    });

    // what is printed about carron itself
    const ABOUT: [&str; 4] = ["--help", "-h", "--version", "-V"];
    r.space("about", &[2, 4, 3], |c, d| {
        let args = match d[2] {
            0 => vec![ABOUT[d[1]]],
            1 => vec![ABOUT[d[1]], "prog"],
            _ => vec!["prog", ABOUT[d[1]]],
        };
        let o = one(c, d[0], &args);
        let t = String::from_utf8_lossy(&o.out);
        let ok = o.code == Some(0) && o.after(b"@@").is_none() && t.contains("carron");
        let r = if ok { Ok(()) } else { Err(o.show()) };
        verdict("about", [32, 64][d[0]], &args, r)
    });
}
