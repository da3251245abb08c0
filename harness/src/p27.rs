//! P27: damaged images. Every prefix of a set of valid images, and every size, offset and count
//! pushed out of the file: the real command line program either runs the whole program or refuses
//! it before anything of it has run.
use crate::asm::*;
use crate::drv::{bad, CaseResult, Ctx, Report};
use crate::e2e::{run_until, Asm, Dir, Out, BASE, FROMHOST, TOHOST};
use crate::elf::Elf;

const STATUS: u64 = 7;
const SECOND: u64 = BASE + 0x2000;
const SAYS: &[u8] = b"@@first,second,done";

#[derive(Clone, Copy, Debug)]
struct Layout {
    xlen: u32,
    /// 0: symbol tables, 1: sections only, 2: no sections at all
    strip: usize,
    ph_last: bool,
    sh_first: bool,
    /// the second segment's contents are the last bytes of the file
    tail: bool,
    order: usize,
}
const LAYOUTS: usize = 2 * 3 * 2 * 2 * 2 * 3;
fn layout(k: usize) -> Layout {
    let d = |n: usize, m: usize| k / n % m;
    Layout {
        xlen: [32, 64][d(1, 2)],
        strip: d(2, 3),
        ph_last: d(6, 2) == 1,
        sh_first: d(12, 2) == 1,
        tail: d(24, 2) == 1,
        order: d(48, 3),
    }
}
fn say(a: &mut Asm, t: &[u8]) {
    for c in t {
        a.putc(*c);
    }
}
/// a program of two segments, the second of which does the last part
fn image(l: Layout) -> Vec<u8> {
    let mut a = Asm::new(l.xlen);
    say(&mut a, b"@@first,");
    a.li(5, SECOND).w(i(0, 5, 0, 1, 0x67)); // jalr ra, 0(t0)
    say(&mut a, b"done");
    a.exit(STATUS);
    let first = a.build();
    let mut a = Asm::new(l.xlen).at(SECOND);
    say(&mut a, b"second,");
    a.w(i(0, 1, 0, 0, 0x67));
    let second = a.build();
    let n = second.len() as u64;
    let mut e = Elf::new(l.xlen)
        .seg(BASE, first.clone(), first.len() as u64)
        .seg(SECOND, second.clone(), n + 16)
        .sym("tohost", TOHOST)
        .sym("fromhost", FROMHOST);
    e.strip = l.strip;
    e.phoff_last = l.ph_last;
    e.shoff_first = l.sh_first;
    e.order = [[0, 1, 2, 3], [3, 2, 1, 0], [2, 3, 0, 1]][l.order];
    let mut v = e.build();
    if l.tail {
        let p = Parse::of(&v);
        // the contents move to the end
        let at = p.ph(1, p.p_offset);
        let old = p.get(&v, at.0, at.1) as usize;
        v[old..old + second.len()].fill(0xff);
        let end = v.len() as u64;
        v.extend(second);
        put(&mut v, at.0, at.1, end);
    }
    v
}
fn put(v: &mut [u8], at: usize, n: usize, x: u64) {
    v[at..at + n].copy_from_slice(&x.to_le_bytes()[..n]);
}
/// where things are in an image
struct Parse {
    w: usize,
    phoff: usize,
    shoff: usize,
    phnum: usize,
    shnum: usize,
    p_offset: usize,
}
impl Parse {
    fn of(v: &[u8]) -> Parse {
        let w = if v[4] == 2 { 8 } else { 4 };
        let g = |at: usize, n: usize| (0..n).fold(0, |x, k| x | (v[at + k] as usize) << (8 * k));
        let tail = 16 + 8 + 3 * w + 4;
        Parse {
            w,
            phoff: g(24 + w, w),
            shoff: g(24 + 2 * w, w),
            phnum: g(tail + 4, 2),
            shnum: g(tail + 8, 2),
            p_offset: if w == 8 { 8 } else { 4 },
        }
    }
    fn get(&self, v: &[u8], at: usize, n: usize) -> u64 {
        (0..n).fold(0, |x, k| x | (v[at + k] as u64) << (8 * k))
    }
    /// position and width of an address-sized field of a program header
    fn ph(&self, k: usize, field: usize) -> (usize, usize) {
        (
            self.phoff + k * if self.w == 8 { 56 } else { 32 } + field,
            self.w,
        )
    }
}

enum Ran {
    Whole,
    Refused,
}
fn launch(cx: &mut Ctx, bytes: &[u8], strip: usize) -> Result<Ran, String> {
    let dir = Dir::new();
    dir.put("prog", bytes);
    // without host words the program does not end
    let until = if strip == 0 { &b""[..] } else { SAYS };
    let o: Out = run_until(&dir, &["prog"], b"", &[], until, 10.0);
    cx.step_done();
    cx.trace_done();
    let said = o
        .out
        .windows(2)
        .position(|w| w == b"@@")
        .map(|p| &o.out[p..]);
    match said {
        None if !o.timed_out && matches!(o.code, Some(c) if c != 0) => Ok(Ran::Refused),
        Some(s) if s == SAYS && (strip > 0 || o.code == Some(STATUS as i32)) => Ok(Ran::Whole),
        _ => Err(o.show()),
    }
}

pub fn run(r: &Report) {
    r.note("an image cut off where nothing needed is lost (padding, the last zeros of a table) may run or be refused; one that lost contents of a segment cannot run whole");
    r.note("damage that still describes another valid image (a smaller segment, another address) is not enumerated");
    let images: Vec<(Layout, Vec<u8>)> = (0..LAYOUTS).map(layout).map(|l| (l, image(l))).collect();
    // the images themselves
    r.space("whole", &[LAYOUTS], |c, d| {
        let (l, v) = &images[d[0]];
        c.state(&v);
        match launch(c, v, l.strip) {
            Ok(Ran::Whole) => Ok(()),
            Ok(Ran::Refused) => bad("whole", format!("{l:?}: refused")),
            Err(e) => bad("whole", format!("{l:?}: {e}")),
        }
    });
    // every prefix
    let longest = images.iter().map(|p| p.1.len()).max().unwrap();
    r.space("prefixes", &[LAYOUTS, longest], |c, d| {
        let (l, v) = &images[d[0]];
        let n = d[1];
        if n >= v.len() {
            return Ok(());
        }
        c.state(&(d[0], n));
        match launch(c, &v[..n], l.strip) {
            Ok(_) => Ok(()),
            Err(e) => bad(
                "prefix",
                format!("first {n} of {} bytes of {l:?}: {e}", v.len()),
            ),
        }
    });
    // sizes, offsets and counts out of the file, one or two at a time
    r.space("fields", &[LAYOUTS, FIELDS, VALUES], |c, d| {
        let (l, v) = &images[d[0]];
        damage(c, l, v, &[(d[1], d[2])])
    });
    if r.thorough {
        let n = FIELDS * VALUES;
        r.space("field-pairs", &[LAYOUTS, n, n], |c, d| {
            let (l, v) = &images[d[0]];
            let (a, b) = (d[1] / VALUES, d[2] / VALUES);
            if a >= b {
                return Ok(());
            }
            damage(c, l, v, &[(a, d[1] % VALUES), (b, d[2] % VALUES)])
        });
    }
}

/// (field, value) each
fn damage(c: &mut Ctx, l: &Layout, v: &[u8], what: &[(usize, usize)]) -> CaseResult {
    let p = Parse::of(v);
    let mut w = v.to_vec();
    let mut must = false;
    let mut text = String::new();
    for &(k, x) in what {
        let Some((at, n, m)) = field(&p, k, l) else {
            return Ok(());
        };
        let old = p.get(v, at, n);
        let Some(x) = value(x, old, v.len() as u64, n) else {
            return Ok(());
        };
        must |= m;
        put(&mut w, at, n, x);
        text += &format!("{n} bytes at {at} changed from {old:#x} to {x:#x}, ");
    }
    c.state(&w);
    let bad = |t: String| {
        bad(
            format!("field-{}", what[0].0),
            format!("{} bytes of {l:?}, {text}{t}", v.len()),
        )
    };
    match launch(c, &w, l.strip) {
        Ok(Ran::Whole) if must => bad("ran".into()),
        Ok(_) => Ok(()),
        Err(e) => bad(e),
    }
}

const FIELDS: usize = 3 + 4 + 4 * 2;
/// a field: position, width, and whether the program cannot be whole with a value out of the file
fn field(p: &Parse, k: usize, l: &Layout) -> Option<(usize, usize, bool)> {
    let w = p.w;
    let tail = 16 + 8 + 3 * w + 4;
    let sh = |k: usize, f: usize| {
        let size = if w == 8 { 64 } else { 40 };
        let at = 8 + f * w;
        (p.shoff + k * size + at, w, false)
    };
    let filesz = if w == 8 { 32 } else { 16 };
    let ph = |k: usize, f: usize| {
        let a = p.ph(k, f);
        (a.0, a.1, true)
    };
    let has = l.strip < 2;
    Some(match k {
        0 => (24 + w, w, true),      // e_phoff
        1 => (24 + 2 * w, w, false), // e_shoff
        2 => (tail + 4, 2, true),    // e_phnum
        3 => ph(0, p.p_offset),
        4 => ph(0, filesz),
        5 => ph(1, p.p_offset),
        6 => ph(1, filesz),
        // sh_offset and sh_size of each section
        k if has => {
            let s = (k - 7) / 2 + 1;
            if s >= p.shnum {
                return None;
            }
            // flags and address come first
            let (at, n, must) = sh(s, if k % 2 == 1 { 2 } else { 3 });
            (at, n, must)
        }
        _ => return None,
    })
    .filter(|_| p.phnum == 2)
}
const VALUES: usize = 9;
/// values that reach out of the file
fn value(k: usize, old: u64, len: u64, n: usize) -> Option<u64> {
    let max = if n == 8 { u64::MAX } else { (1 << (8 * n)) - 1 };
    let v = match k {
        0 => len,
        1 => len + 1,
        2 => len + 0x1000,
        3 => max,
        4 => max - 15,
        5 => max / 2,
        6 => max / 2 + 1,
        7 => max - old + 1,
        _ => max - len,
    } & max;
    (v >= len).then_some(v)
}
