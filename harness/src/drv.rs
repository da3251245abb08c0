//! Exploration driver: enumerates finite spaces completely, in parallel, and keeps the evidence.
use crate::imp::{guard, Imp};
use std::hash::{Hash, Hasher};
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::Mutex;
use std::time::Instant;

const SLOTS_LOG2: u32 = 28;

pub struct Violation {
    pub key: String,
    pub space: String,
    pub index: u64,
    pub text: String,
}

pub struct Report {
    pub prop: String,
    pub thorough: bool,
    pub start: Instant,
    pub transitions: AtomicU64,
    pub traces: AtomicU64,
    pub states: AtomicU64,
    pub open: AtomicU64,
    slots: Vec<AtomicU64>,
    pub viols: Mutex<Vec<Violation>>,
    pub nviol: AtomicU64,
    pub samples: Mutex<Vec<String>>,
    pub spaces: Mutex<Vec<(String, u64, f64)>>,
    pub notes: Mutex<Vec<String>>,
    pub only: Option<(String, u64)>,
    pub known: Vec<(String, String)>,
    pub known_hit: Mutex<std::collections::BTreeMap<String, u64>>,
    pub stop: AtomicBool,
    /// when the first violation was found, in ms since the start (0: none)
    first: AtomicU64,
}

struct Mix(u64);
impl Hasher for Mix {
    fn write(&mut self, b: &[u8]) {
        for c in b.chunks(8) {
            let mut v = [0u8; 8];
            v[..c.len()].copy_from_slice(c);
            self.write_u64(u64::from_le_bytes(v));
        }
    }
    fn write_u64(&mut self, v: u64) {
        let p = ((self.0 ^ v) as u128).wrapping_mul(0x9e37_79b9_7f4a_7c15_f39c_c060_5ced_c835);
        self.0 = (p as u64) ^ ((p >> 64) as u64).rotate_left(23);
    }
    fn finish(&self) -> u64 {
        let p = (self.0 as u128).wrapping_mul(0xd6e8_feb8_6659_fd93_0000_0000_0000_0001);
        (p >> 64) as u64 ^ p as u64
    }
}

/// A per-worker view used inside a case.
pub struct Ctx<'a> {
    pub rep: &'a Report,
    imp32: Option<Imp>,
    imp64: Option<Imp>,
    tr: u64,
    traces: u64,
    open: u64,
    pub verbose: bool,
}

impl<'a> Ctx<'a> {
    pub fn imp(&mut self, xlen: u32) -> &mut Imp {
        let slot = if xlen == 32 {
            &mut self.imp32
        } else {
            &mut self.imp64
        };
        slot.get_or_insert_with(|| Imp::new(xlen))
    }
    pub fn drop_imp(&mut self, xlen: u32) {
        if xlen == 32 {
            self.imp32 = None
        } else {
            self.imp64 = None
        }
    }
    pub fn step_done(&mut self) {
        self.tr += 1;
    }
    pub fn trace_done(&mut self) {
        self.traces += 1;
    }
    pub fn opened(&self) -> u64 {
        self.open
    }
    pub fn unspecified(&mut self) {
        self.open += 1;
    }
    pub fn state(&self, s: &impl Hash) {
        let mut h = Mix(0x1234_5678_9abc_def1);
        s.hash(&mut h);
        let v = h.finish() >> (64 - SLOTS_LOG2);
        let bit = 1u64 << (v & 63);
        let slot = &self.rep.slots[(v >> 6) as usize];
        if slot.load(Relaxed) & bit == 0 && slot.fetch_or(bit, Relaxed) & bit == 0 {
            self.rep.states.fetch_add(1, Relaxed);
        }
    }
    fn flush(&mut self) {
        self.rep
            .transitions
            .fetch_add(std::mem::take(&mut self.tr), Relaxed);
        self.rep
            .traces
            .fetch_add(std::mem::take(&mut self.traces), Relaxed);
        self.rep
            .open
            .fetch_add(std::mem::take(&mut self.open), Relaxed);
    }
}

/// What a case returns: Ok, or a (finding key, description).
pub type CaseResult = Result<(), (String, String)>;
pub fn bad<T>(key: impl Into<String>, text: impl Into<String>) -> Result<T, (String, String)> {
    Err((key.into(), text.into()))
}

impl Report {
    pub fn new(prop: &str, thorough: bool, only: Option<(String, u64)>) -> Report {
        let mut known = vec![];
        let kf = format!("{}/known_findings.txt", crate::verif_dir());
        for l in std::fs::read_to_string(kf).unwrap_or_default().lines() {
            // KNOWN property=Pxx key=<key> -- text
            if let Some(r) = l.strip_prefix(&format!("KNOWN property={prop} key=")) {
                let (k, t) = r.split_once(" -- ").unwrap_or((r, ""));
                known.push((k.trim().to_string(), t.trim().to_string()));
            }
        }
        Report {
            prop: prop.to_string(),
            thorough,
            start: Instant::now(),
            transitions: AtomicU64::new(0),
            traces: AtomicU64::new(0),
            states: AtomicU64::new(0),
            open: AtomicU64::new(0),
            slots: (0..1u64 << (SLOTS_LOG2 - 6))
                .map(|_| AtomicU64::new(0))
                .collect(),
            viols: Mutex::new(vec![]),
            nviol: AtomicU64::new(0),
            samples: Mutex::new(vec![]),
            spaces: Mutex::new(vec![]),
            notes: Mutex::new(vec![]),
            only,
            known,
            known_hit: Mutex::new(Default::default()),
            stop: AtomicBool::new(false),
            first: AtomicU64::new(0),
        }
    }
    pub fn note(&self, s: &str) {
        self.notes.lock().unwrap().push(s.to_string());
    }
    pub fn sample(&self, s: String) {
        let mut v = self.samples.lock().unwrap();
        if v.len() < 12 {
            v.push(s)
        }
    }
    pub fn violation(&self, key: String, space: &str, index: u64, text: String) {
        if self.known.iter().any(|k| k.0 == key) {
            *self.known_hit.lock().unwrap().entry(key).or_insert(0) += 1;
            return;
        }
        let n = self.nviol.fetch_add(1, Relaxed);
        let now = self.start.elapsed().as_millis() as u64;
        let _ = self.first.compare_exchange(0, now.max(1), Relaxed, Relaxed);
        let mut v = self.viols.lock().unwrap();
        if v.iter().filter(|x| x.key == key).count() < 2 && v.len() < 60 {
            v.push(Violation {
                key,
                space: space.to_string(),
                index,
                text,
            });
        }
        if n > 2_000 {
            self.stop.store(true, Relaxed);
        }
    }

    /// The verdict is known: a tree with a violation is not worth more than another half minute
    /// (a broken program may hang in every case).
    fn done(&self) -> bool {
        let first = self.first.load(Relaxed);
        if first > 0 && self.start.elapsed().as_millis() as u64 > first + 30_000 {
            self.stop.store(true, Relaxed);
        }
        self.stop.load(Relaxed)
    }

    /// Enumerate `dims[0] x dims[1] x ...` completely. The closure gets the digits and
    /// returns a result; `describe` is used for samples.
    pub fn space<F>(&self, name: &str, dims: &[usize], f: F)
    where
        F: Fn(&mut Ctx, &[usize]) -> CaseResult + Sync,
    {
        self.space_t(name, dims, threads(), f)
    }
    pub fn space_t<F>(&self, name: &str, dims: &[usize], nthreads: usize, f: F)
    where
        F: Fn(&mut Ctx, &[usize]) -> CaseResult + Sync,
    {
        let total: u64 = dims.iter().map(|&d| d as u64).product();
        let t0 = Instant::now();
        let only = match &self.only {
            Some((s, i)) if s == name => Some(*i),
            Some(_) => return,
            None => None,
        };
        let next = AtomicU64::new(0);
        let chunk = (total / (nthreads as u64 * 16)).clamp(1, 4096);
        let run = |ctx: &mut Ctx, idx: u64, dig: &mut Vec<usize>| {
            let mut r = idx;
            for (k, &d) in dims.iter().enumerate().rev() {
                dig[k] = (r % d as u64) as usize;
                r /= d as u64;
            }
            let res = match guard(|| f(ctx, dig)) {
                Ok(r) => r,
                Err(m) => {
                    ctx.drop_imp(32);
                    ctx.drop_imp(64);
                    bad("host-abort", format!("panic outside a guarded step: {m}"))
                }
            };
            if let Err((k, t)) = res {
                let t = format!("case {name}:{idx} {dig:?}\n{t}");
                if ctx.verbose {
                    println!("{t}");
                }
                self.violation(k, name, idx, t);
            }
        };
        let mk = || Ctx {
            rep: self,
            imp32: None,
            imp64: None,
            tr: 0,
            traces: 0,
            open: 0,
            verbose: only.is_some(),
        };
        if let Some(i) = only {
            let mut ctx = mk();
            run(&mut ctx, i, &mut vec![0; dims.len()]);
            ctx.flush();
            return;
        }
        std::thread::scope(|s| {
            for _ in 0..nthreads.min(total.max(1) as usize) {
                s.spawn(|| {
                    let mut ctx = mk();
                    let mut dig = vec![0; dims.len()];
                    loop {
                        let a = next.fetch_add(chunk, Relaxed);
                        if a >= total || self.done() {
                            break;
                        }
                        for idx in a..(a + chunk).min(total) {
                            if self.nviol.load(Relaxed) > 0 && self.done() {
                                break;
                            }
                            run(&mut ctx, idx, &mut dig);
                        }
                        ctx.flush();
                    }
                    ctx.flush();
                });
            }
        });
        self.spaces
            .lock()
            .unwrap()
            .push((name.to_string(), total, t0.elapsed().as_secs_f64()));
    }

    /// Write the evidence, print the verdict, return the exit code.
    pub fn finish(&self) -> i32 {
        let dir = crate::verif_dir();
        let nv = self.nviol.load(Relaxed);
        let states = self.states.load(Relaxed);
        let spaces = self.spaces.lock().unwrap();
        let mut js = String::new();
        let esc = |s: &str| {
            let mut o = String::from("\"");
            for c in s.chars() {
                match c {
                    '"' => o.push_str("\\\""),
                    '\\' => o.push_str("\\\\"),
                    '\n' => o.push_str("\\n"),
                    c if (c as u32) < 32 => o.push(' '),
                    c => o.push(c),
                }
            }
            o.push('"');
            o
        };
        let tier = if self.thorough { "thorough" } else { "quick" };
        let seed = std::env::var("VERIF_SEED")
            .ok()
            .and_then(|s| s.parse::<i64>().ok())
            .unwrap_or(1);
        let samples: Vec<String> = self
            .samples
            .lock()
            .unwrap()
            .iter()
            .map(|s| esc(s))
            .collect();
        let sp: Vec<String> = spaces
            .iter()
            .map(|(n, t, w)| format!("{{\"space\":{},\"size\":{t},\"seconds\":{w:.2}}}", esc(n)))
            .collect();
        let known: Vec<String> = self
            .known_hit
            .lock()
            .unwrap()
            .iter()
            .map(|(k, n)| format!("{{\"key\":{},\"cases\":{n}}}", esc(k)))
            .collect();
        let notes: Vec<String> = self.notes.lock().unwrap().iter().map(|s| esc(s)).collect();
        js.push_str(&format!(
            "{{\n\"property\":{},\n\"tier\":\"{tier}\",\n\"seed\":{seed},\n\"level\":\"model_checking\",\n\"coverage\":{{\n\"states\":{states},\n\"transitions\":{},\n\"traces_validated_against_impl\":{},\n\"outcomes_left_open_by_spec\":{},\n\"exhaustive\":{},\n\"spaces\":[{}],\n\"known_findings_hit\":[{}],\n\"samples\":[{}]\n}},\n\"assumptions\":[{}],\n\"wall_s\":{:.2},\n\"violations\":{nv}\n}}\n",
            esc(&self.prop),
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            self.open.load(Relaxed),
            !self.stop.load(Relaxed),
            sp.join(","),
            known.join(","),
            samples.join(","),
            notes.join(","),
            self.start.elapsed().as_secs_f64(),
        ));
        if self.only.is_none() {
            let _ = std::fs::create_dir_all(format!("{dir}/evidence"));
            std::fs::write(format!("{dir}/evidence/{}.json", self.prop), js).expect("evidence");
        }
        for (n, t, w) in spaces.iter() {
            println!("  space {n}: {t} cases, {w:.1}s");
        }
        println!(
            "{}: {} states, {} transitions, {} traces, {} open, {:.1}s",
            self.prop,
            states,
            self.transitions.load(Relaxed),
            self.traces.load(Relaxed),
            self.open.load(Relaxed),
            self.start.elapsed().as_secs_f64()
        );
        for (k, t) in &self.known {
            if self.known_hit.lock().unwrap().contains_key(k) {
                println!("KNOWN-FINDING: property={} {k}: {t}", self.prop);
            }
        }
        if nv > 0 {
            let rdir = format!("{dir}/replays");
            let _ = std::fs::create_dir_all(&rdir);
            let path = format!("{rdir}/{}.txt", self.prop);
            let mut out = format!(
                "{} violations of {}. Re-run one case with: ./check.sh {} {tier} --only <space>:<index>\n\n",
                nv, self.prop, self.prop
            );
            for v in self.viols.lock().unwrap().iter() {
                out.push_str(&format!(
                    "[{}] {}:{}\n{}\n\n",
                    v.key, v.space, v.index, v.text
                ));
            }
            let _ = std::fs::write(&path, &out);
            for v in self.viols.lock().unwrap().iter().take(40) {
                println!("--- [{}] {}:{}\n{}", v.key, v.space, v.index, v.text);
            }
            println!("\nVIOLATION property={} replay={path}", self.prop);
            return 1;
        }
        0
    }
}

pub fn threads() -> usize {
    std::thread::available_parallelism()
        .map(|n| n.get())
        .unwrap_or(4)
        .min(8)
}
