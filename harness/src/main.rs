mod asm;
mod drv;
mod e2e;
mod elf;
mod imp;
mod lock;
mod model;
mod p01;
mod p02;
mod p03;
mod p04;
mod p05;
mod p06;
mod p09;
mod p11;
mod p12;
mod p14;
mod p15;
mod p16;
mod p17;
mod p18;
mod p19;
mod p20;
mod p21;
mod p22;
mod p23;
mod p24;
mod p25;
mod p26;
mod p27;

pub fn verif_dir() -> String {
    std::env::var("VERIF_DIR").unwrap_or_else(|_| "/verif".into())
}

fn main() {
    // Keep stdin open and silent: carron's console thread blocks on it. Checks that make a
    // machine per case let that thread end at once instead.
    let per_case = matches!(std::env::args().nth(1).as_deref(), Some("P19" | "P20"));
    unsafe {
        if per_case {
            let n = libc::open(c"/dev/null".as_ptr(), libc::O_RDONLY);
            libc::dup2(n, 0);
            libc::close(n);
        }
    }
    unsafe {
        if !per_case {
            let mut p = [0i32; 2];
            if libc::pipe(p.as_mut_ptr()) == 0 {
                libc::dup2(p[0], 0);
                libc::close(p[0]);
            }
        }
    }
    std::panic::set_hook(Box::new(|info| {
        let msg = format!("{info}");
        if std::env::var_os("CARRON_MC_PANICS").is_some() {
            eprintln!("{msg}");
        }
        imp::LAST_PANIC.with(|p| *p.borrow_mut() = msg);
    }));
    let _ = carron::log::LOG_LEVEL.set(carron::log::LogLv::NoLog);

    let args: Vec<String> = std::env::args().skip(1).collect();
    let prop = args.first().cloned().unwrap_or_default();
    let mut thorough = std::env::var("VERIF_TIER")
        .map(|t| t == "thorough")
        .unwrap_or(false);
    let mut only = None;
    let mut k = 1;
    while k < args.len() {
        match args[k].as_str() {
            "thorough" => thorough = true,
            "quick" => thorough = false,
            "--only" => {
                k += 1;
                let (s, n) = args[k].rsplit_once(':').expect("space:index");
                only = Some((s.to_string(), n.parse().expect("index")));
            }
            other => panic!("unknown argument {other}"),
        }
        k += 1;
    }
    let rep = drv::Report::new(&prop, thorough, only);
    match prop.as_str() {
        "P01" => p01::run(&rep),
        "P02" => p02::run(&rep),
        "P03" => p03::run(&rep),
        "P04" => p04::run(&rep),
        "P05" => p05::run(&rep),
        "P06" => p06::run06(&rep),
        "P07" => p06::run07(&rep),
        "P08" => p06::run08(&rep),
        "P09" => p09::run09(&rep),
        "P10" => p09::run10(&rep),
        "P11" => p11::run(&rep),
        "P12" => p12::run12(&rep),
        "P13" => p12::run13(&rep),
        "P14" => p14::run(&rep),
        "P15" => p15::run(&rep),
        "P16" => p16::run(&rep),
        "P17" => p17::run(&rep),
        "P18" => p18::run(&rep),
        "P19" => p19::run(&rep),
        "P20" => p20::run(&rep),
        "P21" => p21::run(&rep),
        "P22" => p22::run(&rep),
        "P23" => p23::run(&rep),
        "P24" => p24::run(&rep),
        "P25" => p25::run(&rep),
        "P26" => p26::run(&rep),
        "P27" => p27::run(&rep),
        _ => {
            eprintln!("unknown property {prop:?}");
            std::process::exit(2);
        }
    }
    std::process::exit(rep.finish());
}
