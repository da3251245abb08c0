//! The emulator with its step counter preset (environment variable LOG_START): the execution log
//! of level `diff` only begins after 350,000,000 steps.
use carron::cmdline::Arguments;
use carron::{elfload, Emulator};

fn main() {
    let args = Arguments::new();
    let start: u64 = std::env::var("LOG_START").unwrap().parse().unwrap();
    *carron::log::INST_COUNT.lock().unwrap() = start;
    let loader = elfload::ElfLoader::try_new(&args.filename).unwrap();
    Emulator::new(loader, args).emulation();
}
