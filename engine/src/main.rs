//! seshat-absint: static analysis of the seshat crate on rustc's MIR.
//!
//! Modes:
//!   seshat-absint RUSTC ARGS...            as RUSTC_WRAPPER: records the arguments of the
//!                                          harness crate's compilation (ABSINT_RECORD), then runs rustc
//!   seshat-absint --analyze ARGS JOBS OUT  analyses the recorded compilation; JOBS lists the entry
//!                                          points and how their inputs are to be partitioned
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dom;
mod effects;
mod interp;
mod jobs;
mod mem;

use rustc_driver::Compilation;
use rustc_middle::ty::TyCtxt;

struct Cb {
    jobs: String,
    out: String,
}

impl rustc_driver::Callbacks for Cb {
    fn after_analysis<'tcx>(&mut self, _c: &rustc_interface::interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        let spec = std::fs::read_to_string(&self.jobs).expect("job file");
        let secs = std::env::var("ABSINT_SECS").ok().and_then(|s| s.parse().ok()).unwrap_or(6 * 3600);
        let end = std::time::Instant::now() + std::time::Duration::from_secs(secs);
        // several processes can share a job file: whoever creates the job's file in ABSINT_CLAIM does it
        let claim = std::env::var("ABSINT_CLAIM").ok();
        use std::io::Write;
        let mut file = std::fs::File::create(&self.out).expect("output file");
        for (n, line) in spec.lines().enumerate() {
            let line = line.trim();
            if line.is_empty() || line.starts_with('#') {
                continue;
            }
            if let Some(d) = &claim {
                if std::fs::OpenOptions::new().write(true).create_new(true).open(format!("{}/{}", d, n)).is_err() {
                    continue;
                }
            }
            let mut out = String::new();
            if line.starts_with("effects") {
                effects::run(tcx, line, &mut out);
            } else {
                // a defect of the analyser on unforeseen code must not take the other jobs with it
                let r = std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| {
                    let mut o = String::new();
                    jobs::run(tcx, line, end, &mut o);
                    o
                }));
                match r {
                    Ok(o) => out.push_str(&o),
                    Err(_) => out.push_str("{\"name\":\"\",\"failed\":\"the analyser gave up\"}"),
                }
            }
            // one line per job: its number and what was found
            let out = out.replace('\n', " ");
            file.write_all(format!("{}\t{}\n", n, out).as_bytes()).expect("output file");
        }
        Compilation::Stop
    }
}

fn main() {
    let args: Vec<String> = std::env::args().collect();
    if args.len() >= 5 && args[1] == "--analyze" {
        let raw = std::fs::read_to_string(&args[2]).expect("recorded arguments");
        let mut rargs: Vec<String> = vec!["rustc".into()];
        rargs.extend(raw.split('\0').filter(|s| !s.is_empty()).map(|s| s.to_string()));
        let mut cb = Cb { jobs: args[3].clone(), out: args[4].clone() };
        std::env::set_var("RUST_MIN_STACK", (2u64 << 30).to_string());
        let h = std::thread::Builder::new()
            .stack_size(1 << 30)
            .spawn(move || {
                rustc_driver::catch_with_exit_code(move || rustc_driver::compiler_entrypoint(&rargs, &mut cb))
            })
            .unwrap();
        let _ = h.join();
        return;
    }
    // wrapper
    if args.len() < 2 {
        eprintln!("usage: seshat-absint --analyze ARGS JOBS OUT");
        std::process::exit(2);
    }
    if let Ok(p) = std::env::var("ABSINT_RECORD") {
        let mut it = args.iter();
        let mut name = None;
        while let Some(a) = it.next() {
            if a == "--crate-name" {
                name = it.next();
            }
        }
        if name.map(|n| n == "seshat_harness" || n == "seshat_selftest").unwrap_or(false) {
            std::fs::write(&p, args[2..].join("\0")).expect("record");
        }
        // the crate under analysis itself
        if name.map(|n| n == "seshat").unwrap_or(false) {
            std::fs::write(p + ".seshat", args[2..].join("\0")).expect("record");
        }
    }
    use std::os::unix::process::CommandExt;
    let e = std::process::Command::new(&args[1]).args(&args[2..]).exec();
    eprintln!("exec {}: {}", args[1], e);
    std::process::exit(2);
}
