//! huskmir: a rustc driver that dumps the resolved, monomorphic MIR of the
//! crate under analysis (plus the small std combinators it calls) as JSON.
//!
//! It is injected with RUSTC_WORKSPACE_WRAPPER: argv[1] is the real rustc.
//! When the crate being compiled is `husk` (library, not test), it writes
//! the dump to $HUSKMIR_OUT after rustc's own analysis has succeeded.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_driver;
extern crate rustc_hir;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;
mod unsafety;

use rustc_driver::{Callbacks, Compilation};
use rustc_interface::interface;
use rustc_middle::ty::TyCtxt;
use rustc_session::config::ErrorOutputType;
use rustc_session::EarlyDiagCtxt;

struct Cb {
    out: Option<String>,
}

impl Callbacks for Cb {
    fn config(&mut self, config: &mut interface::Config) {
        if self.out.is_some() {
            // keep MIR as written: no inlining, no const-prop
            config.opts.unstable_opts.mir_opt_level = Some(0);
            config.opts.unstable_opts.inline_mir = Some(false);
        }
    }
    fn after_analysis<'tcx>(&mut self, _c: &interface::Compiler, tcx: TyCtxt<'tcx>) -> Compilation {
        if let Some(out) = &self.out {
            let s = dump::dump(tcx);
            std::fs::write(out, s).expect("write dump");
        }
        Compilation::Continue
    }
}

fn main() {
    let mut args: Vec<String> = std::env::args().collect();
    // as RUSTC_WORKSPACE_WRAPPER: huskmir /path/to/rustc args...
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    let want = std::env::var("HUSKMIR_CRATE").unwrap_or_else(|_| "husk".into());
    let mut name = None;
    let mut it = args.iter();
    while let Some(a) = it.next() {
        if a == "--crate-name" {
            name = it.next().cloned();
        }
    }
    let is_test = args.iter().any(|a| a == "--test");
    let out = if name.as_deref() == Some(want.as_str()) && !is_test {
        std::env::var("HUSKMIR_OUT").ok()
    } else {
        None
    };
    let mut cb = Cb { out };
    let early = EarlyDiagCtxt::new(ErrorOutputType::default());
    rustc_driver::init_rustc_env_logger(&early);
    let code = rustc_driver::catch_with_exit_code(move || {
        rustc_driver::compiler_entrypoint(&args, &mut cb)
    });
    std::process::exit(if code == std::process::ExitCode::SUCCESS { 0 } else { 1 });
}
