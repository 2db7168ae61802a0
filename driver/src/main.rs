//! mirdump: a rustc driver that writes the type-checked, resolved program (MIR with resolved
//! callees, monomorphised where the caller fixes the types, ADT layouts, impl and visibility
//! inventory) of every workspace library crate to a JSON file. It analyses nothing itself.
#![feature(rustc_private)]
extern crate rustc_abi;
extern crate rustc_data_structures;
extern crate rustc_driver;
extern crate rustc_index;
extern crate rustc_hir;
extern crate rustc_infer;
extern crate rustc_trait_selection;
extern crate rustc_interface;
extern crate rustc_middle;
extern crate rustc_session;
extern crate rustc_span;

mod dump;
mod json;

use rustc_driver::{Callbacks, Compilation};
use rustc_middle::ty::TyCtxt;

struct Dump {
    out: std::path::PathBuf,
}

impl Callbacks for Dump {
    fn config(&mut self, config: &mut rustc_interface::interface::Config) {
        config.override_queries = Some(|_sess, providers| {
            dump::install(providers);
        });
    }
    fn after_analysis<'tcx>(
        &mut self,
        _c: &rustc_interface::interface::Compiler,
        tcx: TyCtxt<'tcx>,
    ) -> Compilation {
        let j = dump::dump(tcx);
        let name = tcx.crate_name(rustc_hir::def_id::LOCAL_CRATE);
        let path = self.out.join(format!("{name}.json"));
        let tmp = self.out.join(format!("{name}.json.tmp"));
        let mut s = String::new();
        j.write(&mut s);
        std::fs::write(&tmp, s).unwrap();
        std::fs::rename(&tmp, &path).unwrap();
        Compilation::Continue
    }
}

struct Plain;
impl Callbacks for Plain {}

fn main() -> std::process::ExitCode {
    let mut args: Vec<String> = std::env::args().collect();
    // As RUSTC_WORKSPACE_WRAPPER we are called as: mirdump <rustc> <args..>
    if args.len() > 1 && (args[1].ends_with("rustc") || args[1].ends_with("rustc.exe")) {
        args.remove(1);
    }
    // The workspace's crates as another target sees them
    for cfg in std::env::var("MIRDUMP_CFG").iter() {
        args.extend(["--cfg".into(), cfg.clone(), "-Aexplicit_builtin_cfgs_in_flags".into()]);
    }
    // The same source as a release build sees it. Overflow checks stay on, so that a source that
    // does not ask how it is built has the same MIR both ways.
    if std::env::var("MIRDUMP_RELEASE").is_ok() {
        args.extend(["-Cdebug-assertions=off".into(), "-Coverflow-checks=on".into()]);
    }
    let out = std::env::var("MIRDUMP_OUT").ok();
    let is_lib = args
        .windows(2)
        .any(|w| w[0] == "--crate-type" && w[1].contains("lib"));
    let is_test = args.iter().any(|a| a == "--test");
    let is_build_script = args
        .windows(2)
        .any(|w| w[0] == "--crate-name" && w[1].starts_with("build_script"));
    let wanted = is_lib && !is_test && !is_build_script;
    rustc_driver::catch_with_exit_code(|| match (out, wanted) {
        (Some(o), true) => {
            // -Zalways-encode-mir is not needed: only local and #[inline]/generic std bodies are read
            rustc_driver::compiler_entrypoint(&args, &mut Dump { out: o.into() })
        }
        _ => rustc_driver::compiler_entrypoint(&args, &mut Plain),
    })
}
