//! Deterministic simulation of lfa: see /verif/DESIGN.md.
mod abroad;
mod alloc;
mod basis;
mod disk;
mod fa;
mod harness;
mod optim;
mod parent;
mod phi;
mod props;
mod rng;
mod rt;
mod seam;

#[global_allocator]
static GLOBAL: alloc::Guarded = alloc::Guarded;

use harness::{Prop, Rep, Res};

/// Run one plan on a fresh thread, so that thread-local state (the keys of hash
/// maps) is no different from a run on its own; panics of the harness itself are
/// not violations.
pub fn run_plan(p: &Prop, plan: &serde_json::Value, rep: &mut Rep) -> Result<Res, String> {
    rt::host(|| match std::panic::catch_unwind(std::panic::AssertUnwindSafe(|| (p.run)(plan, rep))) {
        Ok(r) => Ok(r),
        Err(_) => Err(seam::last_panic()),
    })
}

/// One-time work of dependencies (processor features, lazy tables) is done
/// before any run, so that no run depends on which came before it.
fn warm_up() {
    for c in disk::CODECS {
        for v in [0.0, 1.0, 0.1, 1e300, -2.5, f64::INFINITY] {
            if let Ok(b) = c.to_vec(&(v, "text", vec![v])) {
                let _ = c.from_slice::<(f64, String, Vec<f64>)>(&b);
            }
        }
    }
    let _ = std::hint::black_box(format!("{:?} {:e}", 0.1, 1e300));
}

fn main() {
    seam::install_hook();
    warm_up();
    let args: Vec<String> = std::env::args().collect();
    let code = match args.get(1).map(|s| s.as_str()) {
        Some("check") => parent::check(&args[2..]),
        Some("worker") => parent::worker(&args[2..]),
        Some("abroad") => abroad::answer(),
        Some("exec") => parent::exec(&args[2..]),
        Some("replay") => parent::replay(&args[2..]),
        Some("plan") => parent::show_plan(&args[2..]),
        Some("trace") => parent::trace(&args[2..]),
        Some("list") => {
            for p in props::all() {
                println!("{}", p.id);
            }
            0
        },
        _ => {
            eprintln!("usage: sim check --property ID | replay FILE | trace --property ID --from A --to B | plan --property ID --index I");
            2
        },
    };
    std::process::exit(code);
}
