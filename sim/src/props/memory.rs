//! C16: what long histories hold, and give back.
use super::*;
use crate::alloc;
use crate::disk::{Codec, Faulty, StreamPlan};
use crate::ensure;
use crate::harness::{decode, encode};
use crate::optim::OptRecipe;
use crate::props::feats::{build, F1, F2};
use crate::phi::FeatRecipe;
use crate::props::learn::set_x;
use crate::seam::{self, Seam};
use lfa::Features;
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct MemPlan {
    pub key: u64,
    pub cfg: Config,
    /// How often the operations are gone through.
    pub rounds: u32,
    /// How far inputs move from one round to the next.
    pub drift: f64,
    pub ops: Vec<MOp>,
    /// Each round on a thread of its own, which then ends.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub threads: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum MOp {
    Call { call: Call, fault: Option<Fault> },
    /// Start the feature vectors afresh.
    New { a: usize, f: FeatRecipe, how: u8 },
    Map { a: usize, f: F1, inplace: bool, fault: Option<u32> },
    Merge { a: usize, b: usize, f: F2, inplace: bool, fault: Option<u32> },
    Stack { a: usize, b: usize },
    Remove { a: usize, i: usize },
    Fold { a: usize, fault: Option<u32> },
    Store { codec: Codec, save: StreamPlan, load: StreamPlan, cut: Option<u32> },
    Clone,
    /// A step of the optimiser by itself.
    Step { f: FeatRecipe, scale: Option<f64> },
    Reset,
    /// Drop the approximator and build another.
    Rebuild,
    /// One feature by index, further beyond the end each time.
    Beyond { x: Vec<f64> },
    /// Products, sums and additions to weights.
    Algebra { a: usize, b: usize },
    /// Save and load the feature vector.
    Keep { a: usize, codec: Codec, cut: Option<u32> },
}

impl MemPlan {
    pub fn random(r: &mut Rng, rounds: u32) -> MemPlan {
        let opt = OptRecipe::any(r);
        let cfg = Config::random(r, opt, 40);
        let k = r.range(1, 3);
        let pool = crate::basis::pool(r, cfg.dim, k);
        let drift = if r.pct(50) { 0.0 } else { *r.pick(&[1e-3, 0.0137, 0.25]) };
        let n = r.range(1, 12);
        let feats = r.pct(50);
        let nb: usize = spaces::Space::dim(&cfg.basis.build(cfg.dim)).into();
        let ops = (0..r.range(1, 8))
            .map(|_| {
                let fault = if r.pct(40) { Some(r.u32()) } else { None };
                let (a, b) = (r.below(2), r.below(2));
                match r.below(if feats { 24 } else { 12 }) {
                    22 => MOp::Algebra { a, b },
                    23 => MOp::Keep { a, codec: Codec::random(r), cut: if r.pct(40) { Some(r.u32() % 100) } else { None } },
                    10 | 11 => match r.below(4) {
                        0 => MOp::Reset,
                        1 => MOp::Rebuild,
                        2 => MOp::Beyond { x: r.pick(&pool).clone() },
                        _ => MOp::Step { f: FeatRecipe::random(r, nb), scale: if r.pct(40) { None } else { Some(Call::error(r)) } },
                    },
                    0..=7 => {
                        let mut call = Call::random(r, cfg.dim, cfg.outputs);
                        set_x(&mut call, r.pick(&pool).clone());
                        let fault = some_fault(r, 40, &[0, 1, 1, 2]);
                        MOp::Call { call, fault }
                    },
                    8 => MOp::Store {
                        codec: Codec::random(r),
                        save: StreamPlan { chop: r.u64() >> 8, fail_at: if r.pct(50) { Some(r.u32() % 300) } else { None }, kind: 0 },
                        load: StreamPlan { chop: r.u64() >> 8, fail_at: if r.pct(50) { Some(r.u32() % 300) } else { None }, kind: 0 },
                        cut: if r.pct(40) { Some(r.u32() % 300) } else { None },
                    },
                    9 => MOp::Clone,
                    12 | 13 => MOp::New { a, f: FeatRecipe::random(r, n), how: r.below(4) as u8 },
                    14 | 15 => MOp::Map { a, f: F1::random(r), inplace: r.pct(60), fault },
                    16 | 17 => MOp::Merge { a, b, f: F2::random(r), inplace: r.pct(60), fault },
                    18 | 19 => MOp::Stack { a, b },
                    20 => MOp::Remove { a, i: r.below(n + 1) },
                    _ => MOp::Fold { a, fault },
                }
            })
            .collect();
        MemPlan { key: r.u64(), cfg, rounds, drift, ops, threads: false }
    }
}

pub fn c16() -> Prop {
    Prop {
        id: "C16",
        gen: |r, thorough| {
            let mut p = MemPlan::random(r, if thorough { 300 } else { 80 });
            p.threads = r.pct(10);
            encode(&p)
        },
        run: run_c16,
        quick: 8_000,
        thorough: 300_000,
        rule: "one run = a seeded round of operations on one approximator and two feature vectors, with failures and caught panics, gone through 80 (thorough: 300) times under a counting allocator; with inputs recurring or drifting; what is held may not keep growing by 256 bytes or 4 blocks over as many rounds again (followed eight times as far when it grows at all), and dropping everything gives all of it back; double, mismatched or overrunning frees end the run; non-trivial = a fault fired; distinct = distinct hash of everything observed",
        real: REAL_LFA,
        stub: STUB_CALLER,
        assumptions: &["memory is counted at the global allocator, in bytes asked for"],
    }
}

fn run_c16(v: &Value, rep: &mut Rep) -> Res {
    let p: MemPlan = decode(v);
    let ((res, inner), steps) = rt::incarnation(p.key, STEPS, || {
        let mut rep = Rep::default();
        // The compiler forgets what a function is about to return when dropping
        // one of its arguments panics.
        crate::seam::drops_panic(false);
        let res = body(&p, &mut rep);
        crate::seam::drops_panic(true);
        (res, rep)
    });
    rep.absorb(&inner);
    rep.steps += steps;
    res
}

pub fn fresh() -> [Features; 2] { [Features::dense(vec![0.25; 3]), Features::unitary(4, vec![1, 2])] }

/// Faults that fired, by name and without memory of their own growing.
pub type Fired = std::collections::BTreeMap<String, u64>;

fn armed(fault: &Option<u32>, dry: impl FnOnce()) -> Option<seam::Armed> {
    let x = (*fault)?;
    seam::begin(None, false);
    let d = seam::catch(dry);
    let seen = seam::end();
    d.ok().and_then(|_| seam::resolve(&Fault::Panic(x), &seen))
}

fn go<T>(a: Option<seam::Armed>, fired: &mut Fired, f: impl FnOnce() -> T) -> Option<T> {
    seam::begin(a, false);
    let r = seam::catch(f);
    let seen = seam::end();
    if let Some(s) = seen.fired {
        *fired.entry(s).or_insert(0) += 1;
    }
    r.ok()
}

pub fn round(p: &MemPlan, anew: bool, now: &mut u32, fa: &mut Fa, regs: &mut [Features; 2], fired: &mut Fired, trace: &mut Rep) {
    rt::refill(STEPS);
    if anew {
        *regs = fresh();
    }
    *now += 1;
    let g1 = |f: &F1, x: f64| {
        seam::event(Seam::Function);
        f.at(x)
    };
    let g2 = |f: &F2, x: f64, y: f64| {
        seam::event(Seam::Function);
        f.at(x, y)
    };
    for op in &p.ops {
        match op {
            MOp::Call { call, fault } => {
                let mut call = call.clone();
                if let (Some(x), true) = (call.x(), p.drift != 0.0) {
                    // Back and forth over a few units, never to the same place.
                    let d = (*now as f64 * p.drift) % 3.0 + *now as f64 * 1e-7;
                    let x = x.iter().map(|v| v + d).collect();
                    set_x(&mut call, x);
                }
                let o = fa.faulted(&call, fault, false);
                trace.u(o.seen.events);
                if let Some(s) = o.seen.fired {
                    *fired.entry(s).or_insert(0) += 1;
                }
            },
            MOp::New { a, f, how } => regs[*a] = build(f, *how).0,
            MOp::Map { a, f, inplace, fault } => {
                let old = regs[*a].clone();
                let arm = armed(fault, || drop(old.map(|x| g1(f, x))));
                if *inplace {
                    let r = &mut regs[*a];
                    go(arm, fired, || r.map_inplace(|x| g1(f, x)));
                } else if let Some(n) = go(arm, fired, || old.map_into(|x| g1(f, x))) {
                    regs[*a] = n;
                }
            },
            MOp::Merge { a, b, f, inplace, fault } => {
                let (old, other) = (regs[*a].clone(), regs[*b].clone());
                if old.is_dense() && other.is_dense() && old.n_features() != other.n_features() {
                    continue;
                }
                let arm = armed(fault, || drop(old.merge(&other, |x, y| g2(f, x, y))));
                if *inplace {
                    let r = &mut regs[*a];
                    go(arm, fired, || r.merge_inplace(&other, |x, y| g2(f, x, y)));
                } else if let Some(n) = go(arm, fired, || old.merge_into(&other, |x, y| g2(f, x, y))) {
                    regs[*a] = n;
                }
            },
            MOp::Stack { a, b } => {
                let other = regs[*b].clone();
                if regs[*a].n_features() + other.n_features() < 200 {
                    let old = std::mem::replace(&mut regs[*a], Features::dense(vec![]));
                    regs[*a] = old.stack(other);
                }
            },
            MOp::Remove { a, i } => regs[*a].remove(*i),
            MOp::Fold { a, fault } => {
                let r = &regs[*a];
                let f = |acc: f64, x: &f64| {
                    seam::event(Seam::Function);
                    acc + x
                };
                let arm = armed(fault, || drop(r.fold(0.0, f)));
                go(arm, fired, || r.fold(0.0, f));
            },
            MOp::Store { codec, save, load, cut } => {
                let (mut s, w) = Faulty::new(Vec::new(), save);
                let ok = codec.save(fa, &mut s).is_ok();
                let mut b = s.inner;
                if let Some(n) = cut {
                    b.truncate(*n as usize);
                }
                let (mut s, q) = Faulty::new(&b[..], load);
                let back = codec.load::<Fa, _>(&mut s);
                trace.u(ok as u64 * 2 + back.is_ok() as u64);
                for (n, f) in [("write error", w.get().2), ("read error", q.get().2), ("truncated", cut.is_some() as u64)] {
                    if f > 0 {
                        *fired.entry(n.to_string()).or_insert(0) += 1;
                    }
                }
            },
            MOp::Clone => {
                let c = fa.clone();
                *fa = c;
            },
            MOp::Step { f, scale } => {
                let f = f.build();
                if f.n_features() == fa.weights()[0].len() {
                    trace.u(raw_step(fa, 0, &f, *scale).is_ok() as u64);
                }
            },
            MOp::Reset => drop(fa.faulted(&Call::Reset, &None, false)),
            MOp::Rebuild => *fa = p.cfg.build(),
            MOp::Beyond { x } => {
                let n: usize = spaces::Space::dim(fa.basis()).into();
                let call = Call::Ith { x: x.clone(), i: n + *now as usize };
                trace.u(fa.faulted(&call, &None, false).seen.events);
            },
            MOp::Algebra { a, b } => {
                let (f, g) = (&regs[*a], &regs[*b]);
                let n = f.n_features();
                let w = ndarray::Array2::from_elem((n, 3), 0.5);
                let mut v = ndarray::Array1::from_elem(n, 0.25);
                trace.f(f.dot(&v.view()));
                trace.fs(&f.matmul(&w).to_vec());
                f.scaled_addto(0.5, &mut v);
                f.addto(&mut v);
                trace.f(v.sum() + f.sum() + f.clone().into_dense().sum());
                if g.n_features() == n {
                    trace.f(ndarray::linalg::Dot::dot(f, g));
                }
            },
            MOp::Keep { a, codec, cut } => {
                if let Ok(mut b) = codec.to_vec(&regs[*a]) {
                    if let Some(n) = cut {
                        b.truncate(*n as usize);
                    }
                    trace.u(codec.load::<Features, _>(&mut &b[..]).is_ok() as u64);
                }
            },
        }
    }
}

fn body(p: &MemPlan, rep: &mut Rep) -> Res {
    let sink = alloc::Sink::default();
    let turns = std::cell::Cell::new(0i64);
    // What starting and ending a thread leaves on these counts by itself.
    let each = std::cell::Cell::new((0, 0));
    let live = || {
        let (a, b, t, e) = (alloc::live(), sink.held(), turns.get(), each.get());
        (a.0 + b.0 - t * e.0, a.1 + b.1 - t * e.1)
    };
    let idle = std::cell::Cell::new(p.threads);
    let mut round = |p: &MemPlan, anew: bool, now: &mut u32, fa: &mut Fa, regs: &mut [Features; 2], fired: &mut Fired, trace: &mut Rep| {
        if !p.threads {
            return round(p, anew, now, fa, regs, fired, trace);
        }
        turns.set(turns.get() + 1);
        let sink = &sink as *const alloc::Sink as usize;
        let idle = idle.get();
        let steps = rt::incarnation(crate::rng::mix(p.key ^ turns.get() as u64), STEPS, || {
            unsafe { alloc::count_in(sink as *const alloc::Sink) };
            seam::drops_panic(false);
            if !idle {
                round(p, anew, now, fa, regs, fired, trace);
            }
        })
        .1;
        trace.steps += steps;
    };
    let mut fired = Fired::new();
    for s in [Seam::Node, Seam::Input, Seam::Kernel, Seam::Hasher, Seam::Callback, Seam::ErrorIter, Seam::Function, Seam::OptBefore, Seam::OptAfter, Seam::Clone] {
        fired.insert(format!("panic@{s:?}"), 0);
    }
    for s in ["node_err", "opt_err", "write error", "read error", "truncated"] {
        fired.insert(s.to_string(), 0);
    }
    // One round before anything is counted: lazy state of the runtime, names of
    // faults, panic messages.
    {
        let mut fa = p.cfg.build();
        let mut regs = fresh();
        if p.threads {
            let mut ends = || {
                for _ in 0..16 {
                    round(p, true, &mut 0, &mut fa, &mut regs, &mut fired, &mut Rep::default());
                }
                live()
            };
            let (a, b) = (ends(), ends());
            each.set(((b.0 - a.0) / 16, (b.1 - a.1) / 16));
            idle.set(false);
        }
        for _ in 0..2 {
            round(p, true, &mut 0, &mut fa, &mut regs, &mut fired, &mut Rep::default());
        }
    }
    let base = live();
    let mut fa = p.cfg.build();
    let mut regs = fresh();
    let mut trace = Rep::default();
    let mut now = 0;
    for _ in 0..6 {
        round(p, true, &mut now, &mut fa, &mut regs, &mut fired, &mut trace);
    }
    let warm = live();
    let mut batch = || {
        for _ in 0..p.rounds {
            round(p, true, &mut now, &mut fa, &mut regs, &mut fired, &mut trace);
        }
        let l = live();
        (l.0 - warm.0, l.1 - warm.1)
    };
    let mut grown = batch();
    // Something kept up to a limit stops growing; go on until it must have.
    let mut bounded = true;
    if grown.0 > 256 || grown.1 > 4 {
        rep.probe("growth followed further");
        for _ in 0..3 {
            grown = batch();
        }
        let half = grown;
        for _ in 0..4 {
            grown = batch();
        }
        let late = (grown.0 - half.0, grown.1 - half.1);
        bounded = (late.0 <= 256 || late.0 < half.0 / 2) && (late.1 <= 4 || late.1 < half.1 / 2);
    }
    let end = live();
    drop(fa);
    drop(regs);
    let left = live();
    rep.ops += (p.rounds as u64 + 8) * p.ops.len() as u64;
    rep.u(trace.trace);
    rep.fs(&[(end.0 - base.0) as f64, (end.1 - base.1) as f64]);
    for op in &p.ops {
        rep.shape_str(&format!("{op:?}").chars().take(6).collect::<String>());
    }
    for (k, n) in fired.iter().filter(|(_, n)| **n > 0) {
        *rep.faults.entry(k.clone()).or_insert(0) += n;
        rep.shape_str(k);
    }
    if p.threads {
        rep.probe("rounds on threads that end");
    }
    ensure!(bounded, "grows", "{} rounds of {} operations: {} bytes in {} blocks more than before them, and no sign of an end", p.rounds * 8, p.ops.len(), grown.0, grown.1);
    let left = (left.0 - base.0, left.1 - base.1);
    ensure!(left.0.abs() <= 256 && left.1.abs() <= 4, "not-returned", "{} bytes in {} blocks are left after everything was dropped", left.0, left.1);
    Ok(())
}
