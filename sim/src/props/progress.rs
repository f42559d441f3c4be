//! C13: learning over a faulty network, on a learner that crashes.
use super::*;
use crate::basis::{input, In, Recipe};
use crate::disk::{Codec, Disk};
use crate::ensure;
use crate::harness::{decode, encode, violation};
use crate::optim::OptRecipe;
use crate::phi::{near, same_bits};
use lfa::optim::Optimiser;
use lfa::basis::Basis;
use serde_json::Value;
use std::collections::BTreeMap;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct NetPlan {
    key: u64,
    cfg: Config,
    /// The rate, as a multiple of 1 / max |features|^2 for plain SGD.
    rate: f64,
    implicit: bool,
    truth: u64,
    /// Samples sent by sensors.
    ops: Vec<Send>,
    partitions: Vec<(u8, u32, u32)>,
    /// Learner goes down at, comes back after.
    more: Vec<(u32, u32)>,
    checkpoints: Vec<(u32, Codec)>,
    /// Afterwards, without faults: an optimiser and a sample.
    last: OptRecipe,
    sample: Vec<f64>,
    offset: f64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Send {
    t: u32,
    sensor: u8,
    x: Vec<f64>,
    /// One delay for each copy that arrives; none: lost.
    delays: Vec<u32>,
    fault: Option<Fault>,
    /// 0 update with computed errors, 1 update, 2 one output only.
    how: u8,
    /// It fails as often before it succeeds.
    #[serde(default, skip_serializing_if = "zero")]
    storm: u32,
}

fn zero(n: &u32) -> bool { *n == 0 }

pub fn c13() -> Prop {
    Prop {
        id: "C13",
        gen: |r, thorough| {
            let mut cfg = Config::random(r, OptRecipe::Sgd(0.1), 40);
            cfg.layout = r.below(4) as u8;
            while crude(&cfg.basis) {
                let d = r.below(3);
                cfg.basis = Recipe::bounded(r, cfg.dim, d, 40);
            }
            let horizon = if thorough { 3000 } else { 800 };
            let loss = *r.pick(&[0, 10, 40]);
            let dup = *r.pick(&[0, 10, 40]);
            let jitter = *r.pick(&[1, 30, 300]);
            let n = r.range(1, 6);
            let pool = crate::basis::pool(r, cfg.dim, n);
            let fault_pct = *r.pick(&[0, 10, 30]);
            let mut ops: Vec<Send> = (0..r.range(2, if thorough { 80 } else { 30 }))
                .map(|_| {
                    let copies = if r.pct(loss) { 0 } else if r.pct(dup) { r.range(2, 3) } else { 1 };
                    Send {
                        t: r.below(horizon) as u32,
                        sensor: r.below(3) as u8,
                        x: if r.pct(70) { r.pick(&pool).clone() } else { input(r, cfg.dim) },
                        delays: (0..copies).map(|_| 1 + r.below(jitter) as u32).collect(),
                        fault: some_fault(r, fault_pct, &[0, 1]),
                        how: r.below(3) as u8,
                        storm: 0,
                    }
                })
                .collect();
            if r.pct(5) {
                // An outage.
                let k = r.below(ops.len());
                ops[k].storm = r.range(20, 300) as u32;
                ops[k].fault = some_fault(r, 100, &[0, 0, 1]);
                ops[k].delays = vec![1 + r.below(jitter) as u32];
            }
            let partitions = (0..*r.pick(&[0, 0, 1, 3])).map(|_| {
                let a = r.below(horizon) as u32;
                (r.below(3) as u8, a, a + r.range(10, 300) as u32)
            }).collect();
            let more = (0..*r.pick(&[0, 0, 1, 3])).map(|_| (r.below(horizon) as u32, r.range(1, 60) as u32)).collect();
            let checkpoints = (0..r.below(6)).map(|_| (r.below(horizon) as u32, Codec::random(r))).collect();
            let last = match r.below(8) {
                0 => OptRecipe::Sgd(*r.pick(&[0.3, 0.7, 1.0, 1.5])),
                1 => OptRecipe::Isgd(*r.pick(&[0.5, 1.0, 10.0])),
                2 => OptRecipe::Mom { m: *r.pick(&[0.5, 0.9]), lr: *r.pick(&[0.05, 0.1]) },
                3 => OptRecipe::Nag { m: *r.pick(&[0.5, 0.9]), lr: *r.pick(&[0.05, 0.1]) },
                4 => OptRecipe::Adagrad(0.2),
                5 | 6 => OptRecipe::Adam { lr: 0.025, b1: *r.pick(&[0.5, 0.9]), b2: *r.pick(&[0.99, 0.999]) },
                _ => OptRecipe::AdaMax { lr: 0.025, b1: *r.pick(&[0.5, 0.9]), b2: *r.pick(&[0.99, 0.999]) },
            };
            let implicit = r.pct(50);
            let rate = *r.pick(&[0.05, 0.3, 0.7, 1.0, 1.5, 1.9]);
            encode(&NetPlan {
                key: r.u64(),
                cfg,
                rate: if implicit && r.pct(20) { *r.pick(&[1e-4, 20.0, 400.0, 1e4, 1e6, 1e8]) } else { rate },
                implicit,
                truth: r.u64() >> 8,
                ops,
                partitions,
                more,
                checkpoints,
                last,
                sample: input(r, 3),
                offset: r.uniform(0.5, 2.0) * if r.pct(50) { 1.0 } else { -1.0 },
            })
        },
        run: run_c13,
        quick: 40_000,
        thorough: 1_000_000,
        rule: "one run = one seeded simulated network in which sensors send samples of an exact linear truth to a learner through loss, duplication, delay, reordering and partitions, while calls fail or panic in the basis and callbacks and the learner crashes and restores its last durable (stale) checkpoint; after every completed update the distance to fitting weights and the residual factor are checked against the rule; then, without faults, a seeded optimiser has to reduce the error on one sample to 5 % within 2000 updates; non-trivial = a fault fired; distinct = distinct hash of everything observed",
        real: REAL_LFA,
        stub: &["sensors, network, clock, disk", "the caller: error callbacks and iterators, hasher, user kernel, user basis behind Closure", "hash keys (getrandom)"],
        assumptions: &["suitable rates are scaled by the sample's features: c/|phi|^2 for SGD, momentum and Nesterov, c*error/|phi|_1 for Adagrad, Adam, AdaMax", "adaptive optimisers start the fault-free phase new or reset, one output at a time"],
    }
}

/// Bases whose features can grow without bound or lose all precision on inputs
/// outside their limits.
fn crude(b: &Recipe) -> bool {
    match b {
        Recipe::Cheb { order, .. } => *order > 4,
        Recipe::Stack(a, b) => crude(a) || crude(b),
        Recipe::Biased(a) | Recipe::Norm(_, a) => crude(a),
        _ => false,
    }
}

fn run_c13(v: &Value, rep: &mut Rep) -> Res {
    let p: NetPlan = decode(v);
    let ((res, inner), steps) = rt::incarnation(p.key, STEPS, || {
        let mut rep = Rep::default();
        let res = body(&p, &mut rep);
        (res, rep)
    });
    rep.absorb(&inner);
    rep.steps += steps;
    res
}

#[derive(Clone, Debug)]
enum Event {
    Deliver(usize),
    Checkpoint(Codec),
    Down,
    Up,
}

fn dist2(w: &[f64], t: &[f64]) -> f64 { w.iter().zip(t).map(|(a, b)| (a - b) * (a - b)).sum() }

fn body(p: &NetPlan, rep: &mut Rep) -> Res {
    let pristine = p.cfg.basis.build(p.cfg.dim);
    let phi_of = |x: &[f64]| pristine.project(In(x)).ok().and_then(|f| Phi::of(&f).ok()).filter(|f| f.finite() && f.max() < 1e4);
    let biggest = p.ops.iter().filter_map(|s| phi_of(&s.x)).map(|f| f.norm2()).fold(1e-6, f64::max);
    let lr = if p.implicit { p.rate * 5.0 } else { p.rate / biggest };
    let mut cfg = p.cfg.clone();
    cfg.opt = if p.implicit { OptRecipe::Isgd(lr) } else { OptRecipe::Sgd(lr) };
    let mut fa = cfg.build();
    let n: usize = spaces::Space::dim(&pristine).into();
    let m = fa.cols();
    let mut r = Rng::new(p.truth);
    let truth: Vec<Vec<f64>> = (0..m).map(|_| (0..n).map(|_| r.uniform(-1.5, 1.5)).collect()).collect();

    // The network delivers.
    let mut events: BTreeMap<(u32, u32), Event> = BTreeMap::new();
    let mut id = 0;
    let mut at = |t: u32, e: Event, events: &mut BTreeMap<(u32, u32), Event>| {
        id += 1;
        events.insert((t, id), e);
    };
    for (k, s) in p.ops.iter().enumerate() {
        if s.delays.is_empty() {
            rep.fault("message lost");
        }
        if s.delays.len() > 1 {
            rep.fault("message duplicated");
        }
        for d in &s.delays {
            let t = s.t + d;
            if p.partitions.iter().any(|(q, a, b)| *q == s.sensor && t >= *a && t < *b) {
                rep.fault("message lost to a partition");
                continue;
            }
            if *d > 30 {
                rep.fault("message delayed");
            }
            at(t, Event::Deliver(k), &mut events);
        }
    }
    for (t, c) in &p.checkpoints {
        at(*t, Event::Checkpoint(*c), &mut events);
    }
    for (t, down) in &p.more {
        at(*t, Event::Down, &mut events);
        at(t + down, Event::Up, &mut events);
    }

    let mut disk = Disk::default();
    let mut saved: Option<(Codec, Vec<f64>)> = None;
    let mut down = 0;
    let mut now = 0;
    let mut sent = 0;
    for ((t, _), e) in &events {
        now = *t;
        match e {
            Event::Checkpoint(c) if down == 0 => {
                let b = match c.to_vec(&fa) {
                    Ok(b) => b,
                    Err(e) => return violation(format!("save:{c:?}"), format!("t={t}: {e}")),
                };
                disk.create("new");
                disk.append("new", &b);
                disk.sync("new");
                disk.rename("new", "ckpt");
                saved = Some((*c, (0..m).map(|j| dist2(&fa.weights()[j], &truth[j])).collect()));
                rep.shape_str("ck");
            },
            Event::Checkpoint(_) => {},
            Event::Down => {
                down += 1;
                if down == 1 {
                    rep.fault("learner crash");
                    disk.crash(&mut r);
                }
            },
            Event::Up => {
                down -= 1;
                if down == 0 {
                    fa = match (&saved, disk.read("ckpt")) {
                        (Some((c, d)), Some(b)) => match c.from_slice::<Fa>(b) {
                            Ok(f) => {
                                rep.fault("stale checkpoint restored");
                                for j in 0..m {
                                    let now = dist2(&f.weights()[j], &truth[j]);
                                    ensure!(near(now, d[j], 1e-9, 1e-9), "recovery", "t={t}: output {j} is {now:e} away from the truth, {:e} when it was saved", d[j]);
                                }
                                f
                            },
                            Err(e) => return violation(format!("load:{c:?}"), format!("t={t}: {e}")),
                        },
                        _ => cfg.build(),
                    };
                }
            },
            Event::Deliver(_) if down > 0 => rep.fault("message lost to a crash"),
            Event::Deliver(k) => {
                let s = &p.ops[*k];
                if *k < sent {
                    rep.probe("message out of order");
                }
                sent = sent.max(*k);
                let phi = match phi_of(&s.x) {
                    Some(f) => f,
                    None => {
                        rep.probe("sample skipped: features not finite");
                        continue;
                    },
                };
                deliver(p, *t, s, &phi, &mut fa, &truth, lr, &mut r, rep)?;
            },
        }
        if !finite(&fa) {
            return violation("diverged", format!("t={t}: weights left all bounds at a stable rate"));
        }
    }
    rep.sim_time += now as u64;

    settle(p, fa, rep)
}

fn deliver(p: &NetPlan, t: u32, s: &Send, phi: &Phi, fa: &mut Fa, truth: &[Vec<f64>], lr: f64, r: &mut Rng, rep: &mut Rep) -> Res {
    let m = fa.cols();
    let y: Vec<f64> = truth.iter().map(|w| phi.dot(w)).collect();
    let before = fa.weights();
    let residual: Vec<f64> = (0..m).map(|j| y[j] - phi.dot(&before[j])).collect();
    let only = r.below(m);
    let call = match s.how {
        0 => Call::UpdateWith { x: s.x.clone(), t: y.clone(), style: 0 },
        1 => Call::Update { x: s.x.clone(), e: residual.clone(), lazy: true },
        _ => Call::UpdateIdx { x: s.x.clone(), i: only, e: residual[only] },
    };
    // Lost calls are retried once, as an at-least-once transport would.
    for attempt in 0..2 + s.storm {
        let fault = if attempt <= s.storm { s.fault.clone() } else { None };
        let obs = fa.faulted(&call, &fault, false);
        note(rep, &call, &obs, fa);
        let ok = match &obs.ret {
            Ret::Unit => true,
            Ret::Err(e) => {
                ensure!(obs.seen.fired.is_some(), "update-error", "t={t}: {e:?}");
                false
            },
            Ret::SimPanic => false,
            o => return violation("update-failed", format!("t={t}: {o:?}")),
        };
        let after = fa.weights();
        let n2 = phi.norm2();
        let factor = if p.implicit { 1.0 / (1.0 + lr * n2) } else { 1.0 - lr * n2 };
        for j in 0..m {
            let mag: f64 = before[j].iter().chain(&truth[j]).fold(1.0f64, |m, w| m.max(w.abs()));
            let scale = mag * mag * before[j].len() as f64;
            let moved = !same_bits(&before[j], &after[j]);
            // A vector that fits this sample: the truth, and the truth moved
            // at right angles to the features.
            let mut other = truth[j].clone();
            let u: Vec<f64> = other.iter().map(|_| r.uniform(-1.0, 1.0)).collect();
            let along = if n2 > 0.0 { phi.dot(&u) / n2 } else { 0.0 };
            for (i, o) in other.iter_mut().enumerate() {
                *o += u[i] - along * phi.v[i];
            }
            for (what, w) in [("truth", &truth[j]), ("other", &other)] {
                let (d0, d1) = (dist2(&before[j], w), dist2(&after[j], w));
                ensure!(d1 <= d0 + 1e-9 * scale, format!("regress:{}", if p.implicit { "ISGD" } else { "SGD" }), "t={t} output {j}: squared distance to fitting weights ({what}) went from {d0:e} to {d1:e} at rate {lr:e}, |features|^2 = {n2:e}");
            }
            let addressed = s.how != 2 || j == only || !fa.is_vector();
            if addressed && (ok || moved) {
                let now = y[j] - phi.dot(&after[j]);
                let m1 = phi.dot_mag(&after[j]) + phi.dot_mag(&before[j]) + y[j].abs();
                ensure!(near(now, factor * residual[j], m1 * (1.0 + lr * n2), 1e-11), format!("factor:{}", if p.implicit { "ISGD" } else { "SGD" }), "t={t} output {j}: the error on the sample went from {:e} to {now:e}, not to {:e}", residual[j], factor * residual[j]);
            }
            ensure!(addressed || !moved, "other-output-moved", "t={t} output {j}");
        }
        if ok {
            return Ok(());
        }
        if after.iter().zip(&before).any(|(a, b)| !same_bits(a, b)) {
            // Cut short part way: the sample's residuals differ now.
            return Ok(());
        }
    }
    violation("no-progress", format!("t={t}: an update without a fault did not complete"))
}

/// Faults have stopped: progress on one repeated sample.
fn settle(p: &NetPlan, fa: Fa, rep: &mut Rep) -> Res {
    let x = &p.sample[..p.cfg.dim.min(p.sample.len())];
    if x.len() != p.cfg.dim {
        return Ok(());
    }
    let phi = match fa.phi(x) {
        Ok(f) if f.finite() && f.max() < 1e4 && f.max() > 1e-3 => f,
        _ => {
            rep.probe("settling skipped: no features at the sample");
            return Ok(());
        },
    };
    let l1: f64 = phi.v.iter().map(|a| a.abs()).sum();
    let n2 = phi.norm2();
    let unit = p.offset.abs() / l1;
    let mut cfg = p.cfg.clone();
    cfg.opt = match p.last.clone() {
        OptRecipe::Sgd(c) => OptRecipe::Sgd(c / n2),
        OptRecipe::Isgd(c) => OptRecipe::Isgd(c / n2),
        OptRecipe::Mom { m, lr } => OptRecipe::Mom { m, lr: lr / n2 },
        OptRecipe::Nag { m, lr } => OptRecipe::Nag { m, lr: lr / n2 },
        OptRecipe::Adagrad(c) => OptRecipe::Adagrad(c * unit),
        OptRecipe::Adam { lr, b1, b2 } => OptRecipe::Adam { lr: lr * unit, b1, b2 },
        OptRecipe::AdaMax { lr, b1, b2 } => OptRecipe::AdaMax { lr: lr * unit, b1, b2 },
        o => o,
    };
    let name = crate::props::learn::kind(&cfg.opt);
    let mut last = cfg.build();
    last.set_weights(&fa.weights());
    let j = (p.truth as usize) % last.cols();
    // A used optimiser that was reset has to do as well as a new one.
    if p.truth % 3 == 0 {
        let e = vec![0.7; last.cols()];
        for k in 0..3 {
            let y = input(&mut Rng::new(p.truth + k), p.cfg.dim);
            if last.phi(&y).map_or(false, |f| f.finite()) {
                let _ = last.call(&Call::Update { x: y, e: e.clone(), lazy: false }, None, false);
            }
        }
        last.opt_mut().reset();
        last.set_weights(&fa.weights());
        rep.fault("optimiser used and reset");
    }
    // Nothing to learn, nothing moves.
    let w = last.weights();
    for call in [Call::Update { x: x.to_vec(), e: vec![0.0; last.cols()], lazy: false }, Call::UpdateIdx { x: x.to_vec(), i: j, e: 0.0 }] {
        let o = last.call(&call, None, false);
        ensure!(matches!(o.ret, Ret::Unit), "update-failed", "{:?}", o.ret);
        ensure!(w.iter().flatten().zip(last.weights().iter().flatten()).all(|(a, b)| a == b), format!("zero-error-moves:{name}"), "{:?} became {:?}", w, last.weights());
    }
    last.opt_mut().reset();
    let target = phi.dot(&last.weights()[j]) + p.offset;
    let mut best = f64::INFINITY;
    for step in 0..2000 {
        let e = target - phi.dot(&last.weights()[j]);
        best = best.min(e.abs());
        if e.abs() <= 0.05 * p.offset.abs() {
            rep.probe("settled");
            rep.u(step);
            rep.sim_time += step;
            return Ok(());
        }
        let o = last.call(&Call::UpdateIdx { x: x.to_vec(), i: j, e }, None, false);
        ensure!(matches!(o.ret, Ret::Unit), "update-failed", "{:?}", o.ret);
    }
    violation(format!("does-not-settle:{name}"), format!("after 2000 updates on one sample at {:?} the error is {best:e} at best, from {:e}", cfg.opt, p.offset))
}
