//! C01, C07, C08, C15: calls on approximators under failing and cancelled calls.
use super::*;
use crate::ensure;
use crate::fa::errors_of;
use crate::harness::{decode, encode, violation};
use crate::optim::{OptRecipe, RefOpt};
use crate::phi::{close, near, same_bits, FeatRecipe, Phi};
use serde_json::Value;

pub fn history(r: &mut Rng, opt: OptRecipe, max_features: usize, ops: usize, fault_pct: usize, kinds: &[u8]) -> History {
    let key = r.u64();
    let cfg = Config::random(r, opt, max_features);
    let mut h = history_on(r, key, cfg, ops, fault_pct, kinds);
    again_and_again(r, &mut h, kinds);
    h
}

/// Now and then a call fails more often than anybody keeps count of.
fn again_and_again(r: &mut Rng, h: &mut History, kinds: &[u8]) {
    if r.below(100) > 0 || h.ops.is_empty() || kinds.is_empty() {
        return;
    }
    let with = h.ops.iter().position(|o| matches!(o.call, Call::UpdateWith { .. }));
    let i = with.filter(|_| r.pct(40)).unwrap_or(r.below(h.ops.len()));
    let mut op = h.ops[i].clone();
    while op.fault.is_none() {
        op.fault = some_fault(r, 100, kinds);
    }
    let times = *r.pick(&[20, 40, 40, 70, 70, 140, 300]);
    h.ops.splice(i..i, vec![op; times]);
}

fn history_on(r: &mut Rng, key: u64, cfg: Config, ops: usize, fault_pct: usize, kinds: &[u8]) -> History {
    // Few distinct inputs per run, so that features recur.
    let n = r.range(1, 4);
    let pool = crate::basis::pool(r, cfg.dim, n);
    let ops = (0..ops)
        .map(|_| {
            let mut call = Call::random(r, cfg.dim, cfg.outputs);
            if r.pct(60) {
                let p = r.pick(&pool).clone();
                set_x(&mut call, p);
            }
            Op { call, fault: some_fault(r, fault_pct, kinds), raw: None, edit: None }
        })
        .collect();
    History { key, cfg, ops, guest: vec![] }
}

/// Now and then, caller code uses another approximator while it is called back
/// by this one: one much like it, or any.
fn invite(r: &mut Rng, h: &mut History, opt: OptRecipe, kinds: &[u8]) {
    if !r.pct(12) {
        return;
    }
    let cfg = if r.pct(60) {
        let mut cfg = h.cfg.clone();
        if r.pct(60) {
            cfg.basis = cfg.basis.sibling(r);
        }
        cfg.w0 = r.u64() >> 8 | 1;
        cfg
    } else {
        Config::random(r, opt, 20)
    };
    let (key, n) = (r.u64(), r.range(1, 3));
    h.guest = vec![history_on(r, key, cfg, n, 10, kinds)];
}

pub fn set_x(call: &mut Call, p: Vec<f64>) {
    match call {
        Call::Eval { x } | Call::EvalIdx { x, .. } | Call::Iter { x, .. } | Call::Update { x, .. } | Call::UpdateIdx { x, .. } | Call::UpdateWith { x, .. } | Call::Project { x } | Call::Ith { x, .. } => *x = p,
        Call::Reset => {},
    }
}

/// Some calls give way to steps of the optimiser with features of any form.
fn raws(r: &mut Rng, h: &mut History, col: Option<usize>) {
    let pct = *r.pick(&[0, 0, 20, 60]);
    let n: usize = ::spaces::Space::dim(&h.cfg.basis.build(h.cfg.dim)).into();
    for op in &mut h.ops {
        if r.pct(pct) {
            let times = match r.below(200) {
                0 => 300,
                1..=4 => r.range(2, 40) as u32,
                _ => 1,
            };
            op.raw = Some(Raw { f: FeatRecipe::random(r, n), scale: if r.pct(40) { None } else { Some(Call::error(r)) }, col: col.unwrap_or(r.below(h.cfg.outputs.max(1))), times });
        }
    }
    if n <= 8 && r.below(3000) == 0 {
        // More steps than 16 bits count.
        if let Some(op) = h.ops.first_mut() {
            op.raw = Some(Raw { f: FeatRecipe::random(r, n), scale: Some(r.nonzero()), col: col.unwrap_or(0), times: 66_000 });
        }
    }
}

fn n_ops(r: &mut Rng, thorough: bool) -> usize {
    if r.pct(1) {
        // Longer than what fits a byte.
        r.range(100, 520)
    } else if thorough {
        r.range(1, 60)
    } else {
        r.range(1, 24)
    }
}

/// One output moves: how outputs share an optimiser is another matter.
fn one_column(r: &mut Rng, h: &mut History) -> usize {
    let col = r.below(h.cfg.outputs.max(1));
    let single = r.pct(30);
    for op in &mut h.ops {
        op.call = match op.call.clone() {
            Call::Update { x, e, lazy } => {
                let e = e.first().copied().unwrap_or(0.5);
                if h.cfg.outputs <= 1 && !single { Call::Update { x, e: vec![e], lazy } } else { Call::UpdateIdx { x, i: col, e } }
            },
            Call::UpdateIdx { x, e, .. } => Call::UpdateIdx { x, i: col, e },
            Call::UpdateWith { x, t, style } => {
                if h.cfg.outputs <= 1 { Call::UpdateWith { x, t: vec![t.first().copied().unwrap_or(0.3)], style } } else { Call::UpdateIdx { x, i: col, e: t.first().copied().unwrap_or(0.3) } }
            },
            c => c,
        };
    }
    col
}

/// Errors, targets, rates and decays of any size.
fn wild(r: &mut Rng, h: &mut History) {
    if !r.pct(25) {
        return;
    }
    h.cfg.opt = h.cfg.opt.clone().wild(r);
    let pct = *r.pick(&[0, 10, 50]);
    fn size(r: &mut Rng, pct: usize, e: &mut f64) {
        if r.pct(pct) {
            *e = r.uniform(-1.0, 1.0) * *r.pick(&[1e2, 1e3, 1e4, 1e6, 1e9, 1e-9, 1e-12, 1e-30, 1e-160, 1e-250]);
        }
    }
    for op in &mut h.ops {
        match &mut op.call {
            Call::Update { e: es, .. } | Call::UpdateWith { t: es, .. } => es.iter_mut().for_each(|e| size(r, pct, e)),
            Call::UpdateIdx { e, .. } => size(r, pct, e),
            _ => {},
        }
        if let Some(Raw { scale: Some(e), .. }) = &mut op.raw {
            size(r, pct, e);
        }
    }
}

/// One call with errors that are no numbers, or infinite.
fn odd_error(r: &mut Rng, h: &mut History) {
    if h.ops.is_empty() || !r.pct(4) {
        return;
    }
    let k = r.below(h.ops.len());
    oddify(r, &mut h.ops[k].call);
}

pub fn oddify(r: &mut Rng, call: &mut Call) {
    let mut odd = |r: &mut Rng, e: &mut f64| {
        if r.pct(50) {
            *e = *r.pick(&[crate::fa::NAN, crate::fa::INF, -crate::fa::INF]);
        }
    };
    match call {
        Call::Update { e: es, .. } | Call::UpdateWith { t: es, .. } => es.iter_mut().for_each(|e| odd(r, e)),
        Call::UpdateIdx { e, .. } => odd(r, e),
        _ => {},
    }
}

/// The kind of call, for violation classes.
pub fn name(call: &Call) -> &'static str {
    match call {
        Call::Eval { .. } => "evaluate",
        Call::EvalIdx { .. } => "evaluate_index",
        Call::Iter { .. } => "iter",
        Call::Update { .. } => "update",
        Call::UpdateIdx { .. } => "update_index",
        Call::UpdateWith { .. } => "update_with",
        Call::Project { .. } => "project",
        Call::Ith { .. } => "ith",
        Call::Reset => "reset",
    }
}

///////////////////////////////////////////////////////////////////////////////
// C01
///////////////////////////////////////////////////////////////////////////////
pub fn c01() -> Prop {
    Prop {
        id: "C01",
        gen: |r, thorough| {
            let opt = OptRecipe::any(r);
            let n = n_ops(r, thorough);
            let pct = *r.pick(&[10, 25, 50]);
            let mut h = history(r, opt, 40, n, pct, &[0, 0, 3]);
            let dim = h.cfg.dim;
            for op in &mut h.ops {
                if let Some(Fault::Down(_)) = op.fault {
                    // Never seen before, so that nobody can know its features.
                    set_x(&mut op.call, (0..dim).map(|_| r.uniform(-1.0, 1.0)).collect());
                }
            }
            let opt = h.cfg.opt.clone();
            invite(r, &mut h, opt, &[0]);
            h.cfg.none = r.pct(3);
            hands(r, &mut h);
            encode(&h)
        },
        run: run_c01,
        quick: 72_000,
        thorough: 1_500_000,
        rule: "one run = one seeded history of up to 24 (thorough: 60) evaluations, updates and projections on one approximator over a random basis tree, a seeded subset of them with a node of the basis failing (or down for good), the caller editing public fields and making calls within calls, next to a twin that never saw the failing calls; non-trivial = at least one node error fired; distinct = distinct hash of everything observed",
        real: REAL_LFA,
        stub: STUB_CALLER,
        assumptions: &["a basis is a deterministic function of its input", "comparisons with the twin allow 1e-8 relative rounding, as hash order changes the order of sums"],
    }
}

fn run_c01(v: &Value, rep: &mut Rep) -> Res {
    decode::<History>(v).run(rep, |h, rep| {
        let mut fa = h.cfg.build();
        let mut twin = fa.clone();
        let mut scale: f64 = 1.0;
        for (k, op) in h.ops.iter().enumerate() {
            op.edit(&mut fa, &h.cfg, rep);
            op.edit(&mut twin, &h.cfg, &mut Rep::default());
            let before = fa.weights();
            let obs = fa.faulted(&op.call, &op.fault, true);
            note(rep, &op.call, &obs, &fa);
            let what = name(&op.call);
            if let Some(err) = &obs.seen.node_error {
                match &obs.ret {
                    Ret::Err(e) if e == err => {},
                    // Documented to panic when the basis fails.
                    Ret::RealPanic(_) if matches!(op.call, Call::Iter { fallible: false, .. }) => rep.probe("iter panics on a failing basis"),
                    other => return violation(format!("wrong-result:{what}"), format!("op {k}: the basis reported {err:?}, the call gave {other:?}")),
                }
                ensure!(obs.cb.is_empty(), format!("callback-called:{what}"), "op {k}: the error callback ran {} times", obs.cb.len());
                ensure!(obs.seen.opt_calls.is_empty(), format!("optimiser-called:{what}"), "op {k}: the optimiser ran on a failed projection");
                let after = fa.weights();
                ensure!(before.len() == after.len() && before.iter().zip(&after).all(|(a, b)| same_bits(a, b)), format!("weights-changed:{what}"), "op {k}: {before:?} -> {after:?}");
                continue;
            }
            if let Ret::RealPanic(m) = &obs.ret {
                return violation(format!("panic:{what}"), format!("op {k}: {m}"));
            }
            if let (Some(Fault::Down(_)), Some(_)) = (&op.fault, op.call.x()) {
                return violation(format!("hidden:{what}"), format!("op {k}: a node of the basis is down, the call gave {:?}", obs.ret));
            }
            let ref_obs = twin.call(&op.call, None, false);
            agree(k, what, &obs.ret, &ref_obs.ret, scale)?;
            scale = scale.max(fa.weights().iter().flatten().fold(0.0, |a: f64, b| a.max(b.abs())));
            same_weights(k, what, &fa, &twin, scale)?;
            if !finite(&fa) {
                rep.probe("history cut: weights diverged");
                return Ok(());
            }
        }
        // Latent damage: drive both further, without faults.
        let mut r = Rng::new(h.key ^ 0x77);
        for k in 0..4 {
            let x = crate::basis::input(&mut r, h.cfg.dim);
            let call = Call::Update { x, e: vec![0.7; h.cfg.outputs.max(1)], lazy: false };
            let a = fa.call(&call, None, false);
            let b = twin.call(&call, None, false);
            agree(1000 + k, "later-update", &a.ret, &b.ret, scale)?;
            same_weights(1000 + k, "later-update", &fa, &twin, scale)?;
        }
        Ok(())
    })
}

pub fn same_weights(k: usize, what: &str, fa: &Fa, twin: &Fa, scale: f64) -> Res {
    let (a, b) = (fa.weights(), twin.weights());
    for (ca, cb) in a.iter().zip(&b) {
        for (x, y) in ca.iter().zip(cb) {
            ensure!(near(*x, *y, scale, 1e-8), format!("diverges-from-twin:{what}"), "op {k}: weight {x:e} against {y:e} of the twin that saw no failing call");
        }
    }
    Ok(())
}

pub fn agree(k: usize, what: &str, a: &Ret, b: &Ret, scale: f64) -> Res {
    let ok = match (a, b) {
        (Ret::Unit, Ret::Unit) => true,
        (Ret::Vals(x), Ret::Vals(y)) => x.len() == y.len() && x.iter().zip(y).all(|(p, q)| near(*p, *q, scale * 50.0, 1e-8)),
        (Ret::Feats(x), Ret::Feats(y)) => x.n() == y.n() && x.v.iter().zip(&y.v).all(|(p, q)| near(*p, *q, 1.0, 1e-10)),
        (Ret::Err(x), Ret::Err(y)) => x == y,
        _ => false,
    };
    ensure!(ok, format!("differs-from-twin:{what}"), "op {k}: {a:?} against {b:?} of the twin that saw no failing call");
    Ok(())
}

///////////////////////////////////////////////////////////////////////////////
// C07, C08
///////////////////////////////////////////////////////////////////////////////
pub fn c07() -> Prop {
    Prop {
        id: "C07",
        gen: |r, thorough| {
            let opt = OptRecipe::stateless(r);
            let n = n_ops(r, thorough);
            let pct = *r.pick(&[0, 15, 35]);
            let mut h = history(r, opt, 60, n, pct, &[0, 1]);
            raws(r, &mut h, None);
            wild(r, &mut h);
            odd_error(r, &mut h);
            hands(r, &mut h);
            let opt = OptRecipe::stateless(r);
            invite(r, &mut h, opt, &[0]);
            encode(&h)
        },
        run: run_rule,
        quick: 72_000,
        thorough: 1_500_000,
        rule: "one run = one seeded history of evaluations and updates with plain or implicit SGD, with bare and scaled steps of the optimiser in between (at times tens of thousands), some calls failing in the basis or cancelled by a panic at a seeded seam; every prediction, callback argument and weight is compared with the rule on plain vectors; non-trivial = a fault fired; distinct = distinct hash of everything observed",
        real: REAL_LFA,
        stub: STUB_CALLER,
        assumptions: &["features are read from the public representation, not through conversions of the library", "1e-11 relative rounding"],
    }
}

pub fn c08() -> Prop {
    Prop {
        id: "C08",
        gen: |r, thorough| {
            let opt = OptRecipe::stateful(r);
            let n = n_ops(r, thorough);
            let pct = *r.pick(&[0, 15, 35]);
            let mut h = history(r, opt, 30, n, pct, &[0, 1]);
            let col = one_column(r, &mut h);
            raws(r, &mut h, Some(col));
            wild(r, &mut h);
            odd_error(r, &mut h);
            hands(r, &mut h);
            let opt = OptRecipe::stateful(r);
            invite(r, &mut h, opt, &[0]);
            for g in &mut h.guest {
                one_column(r, g);
            }
            encode(&h)
        },
        run: run_rule,
        quick: 72_000,
        thorough: 1_500_000,
        rule: "one run = one seeded history with a stateful optimiser, with bare and scaled steps of the optimiser in between (at times tens of thousands), some calls failing in the basis or cancelled by a panic; every weight is compared with the published recurrence on plain vectors, accumulators kept by the reference; non-trivial = a fault fired; distinct = distinct hash of everything observed",
        real: REAL_LFA,
        stub: STUB_CALLER,
        assumptions: &["the guard added to denominators is 1e-7, as in the code", "1e-9 relative rounding"],
    }
}

fn run_rule(v: &Value, rep: &mut Rep) -> Res {
    decode::<History>(v).run(rep, |h, rep| {
        let mut fa = h.cfg.build();
        let n = spaces::dim_of(&fa);
        let mut reference = RefOpt::new(&h.cfg.opt, n);
        let tol = if h.cfg.opt.is_stateless() { 1e-11 } else { 1e-9 };
        for (k, op) in h.ops.iter().enumerate() {
            let what = name(&op.call);
            if op.edit(&mut fa, &h.cfg, rep) {
                reference.reset();
            }
            let before = fa.weights();
            if let Some(raw) = &op.raw {
                raw_ops(k, h, raw, &mut fa, &mut reference, tol, rep)?;
                if !finite(&fa) {
                    return Ok(());
                }
                continue;
            }
            let phi = match op.call.x().map(|x| fa.phi(x)) {
                Some(Ok(p)) => p,
                Some(Err(m)) => return violation("projection", format!("op {k}: {m}")),
                None => continue,
            };
            if !phi.finite() {
                rep.probe("op skipped: features not finite");
                continue;
            }
            let pred: Vec<f64> = before.iter().map(|c| phi.dot(c)).collect();
            let mag: Vec<f64> = before.iter().map(|c| phi.dot_mag(c)).collect();
            let obs = fa.faulted(&op.call, &op.fault, true);
            note(rep, &op.call, &obs, &fa);
            let after = fa.weights();

            // What the caller's callback was shown, also when it panicked.
            for c in &obs.cb {
                match &c.phi {
                    Ok(p) => ensure!(p.n() == phi.n() && p.v.iter().zip(&phi.v).all(|(a, b)| close(*a, *b, 1.0)), "callback-features", "op {k}: {:?} instead of {:?}", p.v, phi.v),
                    Err(m) => return violation("callback-features", format!("op {k}: {m}")),
                }
                ensure!(c.pred.len() == pred.len(), "callback-prediction", "op {k}: {} predictions for {} outputs", c.pred.len(), pred.len());
                for j in 0..pred.len() {
                    ensure!(close(c.pred[j], pred[j], mag[j]), "callback-prediction", "op {k}: output {j}: {:e} instead of {:e}", c.pred[j], pred[j]);
                }
            }
            ensure!(obs.cb.len() <= 1, "callback-count", "op {k}: the callback ran {} times", obs.cb.len());

            // The steps that completed, in order.
            let shown = obs.cb.first().map(|c| c.pred.clone()).unwrap_or_else(|| pred.clone());
            let errors = errors_of(&fa, &op.call, &shown);
            let done = match (&obs.ret, &obs.seen.fired) {
                (Ret::RealPanic(m), None) => return violation(format!("panic:{what}"), format!("op {k}: {m}")),
                (Ret::RealPanic(_), Some(f)) if f == "node_err" && matches!(op.call, Call::Iter { fallible: false, .. }) => 0,
                (Ret::RealPanic(m), Some(_)) => return violation(format!("panic:{what}"), format!("op {k}: {m}")),
                (Ret::Err(e), fired) => {
                    ensure!(fired.as_deref() == Some("node_err"), format!("error:{what}"), "op {k}: {e:?}");
                    0
                },
                (Ret::SimPanic, _) => {
                    // A panic on the way out of the optimiser comes after its step.
                    obs.seen.opt_calls.len()
                },
                _ => errors.len(),
            };
            if op.call.updates() {
                let mut want = before.clone();
                let mut deltas = vec![vec![0.0; n]; before.len()];
                let mut mags = deltas.clone();
                for (j, e) in errors.iter().take(done) {
                    deltas[*j] = reference.delta(&phi, *e);
                    mags[*j] = reference.mag.clone();
                }
                // Where an error is no number the rule says little.
                let lost: Vec<usize> = errors.iter().filter(|(_, e)| !e.is_finite()).map(|(j, _)| *j).collect();
                for j in 0..before.len() {
                    if lost.contains(&j) {
                        continue;
                    }
                    if let Err(m) = moved_by(&before[j], &after[j], &deltas[j], &mags[j], tol) {
                        let class = if h.cfg.opt.is_stateless() { "rule" } else { "recurrence" };
                        return violation(format!("{class}:{what}:{:?}", kind(&h.cfg.opt)), format!("op {k} output {j} ({:?}): {m}", obs.seen.fired));
                    }
                    want[j] = after[j].clone();
                }
                if matches!(op.call, Call::UpdateWith { .. }) && obs.seen.fired.is_none() {
                    ensure!(obs.cb.len() == 1, "callback-count", "op {k}: the callback ran {} times", obs.cb.len());
                }
                if !lost.is_empty() {
                    rep.probe("history cut: an error was no number");
                    return Ok(());
                }
            } else {
                ensure!(before.iter().zip(&after).all(|(a, b)| same_bits(a, b)), format!("evaluation-moves-weights:{what}"), "op {k}");
                if let (Ret::Vals(vs), Some(want)) = (&obs.ret, expected_values(&op.call, &fa, &phi, &before)) {
                    ensure!(vs.len() == want.len(), format!("prediction:{what}"), "op {k}: {} values instead of {}", vs.len(), want.len());
                    for (v, (w, m)) in vs.iter().zip(&want) {
                        ensure!(close(*v, *w, *m), format!("prediction:{what}"), "op {k}: {v:e} instead of {w:e}");
                    }
                }
            }
            if !finite(&fa) {
                rep.probe("history cut: weights diverged");
                return Ok(());
            }
        }
        Ok(())
    })
}

fn raw_ops(k: usize, h: &History, raw: &Raw, fa: &mut Fa, reference: &mut RefOpt, tol: f64, rep: &mut Rep) -> Res {
    let f = raw.f.build();
    let phi = match Phi::of(&f) {
        Ok(p) => p,
        Err(m) => return violation("features", m),
    };
    let n = fa.weights()[0].len();
    if phi.n() != n || !phi.finite() {
        return Ok(());
    }
    let before = fa.weights();
    let col = if fa.is_vector() { raw.col % fa.cols() } else { 0 };
    let mut delta = vec![0.0; n];
    let mut mag = vec![0.0; n];
    for _ in 0..raw.times {
        match raw_step(fa, col, &f, raw.scale) {
            Ok(Ok(())) => {},
            r => return violation("step-fails", format!("op {k}: {r:?}")),
        }
        let d = reference.delta(&phi, raw.scale.unwrap_or(1.0));
        for i in 0..n {
            delta[i] += d[i];
            mag[i] += d[i].abs() + reference.mag[i];
        }
    }
    let after = fa.weights();
    rep.ops += raw.times as u64;
    rep.shape_str(if raw.f.sparse() { "rs" } else { "rd" });
    rep.shape_u(raw.scale.is_some() as u64);
    rep.probe(if raw.times > 65_536 { "optimiser stepped more than 65536 times" } else if raw.scale.is_none() { "bare step" } else { "step outside of an approximator" });
    for j in 0..before.len() {
        if j == col {
            rep.fs(&after[j]);
            for i in 0..n {
                let want = before[j][i] + delta[i];
                let ok = if mag[i] == 0.0 { (after[j][i] - before[j][i]).abs() <= 1e-280 } else { near(after[j][i], want, before[j][i].abs() + mag[i], tol) };
                ensure!(ok, format!("step:{}:{}", kind(&h.cfg.opt), if raw.scale.is_some() { "scaled" } else { "bare" }), "op {k}: {} steps: weight {i} is {:e}, expected {want:e} (from {:e})", raw.times, after[j][i], before[j][i]);
            }
        } else {
            ensure!(same_bits(&before[j], &after[j]), "step-elsewhere", "op {k}: output {j} moved");
        }
    }
    Ok(())
}

pub fn kind(o: &OptRecipe) -> &'static str {
    match o {
        OptRecipe::Sgd(_) => "SGD",
        OptRecipe::Isgd(_) => "ISGD",
        OptRecipe::Mom { .. } => "SGDMomentum",
        OptRecipe::Nag { .. } => "NAG",
        OptRecipe::Adagrad(_) => "Adagrad",
        OptRecipe::Adam { .. } => "Adam",
        OptRecipe::AdaMax { .. } => "AdaMax",
        OptRecipe::Own(_) => "user",
    }
}

mod spaces {
    pub fn dim_of(fa: &super::Fa) -> usize { ::spaces::Space::dim(fa.basis()).into() }
}

///////////////////////////////////////////////////////////////////////////////
// C15
///////////////////////////////////////////////////////////////////////////////

/// The first few operations, on as many outputs.
fn history_of(r: &mut Rng, mut h: History, m: usize) -> History {
    h.cfg.outputs = m;
    h.cfg.none = false;
    h.ops.truncate(4);
    for op in &mut h.ops {
        match &mut op.call {
            Call::Update { e, .. } => *e = (0..m + r.below(2)).map(|_| Call::error(r)).collect(),
            Call::UpdateWith { t, .. } => *t = (0..m).map(|_| Call::error(r)).collect(),
            Call::UpdateIdx { i, .. } => *i = r.below(m),
            _ => {},
        }
    }
    h
}

pub fn c15() -> Prop {
    Prop {
        id: "C15",
        gen: |r, thorough| {
            let opt = OptRecipe::any(r);
            let n = n_ops(r, thorough);
            let pct = *r.pick(&[20, 40, 70]);
            let mut h = history(r, opt, 30, n, pct, &[2, 2, 2, 0]);
            if r.below(80) == 0 {
                // Many outputs, and few operations.
                let m = r.range(30, 150);
                h = history_of(r, h, m);
            } else if r.pct(70) && h.cfg.outputs < 2 {
                h.cfg.outputs = r.range(2, 5);
            }
            for op in &mut h.ops {
                if h.cfg.outputs > 20 && matches!(op.fault, Some(Fault::OptErr(_))) && r.pct(80) {
                    op.fault = Some(Fault::OptAt(r.u32()));
                }
                if let Some(Fault::OptErr(m)) = &mut op.fault {
                    let n = if h.cfg.outputs > 5 && r.pct(50) { h.cfg.outputs.min(31) } else { 5 };
                    *m = match r.below(4) {
                        0 => 1 << r.below(n),
                        1 => !0,
                        2 => r.u32() & r.u32() | 1 << r.below(n),
                        _ => r.u32() & 31 | 1 << r.below(3),
                    };
                }
            }
            odd_error(r, &mut h);
            hands(r, &mut h);
            let opt = OptRecipe::any(r);
            invite(r, &mut h, opt, &[2, 0]);
            encode(&h)
        },
        run: run_c15,
        quick: 72_000,
        thorough: 1_500_000,
        rule: "one run = one seeded history of calls on an approximator whose optimiser fails on seeded subsets of its calls; non-trivial = an optimiser error fired; distinct = distinct hash of everything observed",
        real: REAL_LFA,
        stub: &["the failing optimiser: a wrapper that fails before delegating to the library's optimiser", "the caller: callbacks, iterators, user basis", "hash keys (getrandom)"],
        assumptions: &["a failing optimiser leaves the weights it was given alone"],
    }
}

fn run_c15(v: &Value, rep: &mut Rep) -> Res {
    decode::<History>(v).run(rep, |h, rep| {
        let mut fa = h.cfg.build();
        for (k, op) in h.ops.iter().enumerate() {
            let what = name(&op.call);
            op.edit(&mut fa, &h.cfg, rep);
            let before = fa.weights();
            let mut clean = fa.clone();
            let obs = fa.faulted(&op.call, &op.fault, true);
            note(rep, &op.call, &obs, &fa);
            let after = fa.weights();
            if let Ret::RealPanic(m) = &obs.ret {
                if !(matches!(op.call, Call::Iter { fallible: false, .. }) && obs.seen.node_error.is_some()) {
                    return violation(format!("panic:{what}"), format!("op {k}: {m}"));
                }
            }
            if !op.call.updates() || obs.seen.node_error.is_some() {
                ensure!(obs.seen.opt_calls.is_empty(), format!("optimiser-called:{what}"), "op {k}");
                continue;
            }
            // At most once per output, each with its own weights and error.
            let shown = obs.cb.first().map(|c| c.pred.clone()).unwrap_or_default();
            if matches!(op.call, Call::UpdateWith { .. }) {
                ensure!(obs.cb.len() == 1, "callback-count", "op {k}: the callback ran {} times", obs.cb.len());
                ensure!(shown.len() == fa.cols(), "callback-prediction", "op {k}: {} predictions", shown.len());
            }
            let errors = errors_of(&fa, &op.call, &shown);
            let mut left: Vec<(usize, f64)> = errors.clone();
            let mut asked: Vec<(usize, bool)> = Vec::new();
            for c in &obs.seen.opt_calls {
                let hit = left.iter().position(|(j, e)| same_bits(&before[*j], &c.before) && (e.to_bits() == c.scale.to_bits() || *e == c.scale || e.is_nan() && c.scale.is_nan()));
                match hit {
                    Some(i) => {
                        let (j, _) = left.remove(i);
                        asked.push((j, c.failed));
                    },
                    None => return violation(format!("optimiser-arguments:{what}"), format!("op {k}: the optimiser was called with weights {:?} and error {:e}, which is no output still to be updated: {left:?} of {before:?}", c.before, c.scale)),
                }
            }
            let failures: Vec<&lfa::Error> = obs.seen.opt_calls.iter().filter_map(|c| c.err.as_ref()).collect();
            match (&obs.ret, failures.first()) {
                (Ret::Unit, None) => {
                    ensure!(left.is_empty(), format!("output-skipped:{what}"), "op {k}: no error, yet outputs {left:?} were not updated");
                },
                (Ret::Err(e), Some(first)) => ensure!(e == *first, format!("wrong-error:{what}"), "op {k}: {e:?} instead of the first reported, {first:?}"),
                (Ret::Unit, Some(first)) => return violation(format!("swallowed:{what}"), format!("op {k}: the optimiser reported {first:?}, the update returned Ok")),
                (r, _) => return violation(format!("wrong-result:{what}"), format!("op {k}: {r:?}")),
            }
            // Weights: updated where the step succeeded, untouched elsewhere.
            let mut solo: Option<Vec<Vec<f64>>> = None;
            if h.cfg.opt.is_stateless() || failures.is_empty() {
                clean.call(&op.call, None, false);
                solo = Some(clean.weights());
            }
            for j in 0..before.len() {
                let state = asked.iter().find(|(a, _)| *a == j);
                match state {
                    Some((_, false)) => {
                        if let Some(s) = &solo {
                            for i in 0..s[j].len() {
                                ensure!(near(after[j][i], s[j][i], before[j][i].abs() + s[j][i].abs(), 1e-11), format!("step-lost:{what}"), "op {k} output {j}: weight {i} is {:e}, expected {:e}", after[j][i], s[j][i]);
                            }
                        } else {
                            rep.probe("stateful optimiser, step after a failure");
                        }
                    },
                    _ => ensure!(same_bits(&before[j], &after[j]), format!("untouched-output-moved:{what}"), "op {k} output {j}: {:?} -> {:?}", before[j], after[j]),
                }
            }
            if !finite(&fa) {
                return Ok(());
            }
        }
        Ok(())
    })
}
