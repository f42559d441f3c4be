//! C02: panics in caller code.
use super::*;
use crate::basis::{In, Node};
use crate::ensure;
use crate::harness::{decode, encode, violation};
use crate::optim::OptRecipe;
use crate::phi::{near, same_bits};
use crate::props::feats::{features_body, FPlan};
use crate::props::learn::{history, name};
use lfa::basis::Basis;
use lfa::optim::Optimiser;
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Plan {
    Feats(FPlan),
    Lfa(History),
}

pub fn c02() -> Prop {
    Prop {
        id: "C02",
        gen: |r, thorough| {
            let k = if thorough { r.range(1, 60) } else { r.range(1, 24) };
            encode(&if r.pct(35) {
                let products = r.pct(50);
                Plan::Feats(FPlan::random(r, k, 60, products))
            } else {
                let opt = OptRecipe::any(r);
                let pct = *r.pick(&[30, 60]);
                // All outputs share one set of accumulators: skipping one output's
                // step changes what the next ones do.
                let kinds: &[u8] = if opt.is_stateless() { &[1, 1, 1, 1, 0, 2] } else { &[1, 1, 1, 1, 0] };
                let mut h = history(r, opt, 60, k, pct, kinds);
                hands(r, &mut h);
                Plan::Lfa(h)
            })
        },
        run: run_c02,
        quick: 60_000,
        thorough: 3_000_000,
        rule: "one run = one seeded history on three feature vectors or on one approximator in which many operations are cut short by a panic at a seeded call of caller code (function, callback, input or error iterator, basis node, kernel, hasher, before or after an optimiser step); after each, shapes and lengths are kept, each entry is old or new, each output's weights are as before or as after a twin's complete update, and later calls agree with a fresh basis, plain vectors and (after a reset) a new approximator; the guarded allocator ends the run on memory misuse; non-trivial = a fault fired; distinct = distinct hash of everything observed",
        real: REAL_LFA,
        stub: STUB_CALLER,
        assumptions: &["panics unwind", "1e-9 relative rounding between twins, whose sums run in other hash orders"],
    }
}

fn run_c02(v: &Value, rep: &mut Rep) -> Res {
    match decode::<Plan>(v) {
        Plan::Lfa(h) => h.run(rep, body),
        Plan::Feats(p) => {
            let ((res, inner), steps) = rt::incarnation(p.key, STEPS, || {
                let mut rep = Rep::default();
                let res = features_body(&p, &mut rep);
                (res, rep)
            });
            rep.absorb(&inner);
            rep.steps += steps;
            res
        },
    }
}

/// Equal up to rounding in steps between weights as large as these.
fn same_column(a: &[f64], b: &[f64], before: &[f64]) -> bool {
    let mag = a.iter().chain(b).chain(before).fold(0.0f64, |m, x| m.max(x.abs()));
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y, mag, 1e-9))
}

/// The call with the errors a callback computed given outright.
pub fn with_errors(call: &Call, obs: &Obs) -> Call {
    match (call, obs.cb.first().and_then(|c| c.errors.clone())) {
        (Call::UpdateWith { x, style: 0, .. }, Some(t)) => Call::UpdateWith { x: x.clone(), t, style: 1 },
        (c, _) => c.clone(),
    }
}

fn body(h: &History, rep: &mut Rep) -> Res {
    let mut fa = h.cfg.build();
    // The basis as it was built, never touched by a fault.
    let mut pristine: Node = h.cfg.basis.build(h.cfg.dim);
    let shape = fa.shape();
    for (k, op) in h.ops.iter().enumerate() {
        let what = name(&op.call);
        op.edit(&mut fa, &h.cfg, rep);
        if let Some(Edit::Basis(b)) = &op.edit {
            let b = b.build(h.cfg.dim);
            let (n, m): (usize, usize) = (spaces::Space::dim(&b).into(), spaces::Space::dim(&pristine).into());
            if n == m {
                pristine = b;
            }
        }
        let before = fa.weights();
        let twin0 = fa.clone();
        let obs = fa.faulted(&op.call, &op.fault, false);
        note(rep, &op.call, &obs, &fa);
        let after = fa.weights();
        ensure!(fa.shape() == shape, "shape", "op {k} ({what}): weights of shape {shape:?} became {:?}", fa.shape());

        let finished = match &obs.ret {
            Ret::RealPanic(m) => {
                ensure!(obs.seen.fired.as_deref() == Some("node_err") && matches!(op.call, Call::Iter { fallible: false, .. }), format!("panic:{what}"), "op {k} ({:?}): {m}", obs.seen.fired);
                false
            },
            Ret::Bad(m) => return violation("malformed", format!("op {k}: {m}")),
            Ret::Err(e) => {
                ensure!(obs.seen.fired.is_some(), format!("error:{what}"), "op {k}: {e:?}, though nothing failed");
                false
            },
            Ret::SimPanic => false,
            _ => true,
        };
        // What the complete call would have done.
        let mut twin = twin0.clone();
        let done = twin.call(&with_errors(&op.call, &obs), None, false);
        match &done.ret {
            Ret::RealPanic(m) => return violation(format!("panic:{what}"), format!("op {k}: {m}")),
            Ret::Err(e) => return violation(format!("error:{what}"), format!("op {k}, repeated: {e:?}")),
            _ => {},
        }
        let complete = twin.weights();
        if !finite(&twin) || !finite(&fa) {
            rep.probe("history cut: weights diverged or not finite");
            return Ok(());
        }
        for j in 0..before.len() {
            let kept = same_bits(&before[j], &after[j]);
            let new = same_column(&after[j], &complete[j], &before[j]);
            if finished {
                ensure!(new, format!("later-call:{what}"), "op {k} output {j}: {:?} instead of {:?}", after[j], complete[j]);
            } else {
                ensure!(kept || new, format!("torn:{what}"), "op {k} output {j} ({:?}): {:?} is neither the old {:?} nor the new {:?}", obs.seen.fired, after[j], before[j], complete[j]);
            }
        }
        // Later predictions: the weights there now, on the features a basis that
        // never failed gives.
        if let Some(x) = op.call.x() {
            let phi = match pristine.project(In(x)).map(|f| Phi::of(&f)) {
                Ok(Ok(p)) => p,
                r => return violation("projection", format!("op {k}: {r:?}")),
            };
            match fa.phi(x) {
                Ok(q) => ensure!(q.n() == phi.n() && (!phi.finite() || q.v.iter().zip(&phi.v).all(|(a, b)| near(*a, *b, phi.max(), 1e-10))), "basis-changed", "op {k}: {:?} instead of {:?}", q.v, phi.v),
                Err(m) => return violation("basis-changed", format!("op {k}: {m}")),
            }
            if phi.finite() {
                let o = fa.call(&Call::Eval { x: x.to_vec() }, None, false);
                match o.ret {
                    Ret::Vals(vs) => {
                        for (j, c) in after.iter().enumerate() {
                            ensure!(vs.len() == after.len() && near(vs[j], phi.dot(c), phi.dot_mag(c), 1e-10), "later-prediction", "op {k} output {j}: {:?} instead of {:e}", vs.get(j), phi.dot(c));
                        }
                    },
                    r => return violation("later-prediction", format!("op {k}: {r:?}")),
                }
            }
        }
    }
    // A reset clears what interrupted steps left in the optimiser.
    fa.opt_mut().reset();
    let mut new = h.cfg.build();
    match &mut new {
        Fa::S(f) => f.basis = pristine,
        Fa::V(f) => f.basis = pristine,
    }
    new.set_weights(&fa.weights());
    let mut r = Rng::new(h.key);
    let mut large = fa.weights();
    for k in 0..2 {
        let x = crate::basis::input(&mut r, h.cfg.dim);
        if !fa.phi(&x).map_or(false, |p| p.finite()) {
            continue;
        }
        let e = (0..fa.cols()).map(|_| Call::error(&mut r)).collect();
        let call = Call::Update { x, e, lazy: false };
        let (a, b) = (fa.call(&call, None, false), new.call(&call, None, false));
        ensure!(matches!((&a.ret, &b.ret), (Ret::Unit, Ret::Unit)), "after-reset", "update {k}: {:?} and {:?}", a.ret, b.ret);
        if !finite(&fa) || !finite(&new) {
            return Ok(());
        }
        for (j, (p, q)) in fa.weights().iter().zip(&new.weights()).enumerate() {
            ensure!(same_column(p, q, &large[j]), "after-reset", "update {k} output {j}: {p:?}, a new approximator has {q:?}");
            large[j].iter_mut().zip(p).for_each(|(l, w)| *l = l.abs().max(w.abs()));
        }
    }
    Ok(())
}
