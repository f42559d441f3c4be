//! C19: every call is made from one reading of the basis, and a composed basis
//! from one reading of each of its parts.
use super::*;
use crate::basis::{self, Recipe};
use crate::ensure;
use crate::fa;
use crate::harness::{decode, encode, violation};
use crate::optim::OptRecipe;
use crate::phi::near;
use crate::props::learn::{history, name};
use crate::seam::{Answer, Asked};
use lfa::optim::Optimiser;
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    /// Mappings of the caller's answer differently each time.
    wander: bool,
    h: History,
}

/// Trees with parts of the caller's in most places.
fn tree(r: &mut Rng, dim: usize, depth: usize) -> Recipe {
    let sub = |r: &mut Rng| Box::new(tree(r, dim, depth - 1));
    match if depth == 0 { 9 } else { r.below(10) } {
        0..=3 => Recipe::Stack(sub(r), sub(r)),
        4 => Recipe::Biased(sub(r)),
        5..=7 => Recipe::Norm(r.below(4) as u8, sub(r)),
        _ if r.pct(12) => Recipe::Kernel { which: r.below(8) as u8, n: r.range(1, 9), seed: r.u64() >> 16 },
        _ if r.pct(65) => Recipe::Closure { n: if r.pct(3) { r.range(40, 200) } else { r.range(1, 9) }, style: r.below(8) as u8, seed: r.u64() >> 16 },
        _ => Recipe::leaf(r, dim),
    }
}

pub fn c19() -> Prop {
    Prop {
        id: "C19",
        gen: |r, thorough| {
            let opt = OptRecipe::any(r);
            let n = if thorough { r.range(2, 40) } else { r.range(2, 16) };
            let pct = *r.pick(&[0, 15, 30]);
            let mut h = history(r, opt, 30, n, pct, &[0, 1, 3]);
            loop {
                let d = r.below(5);
                h.cfg.basis = tree(r, h.cfg.dim, d);
                let n: usize = spaces::Space::dim(&h.cfg.basis.build(h.cfg.dim)).into();
                if (1..=300).contains(&n) {
                    for op in &mut h.ops {
                        if r.pct(15) {
                            let x = basis::input(r, h.cfg.dim);
                            op.call = fa::Call::Ith { x, i: r.below(n + 1) };
                        }
                    }
                    break;
                }
            }
            if r.pct(4) {
                h.cfg.none = true;
                h.cfg.outputs = 0;
            }
            encode(&Plan { wander: r.pct(80), h })
        },
        run: |v, rep| {
            let p: Plan = decode(v);
            let ((res, inner), steps) = rt::incarnation(p.h.key, STEPS, || {
                let mut rep = Rep::default();
                basis::wander(p.wander);
                fa::take_down(true);
                let res = body(&p.h, &mut rep);
                fa::take_down(false);
                basis::wander(false);
                if p.wander {
                    rep.probe("parts that answer differently each time");
                }
                (res, rep)
            });
            rep.absorb(&inner);
            rep.steps += steps;
            res
        },
        quick: 60_000,
        thorough: 1_500_000,
        rule: "one run = one seeded history of calls, some failing or panicking, on an approximator over a tree of bases whose parts of the caller's answer differently each time they are asked; every question put to every node and its answer is taken down, each stack, normaliser and single feature is recomputed from what its parts answered within that call, and each prediction, callback argument and step from the answer of the root; non-trivial = a fault fired; distinct = distinct hash of everything observed",
        real: REAL_LFA,
        stub: &["the caller: error callbacks, error and input iterators, hasher, user kernel, user bases that answer differently each time, user optimiser", "hash keys (getrandom)"],
        assumptions: &["where the features have no finite, nonzero norm nothing is demanded of a normaliser"],
    }
}

#[derive(Clone, Debug)]
enum Form {
    Stack { left: u32, right: u32, n: usize, n_left: usize },
    Biased { of: u32, n: usize },
    Norm { of: u32, which: u8 },
    Kernels(usize),
    Leaf,
}

fn forms(r: &Recipe, dim: usize, out: &mut Vec<Form>) {
    let n = |r: &Recipe| -> usize { spaces::Space::dim(&r.build(dim)).into() };
    let id = out.len();
    out.push(Form::Leaf);
    match r {
        Recipe::Stack(a, b) => {
            forms(a, dim, out);
            let right = out.len() as u32;
            forms(b, dim, out);
            out[id] = Form::Stack { left: id as u32 + 1, right, n: n(r), n_left: n(a) };
        },
        Recipe::Biased(a) => {
            forms(a, dim, out);
            out[id] = Form::Biased { of: id as u32 + 1, n: n(r) };
        },
        Recipe::Norm(which, a) => {
            forms(a, dim, out);
            out[id] = Form::Norm { of: id as u32 + 1, which: which % 4 };
        },
        Recipe::Kernel { .. } => out[id] = Form::Kernels(n(r)),
        _ => {},
    }
}

fn same(a: f64, b: f64) -> bool { a == b || a.is_nan() && b.is_nan() }

fn all(a: &Asked) -> Option<Result<Phi, String>> {
    match &a.answer {
        Some(Answer::All(f)) => Some(Phi::of(f)),
        _ => None,
    }
}

/// What a part said its `j`-th feature is, if it was asked.
fn said(a: &Asked, j: usize) -> Option<f64> {
    match &a.answer {
        Some(Answer::One(v)) if a.index == Some(j) => Some(*v),
        Some(Answer::All(f)) => Phi::of(f).ok().and_then(|p| p.v.get(j).copied()),
        _ => None,
    }
}

fn norms(p: &Phi, which: u8) -> Vec<f64> {
    match which {
        0 => {
            let active = p.v.iter().filter(|v| v.abs() > 1e-7).count() as f64;
            if p.dense {
                vec![active]
            } else {
                vec![active, p.v.iter().filter(|v| **v != 0.0).count() as f64, p.on.iter().filter(|o| **o).count() as f64]
            }
        },
        1 => vec![p.v.iter().map(|v| v.abs()).sum()],
        2 => vec![p.norm2().sqrt()],
        _ => vec![p.max()],
    }
}

/// Each answer from those it was made of.
fn made_of_parts(asked: &[Asked], forms: &[Form], x: &[f64]) -> Res {
    for (k, a) in asked.iter().enumerate() {
        ensure!(a.x.len() == x.len() && a.x.iter().zip(x).all(|(a, b)| a.to_bits() == b.to_bits()), "other-input", "node {} was asked for {:?}, the input is {x:?}", a.id, a.x);
        let Some(answer) = &a.answer else { continue };
        let parts: Vec<&Asked> = asked.iter().filter(|b| b.by == Some(k)).collect();
        let form = &forms[a.id as usize];
        let mut ids: Vec<u32> = parts.iter().map(|b| b.id).collect();
        ids.sort();
        let twice = ids.windows(2).any(|w| w[0] == w[1]);
        ensure!(!twice, "part-asked-twice", "node {} ({form:?}) asked its parts {ids:?} for one answer", a.id);
        if let Form::Kernels(n) = form {
            ensure!(a.kernels.len() <= *n, "kernel-asked-twice", "{n} kernels, asked {} times: {:?}", a.kernels.len(), a.kernels);
            let near_input = |p: &[f64]| p.iter().zip(x).all(|(a, b)| a.to_bits() == b.to_bits());
            ensure!(a.kernels.iter().all(|(p, q, _)| near_input(p) || near_input(q)), "kernel-other-input", "{:?} for {x:?}", a.kernels);
            let mut left: Vec<f64> = a.kernels.iter().map(|k| k.2).collect();
            let got = match answer {
                Answer::All(f) => Phi::of(f).map(|p| p.v).unwrap_or_default(),
                Answer::One(v) => vec![*v],
            };
            for v in got {
                match left.iter().position(|l| same(*l, v)) {
                    Some(i) => drop(left.swap_remove(i)),
                    None => return violation("kernel-did-not-say", format!("feature {v:e} of {:?}", a.kernels)),
                }
            }
            continue;
        }
        let part = |id: u32| parts.iter().find(|b| b.id == id).copied();
        let whole = |id: u32| -> Result<Phi, crate::harness::Violation> {
            match part(id).and_then(all) {
                Some(Ok(p)) => Ok(p),
                Some(Err(m)) => violation("malformed", m),
                None => violation("part-not-asked", format!("node {} ({form:?}) answered without asking {id}", a.id)),
            }
        };
        let one = |id: u32, j: usize| -> Result<f64, crate::harness::Violation> {
            match part(id).and_then(|p| said(p, j)) {
                Some(v) => Ok(v),
                None => violation("part-not-asked", format!("node {} ({form:?}) gave a feature without asking {id} for feature {j}", a.id)),
            }
        };
        match (answer, a.index) {
            (Answer::All(f), None) => {
                let got = match Phi::of(f) {
                    Ok(p) => p,
                    Err(m) => return violation("malformed", m),
                };
                match form {
                    Form::Leaf | Form::Kernels(_) => {},
                    Form::Stack { left, right, .. } => {
                        let mut want = whole(*left)?.v;
                        want.extend(whole(*right)?.v);
                        ensure!(got.v.len() == want.len() && got.v.iter().zip(&want).all(|(a, b)| same(*a, *b)), "stack", "{:?} of parts {want:?}", got.v);
                    },
                    Form::Biased { of, .. } => {
                        let mut want = whole(*of)?.v;
                        want.push(1.0);
                        ensure!(got.v.len() == want.len() && got.v.iter().zip(&want).all(|(a, b)| same(*a, *b)), "bias", "{:?} of parts {want:?}", got.v);
                    },
                    Form::Norm { of, which } => {
                        let p = whole(*of)?;
                        ensure!(got.n() == p.n(), "normaliser-length", "{} of {}", got.n(), p.n());
                        let zs: Vec<f64> = norms(&p, *which).into_iter().filter(|z| z.is_finite() && *z > 1e-100 && *z < 1e100).collect();
                        if p.finite() && !zs.is_empty() {
                            let fits = |z: f64| got.v.iter().zip(&p.v).all(|(a, b)| near(*a, b / z, 0.0, 1e-10));
                            ensure!(zs.iter().any(|z| fits(*z)), format!("normaliser:{which}"), "{:?} of {:?} and norm {zs:?}", got.v, p.v);
                        }
                    },
                }
            },
            (Answer::One(v), Some(i)) => match form {
                Form::Leaf | Form::Kernels(_) => {},
                Form::Stack { left, right, n, n_left } => {
                    ensure!(i < *n, "beyond-end", "feature {i} of {n} is {v:e}");
                    let want = if i < *n_left { one(*left, i)? } else { one(*right, i - n_left)? };
                    ensure!(same(*v, want), "stack-single", "feature {i} is {v:e}, the part said {want:e}");
                },
                Form::Biased { of, n } => {
                    ensure!(i < *n, "beyond-end", "feature {i} of {n} is {v:e}");
                    let want = if i + 1 < *n { one(*of, i)? } else { 1.0 };
                    ensure!(same(*v, want), "bias-single", "feature {i} is {v:e}, the part said {want:e}");
                },
                Form::Norm { of, which } => {
                    let p = whole(*of)?;
                    ensure!(i < p.n(), "beyond-end", "feature {i} of {} is {v:e}", p.n());
                    let zs: Vec<f64> = norms(&p, *which).into_iter().filter(|z| z.is_finite() && *z > 1e-100 && *z < 1e100).collect();
                    if p.finite() && !zs.is_empty() {
                        ensure!(zs.iter().any(|z| near(*v, p.v[i] / z, 0.0, 1e-10)), format!("normaliser-single:{which}"), "feature {i} is {v:e}, of {:?} and norm {zs:?}", p.v);
                    }
                },
            },
            _ => return violation("?", format!("{a:?}")),
        }
    }
    Ok(())
}

fn body(h: &History, rep: &mut Rep) -> Res {
    let mut forms_ = Vec::new();
    forms(&h.cfg.basis, h.cfg.dim, &mut forms_);
    let mut fa = h.cfg.build();
    for (k, op) in h.ops.iter().enumerate() {
        let before = fa.clone();
        let w = before.weights();
        let obs = fa.faulted(&op.call, &op.fault, false);
        note(rep, &op.call, &obs, &fa);
        let at = |m: String| format!("op {k} {}: {m}", name(&op.call));
        if let Ret::RealPanic(m) = &obs.ret {
            if matches!(op.call, fa::Call::Iter { fallible: false, .. }) && obs.seen.node_error.is_some() {
                continue;
            }
            return violation(format!("panic:{}", name(&op.call)), at(m.clone()));
        }
        let asked = &obs.seen.asked;
        let Some(x) = op.call.x() else { continue };
        made_of_parts(asked, &forms_, x)?;
        let roots: Vec<&Asked> = asked.iter().filter(|a| a.by.is_none()).collect();
        ensure!(roots.len() <= 1, format!("basis-asked-again:{}", name(&op.call)), "{}", at(format!("the basis was asked {} times", roots.len())));
        let done = matches!(obs.ret, Ret::Unit | Ret::Vals(_) | Ret::Feats(_)) && obs.seen.fired.is_none();
        if !done {
            continue;
        }
        ensure!(roots.len() == 1, format!("basis-not-asked:{}", name(&op.call)), "{}", at("done without asking the basis".into()));
        if let (fa::Call::Ith { i, .. }, Ret::Vals(v)) = (&op.call, &obs.ret) {
            let want = said(roots[0], *i);
            ensure!(want.map_or(false, |want| same(v[0], want)), "single", "{}", at(format!("{v:?}, the basis said {want:?}")));
            continue;
        }
        let Some(Answer::All(f)) = &roots[0].answer else { return violation("basis-not-asked", at("no projection".into())) };
        let phi = match Phi::of(f) {
            Ok(p) => p,
            Err(m) => return violation("malformed", at(m)),
        };
        if !phi.finite() || !finite(&before) {
            break;
        }
        let m = phi.max();
        if m > 1e9 {
            break;
        }
        match &obs.ret {
            Ret::Feats(p) => ensure!(p.v.iter().zip(&phi.v).all(|(a, b)| same(*a, *b)), "projection", "{}", at(format!("{:?}, the basis said {:?}", p.v, phi.v))),
            Ret::Vals(v) => {
                let want = expected_values(&op.call, &before, &phi, &w).unwrap_or_default();
                ensure!(v.len() == want.len(), "values", "{}", at(format!("{} values of {}", v.len(), want.len())));
                for (v, (want, mag)) in v.iter().zip(&want) {
                    ensure!(near(*v, *want, *mag, 1e-11), format!("other-features:{}", name(&op.call)), "{}", at(format!("prediction {v:e}; what the basis said gives {want:e}")));
                }
            },
            _ => {},
        }
        if !op.call.updates() {
            continue;
        }
        // What the callback saw, and then gave.
        let mut errors = fa::errors_of(&before, &op.call, &w.iter().map(|c| phi.dot(c)).collect::<Vec<_>>());
        if let fa::Call::UpdateWith { .. } = op.call {
            ensure!(obs.cb.len() == 1, "callback-again", "{}", at(format!("called back {} times", obs.cb.len())));
            let cb = &obs.cb[0];
            match &cb.phi {
                Ok(p) => ensure!(p.v.len() == phi.v.len() && p.v.iter().zip(&phi.v).all(|(a, b)| same(*a, *b)), "callback-features", "{}", at(format!("{:?}, the basis said {:?}", p.v, phi.v))),
                Err(m) => return violation("malformed", at(m.clone())),
            }
            ensure!(cb.pred.len() == w.len(), "callback-prediction", "{}", at(format!("{} predictions", cb.pred.len())));
            for (p, c) in cb.pred.iter().zip(&w) {
                ensure!(near(*p, phi.dot(c), phi.dot_mag(c), 1e-11), "callback-prediction", "{}", at(format!("{p:e}; what the basis said gives {:e}", phi.dot(c))));
            }
            errors = cb.errors.iter().flatten().copied().enumerate().take(w.len()).collect();
        }
        // The same steps, with the features the basis gave.
        let mut twin = before.clone();
        for (j, e) in errors {
            let r = match &mut twin {
                Fa::S(t) => t.optimiser.step_scaled(&mut t.weights.view_mut(), f, e),
                Fa::V(t) => t.optimiser.step_scaled(&mut t.weights.column_mut(j), f, e),
            };
            if r.is_err() {
                break;
            }
        }
        for (j, (a, b)) in fa.weights().iter().zip(&twin.weights()).enumerate() {
            let mag = b.iter().chain(&w[j]).fold(0.0f64, |m, v| m.max(v.abs()));
            for i in 0..a.len() {
                ensure!(near(a[i], b[i], mag, 1e-9), format!("step-with-other-features:{}", name(&op.call)), "{}", at(format!("weight {i} of output {j} is {:e}, a step along what the basis said gives {:e}", a[i], b[i])));
            }
        }
    }
    Ok(())
}
