//! C09, C10, C12, C14: optimisers after reset, outputs, basis shape and purity.
use super::*;
use crate::basis::{self, In, Node, Recipe};
use crate::disk::Codec;
use crate::ensure;
use crate::fa::errors_of;
use crate::harness::{decode, encode, violation, Violation};
use crate::optim::{Opt, OptRecipe};
use crate::phi::{close, near, same_bits, FeatRecipe};
use crate::props::learn::name;
use crate::seam::{self, Caught};
use lfa::basis::{Basis, Combinators};
use lfa::optim::Optimiser;
use lfa::{Features, ScalarLFA, LFA};
use ndarray::Array1;
use serde_json::Value;
use spaces::Space;

///////////////////////////////////////////////////////////////////////////////
// C09
///////////////////////////////////////////////////////////////////////////////
#[derive(Clone, Debug, Serialize, Deserialize)]
struct ResetPlan {
    key: u64,
    cfg: Config,
    ops: Vec<ResetOp>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum ResetOp {
    Call { call: Call, fault: Option<Fault> },
    /// A bare or scaled step on the first output, perhaps of the wrong length.
    Raw { f: FeatRecipe, scale: Option<f64> },
    Reset { times: u8 },
    /// A step with an error so absurd that accumulators may overflow or stop
    /// being numbers; the weights are mended, the optimiser is not.
    Absurd { f: FeatRecipe, scale: u8 },
}

const ABSURD: [f64; 7] = [f64::INFINITY, f64::NEG_INFINITY, f64::NAN, 1e300, -1e300, 1e160, f64::MAX];

pub fn c09() -> Prop {
    Prop {
        id: "C09",
        gen: |r, thorough| {
            let opt = if r.pct(85) { OptRecipe::stateful(r) } else { OptRecipe::stateless(r) };
            let cfg = Config::random(r, opt, 25);
            let n: usize = cfg.basis.build(cfg.dim).dim().into();
            let k = r.range(2, if thorough { 50 } else { 22 });
            let pct = *r.pick(&[0, 15, 35]);
            let absurd = r.pct(30);
            let ops = (0..k)
                .map(|_| match r.below(if absurd { 11 } else { 10 }) {
                    10 => ResetOp::Absurd { f: FeatRecipe::random(r, n), scale: r.below(ABSURD.len()) as u8 },
                    0 | 1 => ResetOp::Reset { times: r.range(1, 2) as u8 },
                    2 | 3 => {
                        // Not with one parameter, which ndarray would stretch.
                        let len = if r.pct(30) && n > 1 { r.range(0, n + 3) } else { n };
                        ResetOp::Raw { f: FeatRecipe::random(r, len), scale: if r.pct(40) { None } else { Some(Call::error(r)) } }
                    },
                    _ => {
                        let mut call = Call::random(r, cfg.dim, cfg.outputs);
                        while !call.updates() && r.pct(60) {
                            call = Call::random(r, cfg.dim, cfg.outputs);
                        }
                        ResetOp::Call { call, fault: some_fault(r, pct, &[0, 1, 2]) }
                    },
                })
                .collect();
            encode(&ResetPlan { key: r.u64(), cfg, ops })
        },
        run: run_c09,
        quick: 100_000,
        thorough: 1_500_000,
        rule: "one run = one seeded history of steps, failing, cancelled and wrongly sized ones included, with resets in between; after each reset the approximator is compared with one given a newly constructed optimiser; non-trivial = a fault fired before a reset; distinct = distinct hash of everything observed",
        real: REAL_LFA,
        stub: STUB_CALLER,
        assumptions: &["1e-8 relative rounding"],
    }
}

/// A step on column 0. Weights are restored after a step that panicked, as a
/// step cut short leaves them open.
fn raw_or_restore(fa: &mut Fa, f: &Features, scale: Option<f64>) -> Result<lfa::Result<()>, Caught> {
    let before = fa.weights();
    let r = raw_step(fa, 0, f, scale);
    if r.is_err() {
        fa.set_weights(&before);
    }
    r
}

fn run_c09(v: &Value, rep: &mut Rep) -> Res {
    let p: ResetPlan = decode(v);
    let ((res, inner), steps) = rt::incarnation(p.key, STEPS, || {
        let mut rep = Rep::default();
        let r = c09_body(&p, &mut rep);
        (r, rep)
    });
    rep.absorb(&inner);
    rep.steps += steps;
    res
}

fn c09_body(p: &ResetPlan, rep: &mut Rep) -> Res {
    let mut fa = p.cfg.build();
    let n: usize = fa.basis().dim().into();
    let mut twin: Option<Fa> = None;
    let mut dirty = false;
    // After a step that broke off or made no sense, nothing is said about
    // what follows, up to the next reset.
    let mut absurd = false;
    let mut scale: f64 = 1.0;
    for (k, op) in p.ops.iter().enumerate() {
        let sane = fa.weights();
        match op {
            ResetOp::Absurd { f, scale } => {
                let _ = raw_or_restore(&mut fa, &f.build(), Some(ABSURD[*scale as usize % ABSURD.len()]));
                fa.set_weights(&sane);
                rep.fault("absurd error");
                rep.ops += 1;
                rep.shape_str("abs");
                twin = None;
                absurd = true;
                dirty = true;
            },
            ResetOp::Reset { times } => {
                absurd = false;
                let before = fa.weights();
                for _ in 0..*times {
                    fa.opt_mut().reset();
                }
                let after = fa.weights();
                ensure!(before.iter().zip(&after).all(|(a, b)| same_bits(a, b)), "reset-moves-weights", "op {k}: {before:?} -> {after:?}");
                let mut t = fa.clone();
                *t.opt_mut() = p.cfg.opt.build(n);
                twin = Some(t);
                rep.ops += 1;
                rep.shape_str("rs");
                if dirty {
                    rep.probe("reset after a step that was cut short");
                }
            },
            ResetOp::Raw { f, scale: s } => {
                let feats = f.build();
                let a = raw_or_restore(&mut fa, &feats, *s);
                rep.ops += 1;
                rep.shape_str("raw");
                if f.v.len() != n {
                    rep.fault("step of the wrong length");
                    dirty = true;
                }
                if let Some(t) = &mut twin {
                    let b = raw_or_restore(t, &feats, *s);
                    ensure!(matches!((&a, &b), (Ok(x), Ok(y)) if x == y) || matches!((&a, &b), (Err(_), Err(_))), "differs-from-new:step", "op {k}: {a:?} against {b:?}");
                } else if f.v.len() == n && !absurd {
                    ensure!(a.is_ok(), "panic:step", "op {k}: {a:?}");
                } else {
                    absurd = true;
                }
            },
            ResetOp::Call { call, fault } => {
                let obs = fa.faulted(call, fault, false);
                note(rep, call, &obs, &fa);
                if obs.seen.fired.is_some() {
                    dirty = true;
                }
                if let Some(t) = &mut twin {
                    let b = t.faulted(call, fault, false);
                    let ok = match (&obs.ret, &b.ret) {
                        (Ret::Unit, Ret::Unit) | (Ret::SimPanic, Ret::SimPanic) => true,
                        (Ret::RealPanic(x), Ret::RealPanic(y)) => x == y,
                        (Ret::Vals(x), Ret::Vals(y)) => x.len() == y.len() && x.iter().zip(y).all(|(a, b)| near(*a, *b, scale * 50.0, 1e-8)),
                        (Ret::Feats(_), Ret::Feats(_)) => true,
                        (Ret::Err(x), Ret::Err(y)) => x == y,
                        _ => false,
                    };
                    ensure!(ok, format!("differs-from-new:{}", name(call)), "op {k}: {:?} against {:?} with a new optimiser", obs.ret, b.ret);
                }
            },
        }
        if let Some(t) = &twin {
            scale = scale.max(fa.weights().iter().flatten().fold(0.0, |a: f64, b| a.max(b.abs())));
            for (a, b) in fa.weights().iter().flatten().zip(t.weights().iter().flatten()) {
                ensure!(near(*a, *b, scale, 1e-8), format!("differs-from-new:{}", learn::kind(&p.cfg.opt)), "op {k}: weight {a:e} after reset, {b:e} with a new optimiser");
            }
        }
        if absurd && (!finite(&fa) || fa.weights().iter().flatten().any(|w| w.abs() > 1e100)) {
            fa.set_weights(&sane);
        }
        if !finite(&fa) {
            return Ok(());
        }
    }
    Ok(())
}

///////////////////////////////////////////////////////////////////////////////
// C10
///////////////////////////////////////////////////////////////////////////////
#[derive(Clone, Debug, Serialize, Deserialize)]
struct OutputsPlan {
    key: u64,
    cfg: Config,
    ops: Vec<OutOp>,
    /// Another approximator, used by caller code in the middle of these calls.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    guest: Vec<OutputsPlan>,
}

fn outputs_plan(r: &mut Rng, cfg: Config, k: usize, pct: usize) -> OutputsPlan {
    let ops = (0..k)
        .map(|_| {
            if r.pct(3) {
                OutOp::Edit(Edit::random(r, &cfg))
            } else if r.pct(3) {
                let (x, after) = (basis::input(r, cfg.dim), Call::Update { x: basis::input(r, cfg.dim), e: vec![0.5; cfg.outputs], lazy: false });
                OutOp::Beyond { x, by: if r.pct(80) { r.below(3) } else { r.below(1 << 30) }, e: if r.pct(60) { Some(Call::error(r)) } else { None }, after }
            } else if r.pct(20) {
                OutOp::Interleave {
                    x: basis::input(r, cfg.dim),
                    y: basis::input(r, cfg.dim),
                    pattern: (0..r.range(1, cfg.outputs + 4)).map(|_| r.below(64) as u8).collect(),
                }
            } else {
                OutOp::Call { call: Call::random(r, cfg.dim, cfg.outputs), fault: some_fault(r, pct, &[0, 1, 1, 2]) }
            }
        })
        .collect();
    OutputsPlan { key: r.u64(), cfg, ops, guest: vec![] }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum OutOp {
    Call { call: Call, fault: Option<Fault> },
    /// Iterators over two inputs, advanced as the pattern says.
    Interleave { x: Vec<f64>, y: Vec<f64>, pattern: Vec<u8> },
    Edit(Edit),
    /// Ask for an output there is not, or address one.
    Beyond { x: Vec<f64>, by: usize, e: Option<f64>, after: Call },
}

pub fn c10() -> Prop {
    Prop {
        id: "C10",
        gen: |r, thorough| {
            let opt = OptRecipe::any(r);
            let mut cfg = Config::random(r, opt, 30);
            cfg.outputs = if r.pct(3) { if r.pct(15) { r.range(41, 300) } else { r.range(7, 40) } } else { r.range(1, 6) };
            let k = r.range(1, if thorough { 40 } else { 16 });
            let pct = *r.pick(&[0, 20, 40]);
            let mut p = outputs_plan(r, cfg, k, pct);
            if r.pct(10) {
                let mut cfg = p.cfg.clone();
                if r.pct(50) {
                    cfg.basis = cfg.basis.sibling(r);
                }
                cfg.outputs = if r.pct(50) { cfg.outputs } else { r.range(1, 6) };
                cfg.w0 = r.u64() >> 8 | 1;
                let k = r.range(1, 2);
                p.guest = vec![outputs_plan(r, cfg, k, 10)];
            }
            p.cfg.none = r.pct(3);
            if r.pct(5) {
                for op in &mut p.ops {
                    if let OutOp::Call { call, .. } = op {
                        learn::oddify(r, call);
                    }
                }
            }
            encode(&p)
        },
        run: run_c10,
        quick: 80_000,
        thorough: 1_000_000,
        rule: "one run = one seeded history on a multi-output approximator (1 to 6 outputs, at times up to 300, all weight layouts), calls failing in the basis or the optimiser or cancelled in callbacks and error iterators, output iterators advanced in seeded interleavings and consumed in every way, indices beyond the last output; each output is compared with a single-output approximator holding its weights; non-trivial = a fault fired; distinct = distinct hash of everything observed",
        real: REAL_LFA,
        stub: STUB_CALLER,
        assumptions: &["1e-11 relative rounding between strided and contiguous dot products"],
    }
}

fn run_c10(v: &Value, rep: &mut Rep) -> Res {
    let p: OutputsPlan = decode(v);
    let ((res, inner), steps) = rt::incarnation(p.key, STEPS, || {
        let mut rep = Rep::default();
        let guest = p.guest.first().cloned();
        let seed = guest.as_ref().map(|g| g.key);
        let visit = move || guest.as_ref().map_or(Ok(()), |g| c10_body(g, &mut Rep::default()));
        let r = hosting(seed, visit, &mut rep, |rep| c10_body(&p, rep));
        (r, rep)
    });
    rep.absorb(&inner);
    rep.steps += steps;
    res
}

fn c10_body(p: &OutputsPlan, rep: &mut Rep) -> Res {
    let mut fa = p.cfg.build();
    let m = fa.cols();
    if let Fa::V(f) = &fa {
        ensure!(f.n_outputs() == m, "n_outputs", "{} instead of {m}", f.n_outputs());
    }
    for (k, op) in p.ops.iter().enumerate() {
        match op {
            OutOp::Interleave { x, y, pattern } => interleave(k, &fa, x, y, pattern, rep)?,
            OutOp::Edit(e) => {
                fa.edit(e, &p.cfg);
                rep.probe("fields edited between calls");
            },
            OutOp::Beyond { x, by, e, after } => {
                let Fa::V(f) = &mut fa else { continue };
                let before = f.clone();
                let i = f.weights.ncols() + by;
                let r = seam::catch(|| match e {
                    None => f.evaluate_index(In(x), i).map(|v| format!("gives {v:e}")),
                    Some(e) => f.update_index(In(x), i, *e).map(|_| "was taken".to_string()),
                });
                rep.ops += 1;
                rep.probe("output addressed beyond the last");
                let what = if e.is_some() { "update_index" } else { "evaluate_index" };
                if let Ok(Ok(m)) = r {
                    return violation(format!("beyond-last:{what}"), format!("op {k}: output {i} of {}: {m}", before.weights.ncols()));
                }
                let (mut a, mut b) = (fa.clone(), Fa::V(before));
                let mut mag = 1e-9;
                for t in 0..2 {
                    let (p, q) = (a.weights(), b.weights());
                    mag = q.iter().flatten().fold(mag, |m: f64, w| m.max(w.abs()));
                    let same = p.len() == q.len() && p.iter().zip(&q).all(|(p, q)| p.len() == q.len() && p.iter().zip(q).all(|(p, q)| if t == 0 { p.to_bits() == q.to_bits() } else { near(*p, *q, mag, 1e-8) || !p.is_finite() }));
                    ensure!(same, format!("beyond-last-changes:{what}"), "op {k}: output {i} of {}, and then weights {p:?} instead of {q:?}", q.len());
                    a.call(after, None, false);
                    b.call(after, None, false);
                }
            },
            OutOp::Call { call, fault } => {
                let before = fa.weights();
                let obs = fa.faulted(call, fault, true);
                note(rep, call, &obs, &fa);
                let after = fa.weights();
                let shown = obs.cb.first().map(|c| c.pred.clone()).unwrap_or_else(|| vec![0.0; m]);
                let addressed: Vec<usize> = errors_of(&fa, call, &shown).iter().map(|(j, _)| *j).collect();
                // The outputs whose optimiser call came and went.
                let reached: Vec<&Vec<f64>> = obs.seen.opt_calls.iter().filter(|c| !c.failed).map(|c| &c.before).collect();
                for j in 0..m {
                    if !addressed.contains(&j) || !call.updates() {
                        ensure!(same_bits(&before[j], &after[j]), format!("other-output-moved:{}", name(call)), "op {k}: output {j} is not addressed, yet {:?} -> {:?}", before[j], after[j]);
                    } else if !same_bits(&before[j], &after[j]) {
                        ensure!(reached.iter().any(|b| same_bits(b, &before[j])), format!("output-moved-without-step:{}", name(call)), "op {k}: output {j}");
                    }
                }
                match &obs.ret {
                    Ret::RealPanic(msg) if !(obs.seen.node_error.is_some() && matches!(call, Call::Iter { fallible: false, .. })) => return violation(format!("panic:{}", name(call)), format!("op {k}: {msg}")),
                    _ => {},
                }
                if let (Some(x), true) = (call.x(), k % 2 == 0 && finite(&fa)) {
                    consistent(k, &fa, x, rep)?;
                }
                // A single-output approximator evolves the same way.
                if let (Call::UpdateIdx { x, .. } | Call::Update { x, .. }, Ret::Unit, true) = (call, &obs.ret, p.cfg.opt.is_stateless()) {
                    for (j, e) in errors_of(&fa, call, &shown) {
                        let mut s: ScalarLFA<Node, Opt> = LFA::new(fa.basis().clone(), Array1::from(before[j].clone()), p.cfg.opt.build(before[j].len()));
                        let r = s.update(In(x), e);
                        ensure!(r.is_ok(), "single-output-update", "op {k}: {r:?}");
                        for (i, (a, b)) in after[j].iter().zip(s.weights.iter()).enumerate() {
                            let mag = before[j][i].abs().max((b - before[j][i]).abs()).max(1.0);
                            ensure!(near(*a, *b, mag, 1e-11), format!("update-differs-from-single-output:{}", name(call)), "op {k}: output {j}, error {e:e}: weight {i} is {a:e} against {b:e}");
                        }
                    }
                }
                if !finite(&fa) {
                    return Ok(());
                }
            },
        }
    }
    Ok(())
}

fn consistent(k: usize, fa: &Fa, x: &[f64], rep: &mut Rep) -> Res {
    let f = match fa {
        Fa::V(f) => f,
        _ => return Ok(()),
    };
    let m = f.weights.ncols();
    let phi = match fa.phi(x) {
        Ok(p) if p.finite() => p,
        Ok(_) => return Ok(()),
        Err(e) => return violation("projection", e),
    };
    let all = match seam::catch(|| f.evaluate(In(x))) {
        Ok(Ok(v)) => v,
        r => return violation("evaluate", format!("op {k}: {r:?}")),
    };
    ensure!(all.len() == m, "evaluate-length", "op {k}: {} values for {m} outputs", all.len());
    let it: Vec<f64> = f.iter(In(x)).collect();
    ensure!(it.len() == m, "iter-length", "op {k}: {} values for {m} outputs", it.len());
    for j in 0..m {
        let col = f.weights.column(j).to_vec();
        let mag = phi.dot_mag(&col);
        let one = f.evaluate_index(In(x), j);
        let one = match one {
            Ok(v) => v,
            Err(e) => return violation("evaluate_index", format!("op {k}: {e:?}")),
        };
        let single: ScalarLFA<Node, Opt> = LFA::new(f.basis.clone(), Array1::from(col), f.optimiser.clone());
        let s = match single.evaluate(In(x)) {
            Ok(v) => v,
            Err(e) => return violation("single-output-evaluate", format!("op {k}: {e:?}")),
        };
        ensure!(close(all[j], s, mag), "evaluate-differs-from-single-output", "op {k}: output {j}: {:e} against {s:e}", all[j]);
        ensure!(close(one, s, mag), "evaluate_index-differs-from-single-output", "op {k}: output {j}: {one:e} against {s:e}");
        ensure!(close(it[j], s, mag), "iter-differs-from-single-output", "op {k}: output {j}: {:e} against {s:e}", it[j]);
        rep.f(one);
    }
    Ok(())
}

fn interleave(k: usize, fa: &Fa, x: &[f64], y: &[f64], pattern: &[u8], rep: &mut Rep) -> Res {
    let f = match fa {
        Fa::V(f) => f,
        _ => return Ok(()),
    };
    rep.ops += 1;
    rep.shape_str("in");
    let m = f.weights.ncols();
    let mut want = Vec::new();
    for z in [x, y] {
        let phi = match fa.phi(z) {
            Ok(p) if p.finite() => p,
            Ok(_) => return Ok(()),
            Err(e) => return violation("projection", e),
        };
        want.push((0..m).map(|j| { let c = f.weights.column(j).to_vec(); (phi.dot(&c), phi.dot_mag(&c)) }).collect::<Vec<_>>());
    }
    let mut its = vec![f.iter(In(x)), match f.try_iter(In(y)) { Ok(i) => i, Err(e) => return violation("try_iter", format!("{e:?}")) }];
    let mut at = [0usize; 2];
    for step in pattern {
        let w = (step & 1) as usize;
        rep.shape_u(*step as u64);
        ensure!(its[w].len() == m - at[w], "iter-exact-length", "op {k}: {} left, reported {}", m - at[w], its[w].len());
        ensure!(its[w].size_hint() == (m - at[w], Some(m - at[w])), "iter-size-hint", "op {k}: {:?}", its[w].size_hint());
        let it = &mut its[w];
        let (first, stride, got): (usize, usize, Vec<Option<f64>>) = match step >> 1 & 7 {
            0..=2 => (at[w], 1, vec![it.next()]),
            3 => (at[w] + 1, 1, vec![it.nth(1)]),
            4 => (at[w] + 2, 1, vec![it.nth(2)]),
            5 => {
                let skip = (step >> 4) as usize * 3 + 3;
                (at[w] + skip, 1, vec![it.nth(skip)])
            },
            6 => (at[w], 1, it.by_ref().take(2).map(Some).collect()),
            _ => (at[w] + 1, 2, vec![it.nth(1), it.nth(1)]),
        };
        ensure!(step >> 1 & 7 != 6 || got.len() == (m - at[w]).min(2), "iter-take", "op {k}: {} values of {} left", got.len(), m - at[w]);
        for (q, g) in got.iter().enumerate() {
            let idx = first + q * stride;
            match (g, want[w].get(idx)) {
                (Some(g), Some((v, mag))) => ensure!(close(*g, *v, *mag), "iter-value", "op {k}: output {idx}: {g:e} instead of {v:e}"),
                (None, Some(_)) => return violation("iter-ends-early", format!("op {k}: no value for output {idx} of {m}")),
                (Some(g), None) => return violation("iter-goes-on", format!("op {k}: {g:?} beyond the last output")),
                (None, None) => {},
            }
            at[w] = (idx + 1).min(m);
        }
    }
    // What is left, taken in ways that need not go one by one.
    for (w, it) in its.into_iter().enumerate() {
        let mode = (pattern.get(pattern.len() / 2).copied().unwrap_or(0) >> 1) as usize + 3 * w;
        let left = &want[w][at[w]..];
        let sum = left.iter().map(|l| l.0).sum::<f64>();
        let mag = left.iter().map(|l| l.1).sum::<f64>();
        match mode % 8 {
            0 => ensure!(it.count() == left.len(), "iter-count", "op {k}: not {}", left.len()),
            1 => {
                let last = it.last();
                ensure!(last.is_some() == !left.is_empty() && last.map_or(true, |l| close(l, left[left.len() - 1].0, left[left.len() - 1].1)), "iter-last", "op {k}: {last:?} instead of {:?}", left.last());
            },
            2 => {
                let s: f64 = it.sum();
                ensure!(close(s, sum, mag), "iter-sum", "op {k}: {s:e} instead of {sum:e}");
            },
            3 => {
                let mut n = 0;
                let mut s = 0.0;
                it.for_each(|v| {
                    n += 1;
                    s += v;
                });
                ensure!(n == left.len() && close(s, sum, mag), "iter-for-each", "op {k}: {n} values, sum {s:e}, instead of {} and {sum:e}", left.len());
            },
            4 => {
                let v: Vec<f64> = it.step_by(3).collect();
                let u: Vec<_> = left.iter().step_by(3).collect();
                ensure!(v.len() == u.len() && v.iter().zip(&u).all(|(a, b)| close(*a, b.0, b.1)), "iter-step-by", "op {k}: {v:?} instead of {u:?}");
            },
            5 => {
                let v: Vec<f64> = it.skip(2).collect();
                let u: Vec<_> = left.iter().skip(2).collect();
                ensure!(v.len() == u.len() && v.iter().zip(&u).all(|(a, b)| close(*a, b.0, b.1)), "iter-skip", "op {k}: {v:?} instead of {u:?}");
            },
            _ => {
                let v: Vec<f64> = it.collect();
                ensure!(v.len() == left.len() && v.iter().zip(left).all(|(a, b)| close(*a, b.0, b.1)), "iter-rest", "op {k}: {v:?} instead of {left:?}");
            },
        }
    }
    rep.probe("interleaved output iterators");
    Ok(())
}

///////////////////////////////////////////////////////////////////////////////
// C12
///////////////////////////////////////////////////////////////////////////////
#[derive(Clone, Debug, Serialize, Deserialize)]
struct BasisPlan {
    key: u64,
    dim: usize,
    basis: Recipe,
    ops: Vec<BasisOp>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct BasisOp {
    x: Vec<f64>,
    /// `None`: project. Otherwise ask for this feature.
    i: Option<usize>,
    fault: Option<Fault>,
}

pub fn c12() -> Prop {
    Prop {
        id: "C12",
        gen: |r, thorough| {
            let (dim, mut basis) = Recipe::any(r, 4, 80);
            if r.below(150) == 0 {
                let d = r.below(3);
                basis = vast(r, d);
            }
            let n = if is_vast(&basis) { vast_n(&basis) } else { basis.build(dim).dim().into() };
            let k = r.range(1, 3);
            let mut pool = basis::pool(r, dim, k);
            if r.pct(8) {
                pool.push(basis::extreme(r, dim));
            }
            let pct = *r.pick(&[0, 20, 50]);
            let k = r.range(1, if thorough { 60 } else { 24 });
            let ops = (0..k)
                .map(|_| BasisOp {
                    x: if r.pct(70) { r.pick(&pool).clone() } else { basis::input(r, dim) },
                    i: match r.below(10) {
                        0..=2 => None,
                        3 => Some(n),
                        4 => Some(*r.pick(&[n + 1, 2 * n, n + 7, usize::MAX, 1 << 40])),
                        _ => Some(r.below(n)),
                    },
                    fault: some_fault(r, pct, &[0, 0, 1, 3]),
                })
                .collect();
            encode(&BasisPlan { key: r.u64(), dim, basis, ops })
        },
        run: run_c12,
        quick: 130_000,
        thorough: 2_000_000,
        rule: "one run = one seeded tree of bases (up to depth 4, every basis and kernel of the library and caller-supplied ones) and a seeded history of projections and single-feature requests, in and out of range, with components failing or panicking; non-trivial = a fault fired; distinct = distinct hash of everything observed",
        real: &["lfa::basis (all bases, stacks, normalisers, kernels, combinators)", "lfa::Features"],
        stub: &["caller-supplied basis, kernel, hasher and input iterator", "hash keys (getrandom)"],
        assumptions: &["single features are not compared where a norm is zero and the projection is not finite"],
    }
}

fn run_c12(v: &Value, rep: &mut Rep) -> Res {
    let p: BasisPlan = decode(v);
    let ((res, inner), steps) = rt::incarnation(p.key, STEPS, || {
        let mut rep = Rep::default();
        let r = c12_body(&p, &mut rep);
        (r, rep)
    });
    rep.absorb(&inner);
    rep.steps += steps;
    res
}

fn leaf_kinds(r: &Recipe, out: &mut Vec<String>) {
    match r {
        Recipe::Stack(a, b) => {
            leaf_kinds(a, out);
            leaf_kinds(b, out);
        },
        Recipe::Biased(a) | Recipe::Norm(_, a) => leaf_kinds(a, out),
        l => out.push(format!("{l:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("?").to_string()),
    }
}

pub fn top(r: &Recipe) -> String { format!("{r:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("?").to_string() }

pub enum BRet {
    Phi(Phi),
    Val(f64),
    Err(lfa::Error),
    Sim,
    Real(String),
    Bad(String),
}

pub fn basis_call(b: &Node, x: &[f64], i: Option<usize>, armed: Option<seam::Armed>) -> (BRet, seam::Seen) {
    use lfa::basis::EnumerableBasis;
    let x = &basis::actual(x)[..];
    seam::begin(armed, false);
    let r = seam::catch(|| match i {
        None => match b.project(In(x)) {
            Ok(f) => match Phi::of(&f) {
                Ok(p) => BRet::Phi(p),
                Err(m) => BRet::Bad(m),
            },
            Err(e) => BRet::Err(e),
        },
        Some(i) => match b.ith(In(x), i) {
            Ok(v) => BRet::Val(v),
            Err(e) => BRet::Err(e),
        },
    });
    let seen = seam::end();
    (
        match r {
            Ok(r) => r,
            Err(Caught::Sim) => BRet::Sim,
            Err(Caught::Real(m)) => BRet::Real(m),
        },
        seen,
    )
}

fn armed_for(b: &Node, x: &[f64], i: Option<usize>, fault: &Option<Fault>) -> Option<seam::Armed> {
    if let Some(Fault::Down(r)) = fault {
        return Some(seam::Armed::Down(r % b.size.max(1)));
    }
    fault.as_ref().and_then(|f| seam::resolve(f, &basis_call(b, x, i, None).1))
}

/// Few active features of very many.
fn vast(r: &mut Rng, depth: usize) -> Recipe {
    let n = *r.pick(&[(1 << 20) + 1, 3_000_000, (1 << 32) - 1, (1 << 32) + 3, 1 << 40, (1 << 53) + 1]) + r.below(5);
    match if depth == 0 { r.below(2) } else { r.below(5) } {
        0 => Recipe::Tile { tilings: *r.pick(&[1, 3, 8, 16]), memory: n, key: r.u64() >> 16 },
        1 => Recipe::FixedS(n, (0..r.range(1, 6)).map(|_| if r.pct(30) { n - 1 - r.below(3) } else { r.below(n) }).collect()),
        2 => Recipe::Norm(r.below(4) as u8, Box::new(vast(r, depth - 1))),
        3 => Recipe::Stack(Box::new(Recipe::FixedS(5, vec![r.below(5)])), Box::new(vast(r, depth - 1))),
        _ => Recipe::Stack(Box::new(vast(r, depth - 1)), Box::new(vast(r, depth - 1))),
    }
}

fn vast_n(r: &Recipe) -> usize {
    match r {
        Recipe::Tile { memory, .. } => *memory,
        Recipe::FixedS(n, _) => *n,
        Recipe::Norm(_, a) => vast_n(a),
        Recipe::Stack(a, b) => vast_n(a) + vast_n(b),
        _ => 0,
    }
}

fn is_vast(r: &Recipe) -> bool { vast_n(r) > 1 << 20 }

fn c12_vast(p: &BasisPlan, rep: &mut Rep) -> Res {
    use lfa::basis::EnumerableBasis;
    let b = p.basis.build(p.dim);
    let n = vast_n(&p.basis);
    rep.probe("more features than memory holds");
    for (k, op) in p.ops.iter().enumerate() {
        ensure!(Basis::<In>::n_features(&b) == n && b.dim() == spaces::Dim::Finite(n), "vast:n_features", "op {k}: {:?} instead of {n}", b.dim());
        let x = &basis::actual(&op.x)[..];
        let whole = |armed: Option<seam::Armed>| {
            seam::begin(armed, false);
            let r = seam::catch(|| b.project(In(x)));
            (r, seam::end())
        };
        let (r, dry) = whole(None);
        let f = match r {
            Ok(Ok(lfa::Features::Sparse(f))) => f,
            Ok(Ok(_)) => return violation("vast:dense", format!("op {k}: {n} features made dense")),
            Ok(Err(e)) => return violation("vast:error", format!("op {k}: {e:?}")),
            Err(e) => return violation("vast:panic", format!("op {k}: {e:?}")),
        };
        ensure!(f.dim == n, "vast:length", "op {k}: {} instead of {n}", f.dim);
        let mut on: Vec<(usize, f64)> = f.activations.iter().map(|(i, v)| (*i, *v)).collect();
        on.sort_by_key(|e| e.0);
        ensure!(on.iter().all(|e| e.0 < n), "vast:beyond-end", "op {k}: {on:?} of {n}");
        rep.ops += 1;
        rep.u(on.len() as u64);
        let probe = on.get(k % on.len().max(1)).map(|e| e.0);
        for i in op.i.into_iter().chain(probe).chain([n - 1, n]) {
            seam::begin(None, false);
            let r = seam::catch(|| b.ith(In(x), i));
            seam::end();
            let want = f.activations.get(&i).copied().unwrap_or(0.0);
            match r {
                Ok(Ok(v)) => ensure!(i < n && near(v, want, want.abs(), 1e-10), "vast:ith", "op {k}: feature {i} of {n} is {v:e}, the projection has {want:e}"),
                Ok(Err(_)) => ensure!(i >= n, "vast:ith-error", "op {k}: feature {i} of {n}"),
                Err(e) => return violation("vast:panic", format!("op {k} feature {i} of {n}: {e:?}")),
            }
        }
        let armed = match &op.fault {
            Some(Fault::Down(r)) => Some(seam::Armed::Down(r % b.size.max(1))),
            o => o.as_ref().and_then(|o| seam::resolve(o, &dry)),
        };
        if armed.is_none() {
            continue;
        }
        let (r, seen) = whole(armed);
        if let Some(f) = &seen.fired {
            rep.fault(f);
        }
        match r {
            Ok(Ok(_)) => ensure!(seen.node_error.is_none(), "vast:error-lost", "op {k}: {:?}", seen.node_error),
            Ok(Err(e)) => ensure!(Some(&e) == seen.node_error.as_ref(), "vast:wrong-error", "op {k}: {e:?}, the component reported {:?}", seen.node_error),
            Err(Caught::Sim) => {},
            Err(e) => return violation("vast:panic", format!("op {k}: {e:?}")),
        }
    }
    Ok(())
}

fn c12_body(p: &BasisPlan, rep: &mut Rep) -> Res {
    if is_vast(&p.basis) {
        return c12_vast(p, rep);
    }
    let b = p.basis.build(p.dim);
    let n: usize = b.dim().into();
    let mut kinds = Vec::new();
    leaf_kinds(&p.basis, &mut kinds);
    for k in &kinds {
        rep.shape_str(k);
    }
    let t = top(&p.basis);
    for (k, op) in p.ops.iter().enumerate() {
        ensure!(Basis::<In>::n_features(&b) == n, format!("n_features:{t}"), "op {k}: {} instead of {n}", Basis::<In>::n_features(&b));
        let phi = match basis_call(&b, &op.x, None, None).0 {
            BRet::Phi(p) => p,
            BRet::Bad(m) => return violation(format!("malformed:{t}"), format!("op {k}: {m}")),
            BRet::Real(m) => return violation(format!("panic:project:{t}"), format!("op {k}: {m}")),
            BRet::Err(e) => return violation(format!("error:project:{t}"), format!("op {k}: {e:?}")),
            _ => return violation("?", "?"),
        };
        ensure!(phi.n() == n, format!("length:{t}"), "op {k}: {} features announced, projection has {}", n, phi.n());
        let armed = armed_for(&b, &op.x, op.i, &op.fault);
        let (ret, seen) = basis_call(&b, &op.x, op.i, armed);
        rep.ops += 1;
        rep.shape_str(if op.i.is_none() { "p" } else { "i" });
        rep.shape_u(seen.events);
        if let Some(f) = &seen.fired {
            rep.fault(f);
        }
        let correct = |i: usize, v: f64| !phi.finite() || (i < n && near(v, phi.v[i], phi.max(), 1e-10));
        match (&op.i, ret) {
            (_, BRet::Sim) => {},
            (_, BRet::Bad(m)) => return violation(format!("malformed:{t}"), format!("op {k}: {m}")),
            (None, BRet::Phi(q)) => {
                ensure!(seen.node_error.is_none(), format!("error-lost:{t}"), "op {k}: a component failed with {:?}, the projection gave features", seen.node_error);
                ensure!(q.n() == n && (!phi.finite() || q.v.iter().zip(&phi.v).all(|(a, b)| near(*a, *b, phi.max(), 1e-10))), format!("not-repeatable:{t}"), "op {k}: {:?} then {:?}", phi.v, q.v);
                rep.fs(&q.v);
            },
            (None, BRet::Err(e)) => ensure!(Some(&e) == seen.node_error.as_ref(), format!("wrong-error:{t}"), "op {k}: {e:?}, the component reported {:?}", seen.node_error),
            (Some(i), BRet::Val(v)) => {
                ensure!(*i < n, format!("ith-out-of-range:{t}"), "op {k}: feature {i} of {n} is {v}");
                ensure!(correct(*i, v), format!("ith-value:{t}"), "op {k}: feature {i} is {v:e}, the projection has {:e}", phi.v[*i]);
                rep.f(v);
                if !phi.dense && !phi.on[*i] {
                    rep.probe("single feature asked for at an absent sparse entry");
                }
            },
            (Some(i), BRet::Err(e)) => {
                if *i >= n {
                    rep.probe("single feature asked for out of range");
                } else {
                    ensure!(Some(&e) == seen.node_error.as_ref(), format!("ith-error:{t}"), "op {k}: feature {i} of {n} gave {e:?}, components reported {:?}", seen.node_error);
                }
            },
            (i, BRet::Real(m)) => return violation(format!("panic:{}:{t}", if i.is_some() { "ith" } else { "project" }), format!("op {k} feature {i:?} of {n}: {m}")),
            _ => return violation("?", "?"),
        }
    }
    let _ = b.clone().with_bias().dim();
    Ok(())
}

///////////////////////////////////////////////////////////////////////////////
// C14
///////////////////////////////////////////////////////////////////////////////
#[derive(Clone, Debug, Serialize, Deserialize)]
struct PurePlan {
    dim: usize,
    basis: Recipe,
    pool: Vec<Vec<f64>>,
    /// Lives of the basis: each in a process with other hash keys.
    more: Vec<Life>,
    /// Asked of a process that has called nothing yet, too.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    abroad: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Life {
    key: u64,
    codec: Option<Codec>,
    ops: Vec<PureOp>,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum PureOp {
    Project { p: usize, i: Option<usize>, fault: Option<Fault> },
    Clone,
    /// Another basis of the same form projects the same input and goes away;
    /// this one moves to where the other was.
    Sibling { p: usize, seed: u64 },
    /// Project something else entirely.
    Other { x: Vec<f64> },
    /// The same input, more often than 16 bits count.
    Marathon { p: usize, times: u32 },
    /// Project one input; its iterator and other caller code project another
    /// on the way, with this basis or one of the same form.
    Nested { p: usize, q: usize, seed: u64 },
    /// Tile coding keyed by the standard library's random state.
    Random { p: usize },
}

pub fn c14() -> Prop {
    Prop {
        id: "C14",
        gen: |r, thorough| {
            let (dim, basis) = Recipe::any(r, 3, 60);
            let n: usize = basis.build(dim).dim().into();
            let k = r.range(1, 5);
            let mut pool = basis::pool(r, dim, k);
            if r.pct(8) {
                pool.push(basis::extreme(r, dim));
            }
            let pct = *r.pick(&[10, 30]);
            let lives = r.range(1, if thorough { 5 } else { 3 });
            let mut more = (0..lives)
                .map(|l| Life {
                    key: r.u64(),
                    codec: if l == 0 || r.pct(25) { None } else { Some(Codec::random(r)) },
                    ops: (0..r.range(1, 10))
                        .map(|_| match r.below(12) {
                            0 if r.pct(60) => PureOp::Sibling { p: r.below(pool.len()), seed: r.u64() },
                            0 => PureOp::Clone,
                            1 | 2 => PureOp::Other { x: basis::input(r, dim) },
                            3 if r.pct(50) => PureOp::Nested { p: r.below(pool.len()), q: r.below(pool.len()), seed: r.u64() },
                            3 => PureOp::Random { p: r.below(pool.len()) },
                            _ => PureOp::Project { p: r.below(pool.len()), i: if r.pct(25) && n > 0 { Some(r.below(n)) } else { None }, fault: some_fault(r, pct, &[0, 1]) },
                        })
                        .collect(),
                })
                .collect::<Vec<Life>>();
            if n <= 8 && r.below(1500) == 0 {
                more[0].ops.push(PureOp::Marathon { p: r.below(pool.len()), times: 66_000 });
            }
            let abroad = r.pct(2);
            encode(&PurePlan { dim, basis, pool, more, abroad })
        },
        run: run_c14,
        quick: 100_000,
        thorough: 1_000_000,
        rule: "one run = one basis tree living through up to three (thorough: five) processes with different hash keys, moved or reloaded from a checkpoint in between, projecting a small pool of inputs repeatedly amid other, failing and panicking projections and clones, and amid bases of the same form that come and go at recycled addresses; non-trivial = a fault fired or the basis was reloaded or re-keyed; distinct = distinct hash of everything observed",
        real: &["lfa::basis (all bases, stacks, normalisers, kernels)", "lfa::Features", "serde implementations of lfa, bincode, serde_json, ciborium"],
        stub: &["caller-supplied basis, kernel, hasher and input iterator", "process boundary: a fresh thread with its own hash keys"],
        assumptions: &["1e-11 relative rounding, as hash order changes the order of sums in normalisers"],
    }
}

fn run_c14(v: &Value, rep: &mut Rep) -> Res {
    let p: PurePlan = decode(v);
    if p.pool.is_empty() {
        return Ok(());
    }
    // What each input gives to a basis that has seen nothing else.
    let mut seen: Vec<Option<Phi>> = Vec::new();
    for x in &p.pool {
        let (phi, steps) = rt::incarnation(0, STEPS, || fresh_phi(&p.basis, p.dim, x));
        rep.steps += steps;
        seen.push(phi);
    }
    if p.abroad {
        // And to one in a process that has seen nothing else.
        match crate::abroad::ask(&crate::abroad::Ask::Basis { dim: p.dim, basis: p.basis.clone(), pool: p.pool.clone() }) {
            Ok(told) => {
                for (i, x) in p.pool.iter().enumerate() {
                    match (&mut seen[i], told.phi(i)) {
                        (None, None) => {},
                        (Some(_), Some(phi)) => same_phi(i, &format!("{}:in another process", top(&p.basis)), x, &mut seen[i], phi)?,
                        (a, b) => return violation(format!("projection-changed:{}:in another process", top(&p.basis)), format!("input {x:?} gave {a:?}, in another process {b:?}")),
                    }
                }
                rep.probe("compared with another process of the operating system's");
            },
            Err(m) => return violation(format!("process:{}", top(&p.basis)), m),
        }
    }
    let mut carried: Option<(Node, Option<Vec<u8>>)> = None;
    for (l, life) in p.more.iter().enumerate() {
        let start = carried.take();
        let ((r, inner), steps) = rt::incarnation(life.key, STEPS, || {
            let mut rep = Rep::default();
            let r = c14_life(&p, life, start, &mut seen, p.more.get(l + 1).and_then(|n| n.codec), &mut rep);
            (r, rep)
        });
        rep.absorb(&inner);
        rep.steps += steps;
        carried = Some(r?);
    }
    Ok(())
}

fn c14_life(p: &PurePlan, life: &Life, start: Option<(Node, Option<Vec<u8>>)>, seen: &mut [Option<Phi>], next: Option<Codec>, rep: &mut Rep) -> Result<(Node, Option<Vec<u8>>), Violation> {
    let t = top(&p.basis);
    let mut b = match (start, life.codec) {
        (None, _) => p.basis.build(p.dim),
        (Some((_, Some(bytes))), Some(c)) => {
            rep.fault("reload with other hash keys");
            match seam::catch(|| c.from_slice::<Node>(&bytes)) {
                Ok(Ok(b)) => b,
                r => return violation(format!("reload:{c:?}"), format!("{:?}", r.map(|r| r.map(|_| ())))),
            }
        },
        (Some((b, _)), _) => {
            rep.fault("moved to other hash keys");
            b
        },
    };
    let tile = lfa::basis::TileCoding::new(std::collections::hash_map::RandomState::new(), 4, 31);
    let tile2 = tile.clone();
    let mut tiles: Vec<Option<Phi>> = vec![None; p.pool.len()];
    for (k, op) in life.ops.iter().enumerate() {
        rep.ops += 1;
        match op {
            PureOp::Clone => {
                rep.shape_str("c");
                let c = b.clone();
                b = c;
            },
            PureOp::Sibling { p: q, seed } => {
                rep.shape_str("s");
                let q = q % p.pool.len();
                let x = &p.pool[q];
                let other = p.basis.sibling(&mut Rng::new(*seed));
                let (mut fresh, steps) = rt::incarnation(0, STEPS, || match basis_call(&other.build(p.dim), x, None, None).0 {
                    BRet::Phi(phi) => Some(phi),
                    _ => None,
                });
                rep.steps += steps;
                let o = other.build(p.dim);
                if let BRet::Phi(phi) = basis_call(&o, x, None, None).0 {
                    same_phi(k, &top(&other), x, &mut fresh, phi)?;
                    rep.probe("a basis of the same form projected the same input");
                }
                drop(o);
                let c = b.clone();
                b = c;
                if let BRet::Phi(phi) = basis_call(&b, x, None, None).0 {
                    same_phi(k, &t, x, &mut seen[q], phi)?;
                }
            },
            PureOp::Nested { p: h, q, seed } => {
                rep.shape_str("n");
                let (h, q) = (h % p.pool.len(), q % p.pool.len());
                let (x, y) = (&p.pool[h], p.pool[q].clone());
                let host = std::rc::Rc::new(b);
                // The guest: this basis, or another.
                let (other, want) = if seed % 3 > 0 {
                    (None, seen[q].clone())
                } else {
                    let o = p.basis.sibling(&mut Rng::new(*seed)).build(p.dim);
                    let w = match basis_call(&o, &y, None, None).0 {
                        BRet::Phi(phi) => Some(phi),
                        _ => None,
                    };
                    (Some(o), w)
                };
                let g = other.map(std::rc::Rc::new).unwrap_or_else(|| host.clone());
                let name = t.clone();
                let known = want.is_some();
                let visit = move || match basis_call(&g, &y, None, None).0 {
                    BRet::Phi(phi) => same_phi(k, &name, &y, &mut want.clone(), phi),
                    BRet::Real(m) => violation(format!("panic:{name}"), format!("op {k}: {m}")),
                    BRet::Err(e) => violation(format!("error:{name}"), format!("op {k}: {e:?}")),
                    _ => Ok(()),
                };
                if known {
                    let me = host.clone();
                    let slot = &mut seen[h];
                    let name = t.clone();
                    hosting(Some(*seed), visit, rep, move |_| match basis_call(&me, x, None, None).0 {
                        BRet::Phi(phi) => same_phi(k, &name, x, slot, phi),
                        BRet::Real(m) => violation(format!("panic:{name}"), format!("op {k}: {m}")),
                        BRet::Err(e) => violation(format!("error:{name}"), format!("op {k}: {e:?}")),
                        _ => Ok(()),
                    })?;
                }
                b = std::rc::Rc::try_unwrap(host).unwrap_or_else(|h| (*h).clone());
            },
            PureOp::Other { x } => {
                rep.shape_str("o");
                let _ = basis_call(&b, x, None, None);
            },
            PureOp::Marathon { p: q, times } => {
                rep.shape_str("m");
                let q = q % p.pool.len();
                let x = &p.pool[q];
                for _ in 0..*times {
                    if let BRet::Phi(phi) = basis_call(&b, x, None, None).0 {
                        same_phi(k, &t, x, &mut seen[q], phi)?;
                    }
                }
                rep.probe("one input projected tens of thousands of times");
            },
            PureOp::Random { p: q } => {
                rep.shape_str("r");
                let q = q % p.pool.len();
                let x = &p.pool[q];
                for b in [&tile, &tile2] {
                    let f = match seam::catch(|| b.project(In(&basis::actual(x)))) {
                        Ok(Ok(f)) => f,
                        r => return violation("panic:TileCoding", format!("{r:?}")),
                    };
                    let phi = match Phi::of(&f) {
                        Ok(f) => f,
                        Err(m) => return violation("malformed:TileCoding", m),
                    };
                    same_phi(k, "TileCoding<RandomState>", x, &mut tiles[q], phi)?;
                }
            },
            PureOp::Project { p: q, i, fault } => {
                let q = q % p.pool.len();
                let x = &p.pool[q];
                let armed = armed_for(&b, x, *i, fault);
                let (ret, s) = basis_call(&b, x, *i, armed);
                rep.shape_str("p");
                rep.shape_u(s.events);
                if let Some(f) = &s.fired {
                    rep.fault(f);
                }
                match ret {
                    BRet::Phi(phi) => {
                        rep.fs(&phi.v);
                        same_phi(k, &t, x, &mut seen[q], phi)?
                    },
                    BRet::Val(v) => {
                        rep.f(v);
                        let i = i.unwrap_or(0);
                        if let Some(phi) = &seen[q] {
                            ensure!(i >= phi.n() || !phi.finite() || near(v, phi.v[i], phi.max(), 1e-10), format!("feature-changed:{t}"), "op {k}: input {x:?}: feature {i} was {:e}, now {v:e}", phi.v[i]);
                        }
                    },
                    BRet::Err(e) => ensure!(Some(&e) == s.node_error.as_ref(), format!("error:{t}"), "op {k}: {e:?}"),
                    BRet::Sim => {},
                    BRet::Real(m) => return violation(format!("panic:{t}"), format!("op {k}: {m}")),
                    BRet::Bad(m) => return violation(format!("malformed:{t}"), format!("op {k}: {m}")),
                }
            },
        }
    }
    let bytes = match next {
        Some(c) => match seam::catch(|| c.to_vec(&b)) {
            Ok(Ok(b)) => Some(b),
            r => return violation(format!("save:{c:?}"), format!("{:?}", r.map(|r| r.map(|_| ())))),
        },
        None => None,
    };
    Ok((b, bytes))
}

fn same_phi(k: usize, t: &str, x: &[f64], slot: &mut Option<Phi>, phi: Phi) -> Res {
    match slot {
        None => *slot = Some(phi),
        Some(old) => {
            let same = old.dense == phi.dense && old.n() == phi.n() && old.on == phi.on && old.v.iter().zip(&phi.v).all(|(a, b)| near(*a, *b, phi.max(), 1e-10));
            ensure!(same, format!("projection-changed:{t}"), "op {k}: input {x:?} gave {old:?}, now {phi:?}");
        },
    }
    Ok(())
}

