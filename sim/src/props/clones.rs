//! C17: clones are complete, and on their own from then on.
use super::*;
use crate::ensure;
use crate::harness::{decode, encode, violation};
use crate::optim::OptRecipe;
use crate::phi::same_bits;
use crate::props::feats::{F1, F2};
use crate::props::learn::{agree, name, set_x};
use crate::seam::{self, Armed, Caught, Seam};
use lfa::optim::Optimiser;
use lfa::{Features, LFA};
use serde_json::Value;
use std::sync::Arc;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Plan {
    Family { key: u64, cfg: Config, ops: Vec<COp> },
    Feats { key: u64, start: Vec<FeatRecipe>, ops: Vec<FOp> },
}

const SLOTS: usize = 4;

#[derive(Clone, Debug, Serialize, Deserialize)]
enum COp {
    Do { a: usize, op: Op },
    /// How: in place of `b`, into `b`, part by part, by way of another clone.
    Clone { a: usize, b: usize, how: u8 },
    /// A component panics while `a` is cloned.
    Fails { a: usize, b: usize, at: u32, into: bool },
    /// Give `a` a clone of one part of `b`.
    Opt { a: usize, b: usize, into: bool },
    Basis { a: usize, b: usize, into: bool },
    Drop { a: usize },
    Swap { a: usize, b: usize },
    Reset { a: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FOp {
    Clone { a: usize, b: usize, into: bool },
    Map { a: usize, f: F1, fault: Option<u32> },
    Merge { a: usize, b: usize, f: F2, fault: Option<u32> },
    Remove { a: usize, i: usize },
    Stack { a: usize, b: usize },
    New { a: usize, f: FeatRecipe },
    /// By hand, through the public representation.
    Poke { a: usize, i: usize, v: f64 },
}

pub fn c17() -> Prop {
    Prop {
        id: "C17",
        gen: |r, thorough| {
            let long = if thorough { 50 } else { 18 };
            encode(&if r.pct(15) { feats_plan(r, long) } else { family_plan(r, long) })
        },
        run: run_c17,
        quick: 40_000,
        thorough: 1_000_000,
        rule: "one run = a family of up to four approximators (or feature vectors) descending from one another by cloning - whole, into one another, part by part, with components panicking on the way - at seeded points of histories of updates, failed and cancelled calls, resets, bare steps and edits, used in seeded turns, dropped and swapped; afterwards, on another thread, the history of each is gone through by one that was never cloned and has no relatives; non-trivial = a fault fired; distinct = distinct hash of everything observed",
        real: REAL_LFA,
        stub: STUB_CALLER,
        assumptions: &["1e-8 relative rounding, as hash order changes the order of sums"],
    }
}

fn family_plan(r: &mut Rng, long: usize) -> Plan {
    let opt = OptRecipe::any(r);
    let mut cfg = Config::random(r, opt, 40);
    if cfg.outputs > 6 {
        cfg.outputs = 3;
    }
    let n: usize = spaces::Space::dim(&cfg.basis.build(cfg.dim)).into();
    let k = r.range(1, 3);
    let pool = crate::basis::pool(r, cfg.dim, k);
    let pct = *r.pick(&[0, 20, 40]);
    let ops = (0..r.range(3, long))
        .map(|_| {
            let (a, b) = (r.below(SLOTS), r.below(SLOTS));
            match r.below(24) {
                0..=4 => COp::Clone { a, b, how: r.below(5) as u8 },
                5 => COp::Fails { a, b, at: r.u32(), into: r.pct(50) },
                6 => COp::Opt { a, b, into: r.pct(50) },
                7 => COp::Basis { a, b, into: r.pct(50) },
                8 => COp::Drop { a },
                9 => COp::Swap { a, b },
                10 => COp::Reset { a },
                _ => {
                    let mut call = Call::random(r, cfg.dim, cfg.outputs);
                    if r.pct(80) {
                        set_x(&mut call, r.pick(&pool).clone());
                    }
                    let raw = if r.pct(10) { Some(Raw { f: FeatRecipe::random(r, n), scale: if r.pct(40) { None } else { Some(Call::error(r)) }, col: r.below(cfg.outputs.max(1)), times: 1 }) } else { None };
                    let edit = if r.pct(8) { Some(Edit::random(r, &cfg)) } else { None };
                    COp::Do { a, op: Op { call, fault: some_fault(r, pct, &[0, 1, 1, 2]), raw, edit } }
                },
            }
        })
        .collect();
    Plan::Family { key: r.u64(), cfg, ops }
}

fn feats_plan(r: &mut Rng, long: usize) -> Plan {
    let n = *r.pick(&[1, 2, 3, 8, 30]);
    let start = (0..2).map(|_| FeatRecipe::random(r, n)).collect();
    let ops = (0..r.range(2, long))
        .map(|_| {
            let (a, b) = (r.below(SLOTS), r.below(SLOTS));
            let fault = if r.pct(30) { Some(r.u32()) } else { None };
            match r.below(12) {
                0..=3 => FOp::Clone { a, b, into: r.pct(50) },
                4 | 5 => FOp::Map { a, f: F1::random(r), fault },
                6 | 7 => FOp::Merge { a, b, f: F2::random(r), fault },
                8 => FOp::Remove { a, i: r.below(n + 1) },
                9 => FOp::Stack { a, b },
                10 => FOp::New { a, f: FeatRecipe::random(r, n) },
                _ => FOp::Poke { a, i: r.below(n), v: r.value() },
            }
        })
        .collect();
    Plan::Feats { key: r.u64(), start, ops }
}

fn run_c17(v: &Value, rep: &mut Rep) -> Res {
    match decode::<Plan>(v) {
        Plan::Family { key, cfg, ops } => {
            let ((res, lives, inner), steps) = rt::incarnation(key, STEPS, || {
                let mut rep = Rep::default();
                let mut lives = Vec::new();
                let res = family(&cfg, &ops, &mut lives, &mut rep);
                (res, lives, rep)
            });
            rep.absorb(&inner);
            rep.steps += steps;
            res?;
            // Nothing of the family is left there.
            let (res, steps) = rt::incarnation(crate::rng::mix(key), STEPS, || lives.iter().try_for_each(|l| retrace(&cfg, l)));
            rep.steps += steps;
            res
        },
        Plan::Feats { key, start, ops } => {
            let ((res, inner), steps) = rt::incarnation(key, STEPS, || {
                let mut rep = Rep::default();
                let res = features(&start, &ops, &mut rep);
                (res, rep)
            });
            rep.absorb(&inner);
            rep.steps += steps;
            res
        },
    }
}

///////////////////////////////////////////////////////////////////////////////
// Approximators
///////////////////////////////////////////////////////////////////////////////
/// What happened to one approximator, from its first ancestor on.
#[derive(Clone, Debug)]
enum Ev {
    Do { call: Call, armed: Option<Armed>, ret: Ret, after: Vec<Vec<f64>> },
    Raw { raw: Raw, after: Vec<Vec<f64>> },
    Edit(Edit),
    Reset,
    /// A part of one with this life.
    Opt(Arc<Vec<Ev>>),
    Basis(Arc<Vec<Ev>>),
}

type Life = Vec<Ev>;

struct Slot {
    fa: Fa,
    life: Life,
    /// Weights when it was last used.
    left: Vec<Vec<f64>>,
}

fn same_columns(a: &[Vec<f64>], b: &[Vec<f64>]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| same_bits(x, y)) }

fn by_parts(fa: &Fa) -> Fa {
    match fa {
        Fa::S(f) => Fa::S(LFA::new(f.basis.clone(), f.weights.clone(), f.optimiser.clone())),
        Fa::V(f) => Fa::V(LFA::new(f.basis.clone(), f.weights.clone(), f.optimiser.clone())),
    }
}

/// `clone_from` of the approximator itself: that of the enum round it would not
/// get there.
fn into(to: &mut Fa, from: &Fa) {
    match (to, from) {
        (Fa::S(t), Fa::S(f)) => t.clone_from(f),
        (Fa::V(t), Fa::V(f)) => t.clone_from(f),
        (t, f) => *t = f.clone(),
    }
}

fn parts(fa: &mut Fa) -> (&mut crate::basis::Node, &mut crate::optim::Opt) {
    match fa {
        Fa::S(f) => (&mut f.basis, &mut f.optimiser),
        Fa::V(f) => (&mut f.basis, &mut f.optimiser),
    }
}

fn family(cfg: &Config, ops: &[COp], lives: &mut Vec<Life>, rep: &mut Rep) -> Res {
    let fa = cfg.build();
    let left = fa.weights();
    let mut slots: Vec<Option<Slot>> = vec![Some(Slot { fa, life: vec![], left })];
    slots.resize_with(SLOTS, || None);
    for (k, op) in ops.iter().enumerate() {
        // An empty slot stands for the first that is not.
        let pick = |slots: &Vec<Option<Slot>>, a: usize| if slots[a].is_some() { a } else { slots.iter().position(|s| s.is_some()).unwrap() };
        match op {
            COp::Do { a, op } => {
                let a = pick(&slots, *a);
                let s = slots[a].as_mut().unwrap();
                if let Some(e) = &op.edit {
                    s.fa.edit(e, cfg);
                    s.life.push(Ev::Edit(e.clone()));
                    rep.shape_str("ed");
                }
                if let Some(raw) = &op.raw {
                    let f = raw.f.build();
                    if f.n_features() == s.fa.weights().first().map_or(0, |w| w.len()) && s.fa.cols() > 0 {
                        let r = raw_step(&mut s.fa, raw.col, &f, raw.scale);
                        ensure!(matches!(r, Ok(Ok(()))), "step-fails", "op {k}: {r:?}");
                        s.life.push(Ev::Raw { raw: raw.clone(), after: s.fa.weights() });
                        rep.shape_str("rw");
                    }
                }
                let armed = op.fault.as_ref().and_then(|f| {
                    let dry = s.fa.clone().call(&op.call, None, false);
                    seam::resolve(f, &dry.seen)
                });
                let obs = s.fa.call(&op.call, armed.clone(), false);
                note(rep, &op.call, &obs, &s.fa);
                if let (Ret::RealPanic(m), None) = (&obs.ret, &obs.seen.fired) {
                    return violation(format!("panic:{}", name(&op.call)), format!("op {k}: {m}"));
                }
                s.left = s.fa.weights();
                s.life.push(Ev::Do { call: op.call.clone(), armed, ret: obs.ret, after: s.left.clone() });
                if !finite(&s.fa) {
                    rep.probe("history cut: weights diverged");
                    break;
                }
            },
            COp::Clone { a, b, how } => {
                let a = pick(&slots, *a);
                rep.ops += 1;
                rep.shape_str("cl");
                if a == *b {
                    continue;
                }
                let life = slots[a].as_ref().unwrap().life.clone();
                if *how == 1 && slots[*b].is_some() {
                    let mut t = slots[*b].take().unwrap();
                    into(&mut t.fa, &slots[a].as_ref().unwrap().fa);
                    lives.push(std::mem::replace(&mut t.life, life));
                    t.left = t.fa.weights();
                    slots[*b] = Some(t);
                    rep.probe("cloned into another");
                } else {
                    let from = &slots[a].as_ref().unwrap().fa;
                    let fa = match how {
                        2 => by_parts(from),
                        3 => {
                            let middle = from.clone();
                            middle.clone()
                        },
                        _ => from.clone(),
                    };
                    let left = fa.weights();
                    if let Some(old) = slots[*b].replace(Slot { fa, life, left }) {
                        lives.push(old.life);
                    }
                }
                let (s, t) = (slots[a].as_ref().unwrap(), slots[*b].as_ref().unwrap());
                ensure!(same_columns(&s.fa.weights(), &t.fa.weights()), "clone-differs", "op {k}: {:?} of {:?}", t.fa.weights(), s.fa.weights());
            },
            COp::Fails { a, b, at, into: inplace } => {
                let a = pick(&slots, *a);
                let s = slots[a].as_ref().unwrap();
                seam::begin(None, false);
                drop(s.fa.clone());
                let n = seam::end().kinds.get(&Seam::Clone).copied().unwrap_or(0);
                if n == 0 {
                    continue;
                }
                rep.ops += 1;
                let mut target = if *inplace && a != *b { slots[*b].take() } else { None };
                let s = slots[a].as_ref().unwrap();
                seam::begin(Some(Armed::Panic(Seam::Clone, *at as u64 % n)), false);
                let r = seam::catch(|| match &mut target {
                    Some(t) => into(&mut t.fa, &s.fa),
                    None => drop(s.fa.clone()),
                });
                if let Some(f) = seam::end().fired {
                    rep.fault(&f);
                }
                match r {
                    Err(Caught::Real(m)) => return violation("panic:clone", format!("op {k}: {m}")),
                    Err(Caught::Sim) => {},
                    Ok(()) => rep.probe("a clone asked for fewer components"),
                }
                // What it was cloned into may be in part one, in part the other.
                if let Some(t) = target {
                    lives.push(t.life);
                }
            },
            COp::Opt { a, b, into } => {
                let (a, b) = (pick(&slots, *a), pick(&slots, *b));
                rep.ops += 1;
                rep.shape_str("op");
                if a == b {
                    continue;
                }
                let mut t = slots[a].take().unwrap();
                let s = slots[b].as_mut().unwrap();
                if *into {
                    clone_opt_into(&mut parts(&mut t.fa).1 .0, &parts(&mut s.fa).1 .0);
                } else {
                    *parts(&mut t.fa).1 = parts(&mut s.fa).1.clone();
                }
                t.life.push(Ev::Opt(Arc::new(s.life.clone())));
                slots[a] = Some(t);
            },
            COp::Basis { a, b, into } => {
                let (a, b) = (pick(&slots, *a), pick(&slots, *b));
                rep.ops += 1;
                rep.shape_str("ba");
                if a == b {
                    continue;
                }
                let mut t = slots[a].take().unwrap();
                let s = slots[b].as_mut().unwrap();
                if *into {
                    clone_basis_into(&mut parts(&mut t.fa).0.kind, &parts(&mut s.fa).0.kind);
                    let from = parts(&mut s.fa).0;
                    let (id, size) = (from.id, from.size);
                    let to = parts(&mut t.fa).0;
                    to.id = id;
                    to.size = size;
                } else {
                    *parts(&mut t.fa).0 = parts(&mut s.fa).0.clone();
                }
                t.life.push(Ev::Basis(Arc::new(s.life.clone())));
                slots[a] = Some(t);
            },
            COp::Drop { a } => {
                rep.ops += 1;
                rep.shape_str("dr");
                if slots.iter().flatten().count() > 1 {
                    if let Some(s) = slots[*a].take() {
                        lives.push(s.life);
                    }
                }
            },
            COp::Swap { a, b } => slots.swap(*a, *b),
            COp::Reset { a } => {
                let a = pick(&slots, *a);
                let s = slots[a].as_mut().unwrap();
                s.fa.opt_mut().reset();
                s.life.push(Ev::Reset);
                rep.ops += 1;
                rep.shape_str("rs");
            },
        }
        // Whoever did nothing is as it was.
        let used = match op {
            COp::Do { a, .. } => Some(pick(&slots, *a)),
            _ => None,
        };
        for (i, s) in slots.iter().enumerate() {
            if let (Some(s), true) = (s, Some(i) != used) {
                ensure!(same_columns(&s.fa.weights(), &s.left), "relative-moved", "op {k}: the weights of slot {i} went from {:?} to {:?} when another was used", s.left, s.fa.weights());
            }
        }
    }
    rep.probe_n("lives followed", slots.iter().flatten().count() as u64 + lives.len() as u64);
    lives.extend(slots.into_iter().flatten().map(|s| s.life));
    Ok(())
}

fn clone_opt_into(to: &mut crate::optim::Inner, from: &crate::optim::Inner) {
    use crate::optim::Inner::*;
    match (to, from) {
        (Sgd(t), Sgd(f)) => t.clone_from(f),
        (Isgd(t), Isgd(f)) => t.clone_from(f),
        (Mom(t), Mom(f)) => t.clone_from(f),
        (Nag(t), Nag(f)) => t.clone_from(f),
        (Adagrad(t), Adagrad(f)) => t.clone_from(f),
        (Adam(t), Adam(f)) => t.clone_from(f),
        (AdaMax(t), AdaMax(f)) => t.clone_from(f),
        (t, f) => *t = f.clone(),
    }
}

fn clone_basis_into(to: &mut crate::basis::Kind, from: &crate::basis::Kind) {
    use crate::basis::Kind::*;
    macro_rules! into {
        ($($k:ident),*) => {
            match (to, from) {
                $(($k(t), $k(f)) => t.clone_from(f),)*
                (t, f) => *t = f.clone(),
            }
        };
    }
    into!(Bias, FixedD, FixedS, Fourier, Poly, Cheb, Kernel, KEq, KM32, KM52, Tile, Grid, Closure, Stack, Biased, L0, L1, L2, Linf)
}

/// One that goes through this life by itself.
fn alone(cfg: &Config, life: &[Ev], check: bool) -> Result<Fa, crate::harness::Violation> {
    let mut fa = cfg.build();
    let mut scale: f64 = 1.0;
    let close = |k: usize, what: &str, fa: &Fa, after: &[Vec<f64>], scale: f64| -> Res {
        let w = fa.weights();
        for (a, b) in after.iter().flatten().zip(w.iter().flatten()) {
            ensure!(crate::phi::near(*a, *b, scale, 1e-8), format!("differs-from-lone:{what}"), "event {k} of its life: weight {a:e}, of one without relatives {b:e}");
        }
        Ok(())
    };
    for (k, ev) in life.iter().enumerate() {
        match ev {
            Ev::Do { call, armed, ret, after } => {
                let obs = fa.call(call, armed.clone(), false);
                if check && finite(&fa) {
                    scale = after.iter().flatten().fold(scale, |a, b| a.max(b.abs()));
                    let what = name(call);
                    let alike = match (ret, &obs.ret) {
                        (Ret::SimPanic, Ret::SimPanic) | (Ret::RealPanic(_), Ret::RealPanic(_)) => true,
                        // Not finite, which says little.
                        (Ret::Vals(x), Ret::Vals(y)) if x.len() == y.len() && !x.iter().chain(y).all(|v| v.is_finite()) => true,
                        (Ret::Feats(x), Ret::Feats(y)) if x.n() == y.n() && !(x.finite() && y.finite()) => true,
                        (a, b) => agree(k, what, a, b, scale).is_ok(),
                    };
                    ensure!(alike, format!("differs-from-lone:{what}"), "event {k} of its life: {ret:?}, of one without relatives {:?}", obs.ret);
                    close(k, what, &fa, after, scale)?;
                }
            },
            Ev::Raw { raw, after } => {
                let _ = raw_step(&mut fa, raw.col, &raw.f.build(), raw.scale);
                if check && finite(&fa) {
                    scale = after.iter().flatten().fold(scale, |a, b| a.max(b.abs()));
                    close(k, "step", &fa, after, scale)?;
                }
            },
            Ev::Edit(e) => {
                fa.edit(e, cfg);
            },
            Ev::Reset => fa.opt_mut().reset(),
            Ev::Opt(other) => {
                let mut o = alone(cfg, other, false)?;
                std::mem::swap(parts(&mut fa).1, parts(&mut o).1);
            },
            Ev::Basis(other) => {
                let mut o = alone(cfg, other, false)?;
                std::mem::swap(parts(&mut fa).0, parts(&mut o).0);
            },
        }
    }
    Ok(fa)
}

fn retrace(cfg: &Config, life: &Life) -> Res { alone(cfg, life, true).map(|_| ()) }

///////////////////////////////////////////////////////////////////////////////
// Feature vectors
///////////////////////////////////////////////////////////////////////////////
fn read(k: usize, f: &Features) -> Result<Phi, crate::harness::Violation> { Phi::of(f).or_else(|m| violation("malformed", format!("op {k}: {m}"))) }

fn same_phi(a: &Phi, b: &Phi) -> bool { a.dense == b.dense && a.on == b.on && same_bits(&a.v, &b.v) }

fn features(start: &[FeatRecipe], ops: &[FOp], rep: &mut Rep) -> Res {
    let mut regs: Vec<Features> = (0..SLOTS).map(|i| start[i % start.len()].build()).collect();
    for (k, op) in ops.iter().enumerate() {
        let before: Vec<Phi> = regs.iter().map(|f| read(k, f)).collect::<Result<_, _>>()?;
        let call = |f: &F1, x: f64| {
            seam::event(Seam::Function);
            f.at(x)
        };
        let call2 = |f: &F2, x: f64, y: f64| {
            seam::event(Seam::Function);
            f.at(x, y)
        };
        rep.ops += 1;
        let target = match op {
            FOp::Clone { a, b, into } => {
                rep.shape_str("cl");
                if a != b {
                    let from = std::mem::replace(&mut regs[*a], Features::dense(vec![]));
                    if *into {
                        regs[*b].clone_from(&from);
                    } else {
                        regs[*b] = from.clone();
                    }
                    regs[*a] = from;
                    let (x, y) = (read(k, &regs[*a])?, read(k, &regs[*b])?);
                    ensure!(same_phi(&x, &y) && same_phi(&x, &before[*a]), "feature-clone-differs", "op {k}: {y:?} of {x:?}");
                }
                *b
            },
            FOp::Map { a, f, fault } => {
                rep.shape_str("mp");
                let armed = fault.and_then(|x| {
                    let c = regs[*a].clone();
                    seam::begin(None, false);
                    drop(c.map(|v| call(f, v)));
                    seam::resolve(&Fault::Panic(x), &seam::end())
                });
                let r = &mut regs[*a];
                seam::begin(armed, false);
                let _ = seam::catch(|| r.map_inplace(|v| call(f, v)));
                if let Some(f) = seam::end().fired {
                    rep.fault(&f);
                }
                *a
            },
            FOp::Merge { a, b, f, fault } => {
                rep.shape_str("mg");
                let other = regs[*b].clone();
                if regs[*a].is_dense() && other.is_dense() && regs[*a].n_features() != other.n_features() {
                    continue;
                }
                let armed = fault.and_then(|x| {
                    let c = regs[*a].clone();
                    seam::begin(None, false);
                    drop(c.merge(&other, |x, y| call2(f, x, y)));
                    seam::resolve(&Fault::Panic(x), &seam::end())
                });
                let r = &mut regs[*a];
                seam::begin(armed, false);
                let _ = seam::catch(|| r.merge_inplace(&other, |x, y| call2(f, x, y)));
                if let Some(f) = seam::end().fired {
                    rep.fault(&f);
                }
                if a != b {
                    ensure!(same_phi(&read(k, &other)?, &before[*b]), "operand-moved", "op {k}: {other:?}");
                }
                *a
            },
            FOp::Remove { a, i } => {
                rep.shape_str("rm");
                regs[*a].remove(*i);
                *a
            },
            FOp::Stack { a, b } => {
                rep.shape_str("st");
                if regs[*a].n_features() + regs[*b].n_features() < 300 {
                    let other = regs[*b].clone();
                    let old = regs[*a].clone();
                    regs[*a] = old.stack(other);
                }
                *a
            },
            FOp::New { a, f } => {
                rep.shape_str("nw");
                regs[*a] = f.build();
                *a
            },
            FOp::Poke { a, i, v } => {
                rep.shape_str("pk");
                match &mut regs[*a] {
                    Features::Dense(d) if !d.is_empty() => {
                        let n = d.len();
                        d[i % n] = *v;
                    },
                    Features::Sparse(s) if s.dim > 0 => drop(s.activations.insert(i % s.dim, *v)),
                    _ => {},
                }
                *a
            },
        };
        for (i, f) in regs.iter().enumerate() {
            let now = read(k, f)?;
            rep.fs(&now.v);
            if i != target {
                ensure!(same_phi(&now, &before[i]), "relative-moved", "op {k} ({op:?}): vector {i} went from {:?} to {now:?}", before[i]);
            }
        }
    }
    Ok(())
}

