//! The properties.
use crate::fa::{Call, Config, Edit, Fa, Obs, Ret};
use crate::harness::{Prop, Rep, Res};
use crate::phi::{FeatRecipe, Phi};
use crate::rng::Rng;
use crate::rt;
use crate::seam::Fault;
use serde::{Deserialize, Serialize};

pub mod clones;
pub mod feats;
pub mod huge;
pub mod learn;
pub mod memory;
pub mod panics;
pub mod progress;
pub mod reading;
pub mod shape;
pub mod storage;
pub mod threads;
pub mod work;

pub fn all() -> Vec<Prop> {
    vec![learn::c01(), panics::c02(), storage::c03(), storage::c04(), learn::c07(), learn::c08(), learn::c15(), shape::c09(), shape::c10(), shape::c12(), shape::c14(), feats::c05(), feats::c06(), threads::c11(), progress::c13(), memory::c16(), clones::c17(), work::c18(), reading::c19()]
}

/// Far beyond what any run takes; reaching it means a call does not return.
pub const STEPS: u64 = 400_000_000;

/// What a basis built for this input alone makes of it.
pub fn fresh_phi(basis: &crate::basis::Recipe, dim: usize, x: &[f64]) -> Option<Phi> {
    match shape::basis_call(&basis.build(dim), x, None, None).0 {
        shape::BRet::Phi(phi) => Some(phi),
        _ => None,
    }
}

/// A history of calls on one approximator.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct History {
    /// Keys of the process's hash maps.
    pub key: u64,
    pub cfg: Config,
    pub ops: Vec<Op>,
    /// Another approximator, which caller code uses in the middle of calls on
    /// this one.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub guest: Vec<History>,
}

/// Run `body` with `guest` called in the middle of some of its operations. What
/// the guest finds wrong counts like what `body` finds.
pub fn hosting(seed: Option<u64>, guest: impl Fn() -> Res + 'static, rep: &mut Rep, body: impl FnOnce(&mut Rep) -> Res) -> Res {
    use std::cell::{Cell, RefCell};
    use std::rc::Rc;
    let Some(seed) = seed else { return body(rep) };
    let wrong = Rc::new(RefCell::new(Ok(())));
    let visits = Rc::new(Cell::new(0u64));
    let (w, n) = (wrong.clone(), visits.clone());
    let r = {
        let _guard = crate::seam::host(
            seed,
            [1, 2, 3, 7][(seed >> 20) as usize % 4],
            Rc::new(move || {
                // Enough: the work of the host is multiplied by that of the guest.
                if n.get() >= 40 {
                    return;
                }
                n.set(n.get() + 1);
                let r = guest();
                if r.is_err() && w.borrow().is_ok() {
                    *w.borrow_mut() = r;
                }
            }),
        );
        body(rep)
    };
    for _ in 0..visits.get() {
        rep.fault("nested call");
    }
    r?;
    let w = wrong.replace(Ok(()));
    w.map_err(|mut v| {
        v.class = format!("nested:{}", v.class);
        v
    })
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Op {
    pub call: Call,
    pub fault: Option<Fault>,
    /// In place of the call: steps of the optimiser, outside of the approximator.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub raw: Option<Raw>,
    /// Before the call, what the caller does to the fields of the approximator.
    #[serde(default, skip_serializing_if = "Option::is_none")]
    pub edit: Option<Edit>,
}

impl Op {
    /// True when the optimiser is a new one.
    pub fn edit(&self, fa: &mut Fa, cfg: &Config, rep: &mut Rep) -> bool {
        let Some(e) = &self.edit else { return false };
        rep.probe("fields edited between calls");
        rep.shape_str("ed");
        fa.edit(e, cfg)
    }
}

/// Let the caller's hands at the fields now and then.
pub fn hands(r: &mut Rng, h: &mut History) {
    if r.pct(15) {
        let pct = *r.pick(&[10, 30]);
        for op in &mut h.ops {
            if r.pct(pct) {
                op.edit = Some(Edit::random(r, &h.cfg));
            }
        }
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Raw {
    pub f: FeatRecipe,
    /// `None`: a bare step.
    pub scale: Option<f64>,
    pub col: usize,
    pub times: u32,
}

/// A step on one column, outside of the approximator.
pub fn raw_step(fa: &mut Fa, col: usize, f: &lfa::Features, scale: Option<f64>) -> Result<lfa::Result<()>, crate::seam::Caught> {
    use lfa::optim::Optimiser;
    crate::seam::catch(|| {
        let (opt, mut w) = match fa {
            Fa::S(a) => (&mut a.optimiser, a.weights.view_mut()),
            Fa::V(a) => {
                let n = a.weights.ncols();
                (&mut a.optimiser, a.weights.column_mut(col % n))
            },
        };
        match scale {
            None => opt.step(&mut w, f),
            Some(s) => opt.step_scaled(&mut w, f, s),
        }
    })
}

impl History {
    pub fn run(&self, rep: &mut Rep, f: fn(&History, &mut Rep) -> Res) -> Res {
        let (r, steps) = rt::incarnation(self.key, STEPS, || {
            let mut r = Rep::default();
            let guest = self.guest.first().cloned();
            let seed = guest.as_ref().map(|g| g.key);
            let visit = move || guest.as_ref().map_or(Ok(()), |g| f(g, &mut Rep::default()));
            let res = hosting(seed, visit, &mut r, |r| f(self, r));
            (res, r)
        });
        let (res, inner) = r;
        rep.absorb(&inner);
        rep.steps += steps;
        res
    }
}

/// Faults at a rate that lets most operations make progress.
pub fn some_fault(r: &mut Rng, pct: usize, kinds: &[u8]) -> Option<Fault> {
    if !r.pct(pct) || kinds.is_empty() {
        return None;
    }
    Some(match *r.pick(kinds) {
        0 => Fault::NodeErr(r.u32()),
        1 => Fault::Panic(r.u32()),
        3 => Fault::Down(r.u32()),
        _ => Fault::OptErr(match r.below(5) {
            0 => 1 << r.below(20),
            1 => r.u32() & r.u32() | 1 << r.below(20),
            _ => 1 + r.below(7) as u32,
        }),
    })
}

/// Record an operation in the trace.
pub fn note(rep: &mut Rep, call: &Call, obs: &Obs, fa: &Fa) {
    rep.ops += 1;
    rep.shape_str(match call {
        Call::Eval { .. } => "ev",
        Call::EvalIdx { .. } => "ei",
        Call::Iter { .. } => "it",
        Call::Update { .. } => "up",
        Call::UpdateIdx { .. } => "ui",
        Call::UpdateWith { .. } => "uw",
        Call::Project { .. } => "pr",
        Call::Ith { .. } => "ith",
        Call::Reset => "rs",
    });
    rep.shape_u(obs.seen.events);
    if let Some(f) = &obs.seen.fired {
        rep.fault(f);
    }
    match &obs.ret {
        Ret::Unit => rep.u(1),
        Ret::Vals(v) => rep.fs(v),
        Ret::Feats(p) => rep.fs(&p.v),
        Ret::Bad(s) => rep.str(s),
        Ret::Err(e) => rep.str(&format!("{e:?}")),
        Ret::SimPanic => rep.u(2),
        Ret::RealPanic(s) => rep.str(s),
    }
    for c in fa.weights() {
        rep.fs(&c);
    }
}

/// `after` is `before` plus `delta`, up to rounding of terms as large as `mag`;
/// entries where nothing was to be added are unchanged.
pub fn moved_by(before: &[f64], after: &[f64], delta: &[f64], mag: &[f64], rel: f64) -> Result<(), String> {
    if before.len() != after.len() {
        return Err(format!("{} weights became {}", before.len(), after.len()));
    }
    for i in 0..before.len() {
        let want = before[i] + delta[i];
        if delta[i] == 0.0 && mag[i] == 0.0 {
            let same = before[i] == after[i] || before[i].is_nan() && after[i].is_nan();
            if !same && !((before[i] - after[i]).abs() <= 1e-280) {
                return Err(format!("weight {i} changed from {:e} to {:e} though its step is zero", before[i], after[i]));
            }
        } else if !crate::phi::near(after[i], want, before[i].abs() + delta[i].abs() + mag[i], rel) {
            return Err(format!("weight {i} is {:e}, expected {:e} (from {:e} by {:e})", after[i], want, before[i], delta[i]));
        }
    }
    Ok(())
}

pub fn finite(fa: &Fa) -> bool { fa.weights().iter().all(|c| c.iter().all(|w| w.is_finite() && w.abs() < 1e12)) }

/// Values an evaluation should return, with the sizes of the sums behind them.
pub fn expected_values(call: &Call, fa: &Fa, phi: &Phi, w: &[Vec<f64>]) -> Option<Vec<(f64, f64)>> {
    let all = || -> Vec<(f64, f64)> { w.iter().map(|c| (phi.dot(c), phi.dot_mag(c))).collect() };
    Some(match call {
        Call::Eval { .. } => all(),
        Call::EvalIdx { .. } if fa.cols() == 0 => vec![],
        Call::EvalIdx { i, .. } => vec![all()[if fa.is_vector() { i % fa.cols() } else { 0 }]],
        Call::Iter { take, .. } => {
            let mut a = all();
            if fa.is_vector() {
                a.truncate(take.unwrap_or(usize::MAX));
            }
            a
        },
        _ => return None,
    })
}

pub const REAL_LFA: &[&str] = &[
    "lfa::LFA / ScalarLFA / VectorLFA",
    "lfa::Features",
    "lfa::basis (all bases, stacks, normalisers, kernels)",
    "lfa::optim (all optimisers)",
];
pub const STUB_CALLER: &[&str] = &[
    "the caller: error callbacks, error and input iterators, hasher, user kernel, user basis behind Closure, user optimiser",
    "hash keys (getrandom)",
];
