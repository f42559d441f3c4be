//! Approximators under simulation: calls, what they did at their seams, and how
//! they ended.
use crate::basis::{In, Node, Recipe};
use crate::optim::{Opt, OptRecipe};
use crate::phi::Phi;
use crate::rng::Rng;
use crate::seam::{self, Armed, Caught, Fault, Seam, Seen};
use lfa::basis::{Basis, EnumerableBasis};
use lfa::optim::Optimiser;
use lfa::{Error, Features, ScalarLFA, VectorLFA, LFA};
use ndarray::{s, Array1, Array2, ShapeBuilder};
use serde::{Deserialize, Serialize};
use std::cell::RefCell;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Fa {
    S(ScalarLFA<Node, Opt>),
    V(VectorLFA<Node, Opt>),
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct Config {
    pub dim: usize,
    pub basis: Recipe,
    pub opt: OptRecipe,
    /// 0: scalar output.
    pub outputs: usize,
    /// Memory layout of the weights.
    pub layout: u8,
    /// Initial weights are drawn from this; 0 means zeros from the constructor.
    pub w0: u64,
    /// A vector output of length zero, whatever `outputs` says.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    pub none: bool,
}

/// Errors no plan can spell.
pub const NAN: f64 = 1.25e307;
pub const INF: f64 = 1.5e307;

pub fn real(e: f64) -> f64 {
    match e {
        e if e == NAN => f64::NAN,
        e if e.abs() == INF => e * f64::INFINITY,
        e => e,
    }
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Call {
    Eval { x: Vec<f64> },
    EvalIdx { x: Vec<f64>, i: usize },
    /// Take this many values off an output iterator (all when None).
    Iter { x: Vec<f64>, take: Option<usize>, fallible: bool },
    Update { x: Vec<f64>, e: Vec<f64>, lazy: bool },
    UpdateIdx { x: Vec<f64>, i: usize, e: f64 },
    /// Errors computed by a callback: 0 target minus prediction, 1 as given,
    /// 2 as given in a reversed array, 3 as given in a strided array.
    UpdateWith { x: Vec<f64>, t: Vec<f64>, style: u8 },
    Project { x: Vec<f64> },
    Ith { x: Vec<f64>, i: usize },
    Reset,
}

#[derive(Clone, Debug)]
pub enum Ret {
    Unit,
    Vals(Vec<f64>),
    Feats(Phi),
    Bad(String),
    Err(Error),
    SimPanic,
    RealPanic(String),
}

#[derive(Clone, Debug)]
pub struct CbCall {
    pub phi: Result<Phi, String>,
    pub pred: Vec<f64>,
    pub errors: Option<Vec<f64>>,
}

#[derive(Clone, Debug)]
pub struct Obs {
    pub ret: Ret,
    pub cb: Vec<CbCall>,
    pub seen: Seen,
}

/// An iterator of errors of the caller's, which says as little about its length
/// as it may.
struct LazyErrors<'a>(std::slice::Iter<'a, f64>, u8, bool, #[allow(dead_code)] seam::Gone);

thread_local! {
    /// Iterators of errors that hold one for every output go on forever.
    static ENDLESS: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

thread_local! {
    /// Calls take down who asks whom.
    static TAKE_DOWN: std::cell::Cell<bool> = const { std::cell::Cell::new(false) };
}

pub fn take_down(on: bool) { TAKE_DOWN.with(|t| t.set(on)) }

pub fn endless(on: bool) { ENDLESS.with(|e| e.set(on)) }

impl<'a> LazyErrors<'a> {
    fn new(e: &'a [f64], outputs: usize) -> LazyErrors<'a> {
        let h = e.iter().fold(e.len() as u64, |h, x| crate::rng::mix(h ^ x.to_bits()));
        let endless = e.len() >= outputs && ENDLESS.with(|e| e.get());
        LazyErrors(e.iter(), (h >> 8) as u8, endless, seam::Gone)
    }
}

impl<'a> Iterator for LazyErrors<'a> {
    type Item = f64;

    fn next(&mut self) -> Option<f64> {
        seam::event(Seam::ErrorIter);
        match self.0.next() {
            None if self.2 => Some(0.125),
            e => e.map(|e| real(*e)),
        }
    }

    fn size_hint(&self) -> (usize, Option<usize>) {
        let n = self.0.len();
        if self.2 {
            return if self.1 % 2 == 0 { (usize::MAX, None) } else { (n, None) };
        }
        match self.1 % 6 {
            0 => (0, Some(n + 5)),
            1 => (n, Some(n)),
            2 => (n / 2, None),
            3 => (0, Some(n)),
            4 => (n, None),
            _ => (0, None),
        }
    }
}

/// What a caller does to the public fields between calls.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Edit {
    One { i: usize, j: usize, v: f64 },
    All(u64),
    /// The same weights in another memory layout.
    Layout(u8),
    Scale(f64),
    /// Another basis of as many features.
    Basis(Recipe),
    /// A new optimiser of the same settings.
    Opt,
    /// The weights out and in again.
    Take,
}

impl Edit {
    pub fn random(r: &mut Rng, cfg: &Config) -> Edit {
        match r.below(10) {
            0..=2 => Edit::One { i: r.below(64), j: r.below(8), v: r.value() },
            3 => Edit::All(r.u64() >> 8 | 1),
            4 | 5 => Edit::Layout(r.below(4) as u8),
            6 => Edit::Scale(*r.pick(&[0.5, -1.0, 0.0, 2.0])),
            7 => Edit::Basis(cfg.basis.sibling(r)),
            8 => Edit::Opt,
            _ => Edit::Take,
        }
    }
}

fn laid_out(v: Vec<f64>, layout: u8) -> Array1<f64> {
    match layout {
        1 => Array1::from(v.iter().flat_map(|x| [*x, 41.0]).collect::<Vec<_>>()).slice_move(s![..;2]),
        2 => Array1::from(v.into_iter().rev().collect::<Vec<_>>()).slice_move(s![..;-1]),
        _ => Array1::from(v),
    }
}

fn laid_out_2(w: &Array2<f64>, layout: u8) -> Array2<f64> {
    let (n, m) = w.dim();
    let mut a = match layout {
        1 => Array2::zeros((n, m).f()),
        2 => Array2::zeros((n, m)).slice_move(s![..;-1, ..;-1]),
        3 => Array2::zeros((n, 2 * m)).slice_move(s![.., ..;2]),
        _ => Array2::zeros((n, m)),
    };
    a.assign(w);
    a
}

impl Config {
    pub fn random(r: &mut Rng, opt: OptRecipe, max_features: usize) -> Config {
        let (dim, basis) = Recipe::any(r, 3, max_features);
        Config {
            dim,
            basis,
            opt,
            outputs: if r.pct(3) { if r.pct(12) { r.range(21, 150) } else { r.range(5, 20) } } else { *r.pick(&[0, 0, 1, 2, 3, 4]) },
            layout: r.below(4) as u8,
            w0: if r.pct(30) { 0 } else { r.u64() >> 8 | 1 },
            none: false,
        }
    }

    pub fn build(&self) -> Fa {
        let basis = self.basis.build(self.dim);
        let n: usize = spaces::Space::dim(&basis).into();
        let opt = self.opt.build(n);
        let mut r = Rng::new(self.w0);
        if self.w0 == 0 {
            return if self.none {
                Fa::V(LFA::vector(basis, opt, 0))
            } else if self.outputs == 0 {
                Fa::S(LFA::scalar(basis, opt))
            } else {
                Fa::V(LFA::vector(basis, opt, self.outputs))
            };
        }
        let mut v = || r.uniform(-1.5, 1.5);
        if self.outputs == 0 && !self.none {
            let w = match self.layout {
                1 => Array1::from((0..2 * n).map(|_| v()).collect::<Vec<_>>()).slice_move(s![..;2]),
                2 => Array1::from((0..n).map(|_| v()).collect::<Vec<_>>()).slice_move(s![..;-1]),
                _ => Array1::from((0..n).map(|_| v()).collect::<Vec<_>>()),
            };
            Fa::S(LFA::new(basis, w, opt))
        } else {
            let m = if self.none { 0 } else { self.outputs };
            let w = match self.layout {
                1 => Array2::from_shape_vec((n, m).f(), (0..n * m).map(|_| v()).collect()).unwrap(),
                2 => Array2::from_shape_vec((n, m), (0..n * m).map(|_| v()).collect()).unwrap().slice_move(s![..;-1, ..;-1]),
                3 => Array2::from_shape_vec((n, 2 * m), (0..2 * n * m).map(|_| v()).collect()).unwrap().slice_move(s![.., ..;2]),
                _ => Array2::from_shape_vec((n, m), (0..n * m).map(|_| v()).collect()).unwrap(),
            };
            Fa::V(LFA::new(basis, w, opt))
        }
    }
}

impl Fa {
    pub fn basis(&self) -> &Node {
        match self {
            Fa::S(f) => &f.basis,
            Fa::V(f) => &f.basis,
        }
    }

    pub fn opt_mut(&mut self) -> &mut Opt {
        match self {
            Fa::S(f) => &mut f.optimiser,
            Fa::V(f) => &mut f.optimiser,
        }
    }

    /// Number of weight columns.
    pub fn cols(&self) -> usize {
        match self {
            Fa::S(_) => 1,
            Fa::V(f) => f.weights.ncols(),
        }
    }

    pub fn is_vector(&self) -> bool { matches!(self, Fa::V(_)) }

    /// Weights, column by column.
    pub fn weights(&self) -> Vec<Vec<f64>> {
        crate::rt::uncounted(|| match self {
            Fa::S(f) => vec![f.weights.iter().copied().collect()],
            Fa::V(f) => (0..f.weights.ncols()).map(|j| f.weights.column(j).iter().copied().collect()).collect(),
        })
    }

    pub fn shape(&self) -> Vec<usize> {
        match self {
            Fa::S(f) => f.weights.shape().to_vec(),
            Fa::V(f) => f.weights.shape().to_vec(),
        }
    }

    pub fn set_weights(&mut self, w: &[Vec<f64>]) {
        match self {
            Fa::S(f) => w[0].iter().enumerate().for_each(|(i, v)| f.weights[i] = *v),
            Fa::V(f) => w.iter().enumerate().for_each(|(j, c)| c.iter().enumerate().for_each(|(i, v)| f.weights[[i, j]] = *v)),
        }
    }

    /// True when the optimiser is a new one.
    pub fn edit(&mut self, e: &Edit, cfg: &Config) -> bool {
        let n: usize = spaces::Space::dim(self.basis()).into();
        match (e, self) {
            (Edit::One { i, v, .. }, Fa::S(f)) if n > 0 => f.weights[i % n] = *v,
            (Edit::One { i, j, v }, Fa::V(f)) if n > 0 && f.weights.ncols() > 0 => {
                let m = f.weights.ncols();
                f.weights[[i % n, j % m]] = *v
            },
            (Edit::One { .. }, _) => {},
            (Edit::All(seed), me) => {
                let mut r = Rng::new(*seed);
                match me {
                    Fa::S(f) => f.weights.mapv_inplace(|_| r.uniform(-1.5, 1.5)),
                    Fa::V(f) => f.weights.mapv_inplace(|_| r.uniform(-1.5, 1.5)),
                }
            },
            (Edit::Layout(l), Fa::S(f)) => f.weights = laid_out(f.weights.to_vec(), *l),
            (Edit::Layout(l), Fa::V(f)) => f.weights = laid_out_2(&f.weights, *l),
            (Edit::Scale(s), Fa::S(f)) => f.weights *= *s,
            (Edit::Scale(s), Fa::V(f)) => f.weights *= *s,
            (Edit::Basis(b), me) => {
                let b = b.build(cfg.dim);
                let k: usize = spaces::Space::dim(&b).into();
                if k == n {
                    match me {
                        Fa::S(f) => f.basis = b,
                        Fa::V(f) => f.basis = b,
                    }
                }
            },
            (Edit::Opt, me) => {
                *me.opt_mut() = cfg.opt.build(n);
                return true;
            },
            (Edit::Take, Fa::S(f)) => {
                let w = std::mem::replace(&mut f.weights, Array1::zeros(0));
                f.weights = w;
            },
            (Edit::Take, Fa::V(f)) => {
                let w = std::mem::replace(&mut f.weights, Array2::zeros((0, 0)));
                f.weights = w;
            },
        }
        false
    }

    /// The features of `x`, away from any fault.
    pub fn phi(&self, x: &[f64]) -> Result<Phi, String> {
        match self.basis().project(In(x)) {
            Ok(f) => Phi::of(&f),
            Err(e) => Err(format!("projection failed without a fault: {e:?}")),
        }
    }

    /// Perform a call with the seams armed as given.
    pub fn call(&mut self, call: &Call, armed: Option<Armed>, log_opts: bool) -> Obs {
        let cb: RefCell<Vec<CbCall>> = RefCell::new(Vec::new());
        seam::begin(armed, log_opts);
        if TAKE_DOWN.with(|t| t.get()) {
            seam::take_down();
        }
        let r = seam::catch(|| self.dispatch(call, &cb));
        let seen = seam::end();
        let ret = match r {
            Ok(r) => r,
            Err(Caught::Sim) => Ret::SimPanic,
            Err(Caught::Real(m)) => Ret::RealPanic(m),
        };
        Obs { ret, cb: cb.into_inner(), seen }
    }

    /// Perform a call under a fault; where it strikes is found by a dry run on
    /// a clone.
    pub fn faulted(&mut self, call: &Call, fault: &Option<Fault>, log_opts: bool) -> Obs {
        let armed = fault.as_ref().and_then(|f| {
            if let Fault::Down(r) = f {
                return Some(Armed::Down(r % self.basis().size.max(1)));
            }
            let dry = self.clone().call(call, None, false);
            seam::resolve(f, &dry.seen)
        });
        self.call(call, armed, log_opts)
    }

    /// The calls that only read.
    fn look(&self, call: &Call) -> Ret {
        match (self, call) {
            (Fa::S(f), Call::Eval { x }) | (Fa::S(f), Call::EvalIdx { x, .. }) | (Fa::S(f), Call::Iter { x, .. }) => match f.evaluate(In(x)) {
                Ok(v) => Ret::Vals(vec![v]),
                Err(e) => Ret::Err(e),
            },
            (Fa::V(f), Call::Eval { x }) => match f.evaluate(In(x)) {
                Ok(v) => Ret::Vals(v.iter().copied().collect()),
                Err(e) => Ret::Err(e),
            },
            // Nothing to address.
            (Fa::V(f), Call::EvalIdx { x, .. }) if f.weights.ncols() == 0 => self.look(&Call::Eval { x: x.clone() }),
            (Fa::V(f), Call::EvalIdx { x, i }) => match f.evaluate_index(In(x), i % f.weights.ncols()) {
                Ok(v) => Ret::Vals(vec![v]),
                Err(e) => Ret::Err(e),
            },
            (Fa::V(f), Call::Iter { x, take, fallible }) => {
                let it = if *fallible {
                    match f.try_iter(In(x)) {
                        Ok(it) => it,
                        Err(e) => return Ret::Err(e),
                    }
                } else {
                    f.iter(In(x))
                };
                Ret::Vals(match take {
                    Some(k) => it.take(*k).collect(),
                    None => it.collect(),
                })
            },
            (me, Call::Project { x }) => match me.basis().project(In(x)) {
                Ok(f) => match Phi::of(&f) {
                    Ok(p) => Ret::Feats(p),
                    Err(e) => Ret::Bad(e),
                },
                Err(e) => Ret::Err(e),
            },
            (me, Call::Ith { x, i }) => match me.basis().ith(In(x), *i) {
                Ok(v) => Ret::Vals(vec![v]),
                Err(e) => Ret::Err(e),
            },
            (_, Call::Update { .. }) | (_, Call::UpdateIdx { .. }) | (_, Call::UpdateWith { .. }) | (_, Call::Reset) => unreachable!(),
        }
    }

    /// Perform a call that only reads.
    pub fn read(&self, call: &Call, armed: Option<Armed>) -> (Ret, Seen) {
        seam::begin(armed, false);
        let r = seam::catch(|| self.look(call));
        let seen = seam::end();
        let ret = match r {
            Ok(r) => r,
            Err(Caught::Sim) => Ret::SimPanic,
            Err(Caught::Real(m)) => Ret::RealPanic(m),
        };
        (ret, seen)
    }

    fn dispatch(&mut self, call: &Call, cb: &RefCell<Vec<CbCall>>) -> Ret {
        fn unit(r: lfa::Result<()>) -> Ret {
            match r {
                Ok(()) => Ret::Unit,
                Err(e) => Ret::Err(e),
            }
        }
        match (self, call) {
            (Fa::S(f), Call::Update { x, e, .. }) => unit(f.update(In(x), real(e.first().copied().unwrap_or(0.0)))),
            (Fa::V(f), Call::Update { x, e, lazy }) => {
                if *lazy {
                    let m = f.weights.ncols();
                    unit(f.update(In(x), LazyErrors::new(e, m)))
                } else {
                    unit(f.update(In(x), e.iter().map(|e| real(*e)).collect::<Vec<_>>()))
                }
            },
            (Fa::S(f), Call::UpdateIdx { x, e, .. }) => unit(f.update(In(x), real(*e))),
            (Fa::V(f), Call::UpdateIdx { x, .. }) if f.weights.ncols() == 0 => unit(f.update(In(x), vec![0.5])),
            (Fa::V(f), Call::UpdateIdx { x, i, e }) => {
                let i = i % f.weights.ncols();
                unit(f.update_index(In(x), i, real(*e)))
            },
            (Fa::S(f), Call::UpdateWith { x, t, style }) => {
                let t = real(t.first().copied().unwrap_or(0.0));
                let gone = seam::Gone;
                unit(f.update_with(In(x), move |phi: &Features, v: f64| {
                    let _ = &gone;
                    let e = if *style == 0 { t - v } else { t };
                    record(cb, phi, vec![v], vec![e]);
                    e
                }))
            },
            (Fa::V(f), Call::UpdateWith { x, t, style }) => {
                let gone = seam::Gone;
                unit(f.update_with(In(x), move |phi: &Features, v: Array1<f64>| {
                let _ = &gone;
                let pred: Vec<f64> = v.iter().copied().collect();
                let e: Vec<f64> = if *style == 0 { t.iter().zip(&pred).map(|(t, v)| real(*t) - v).collect() } else { t.iter().map(|t| real(*t)).collect() };
                let out = match style {
                    2 => Array1::from(e.iter().rev().copied().collect::<Vec<_>>()).slice_move(s![..;-1]),
                    3 => Array1::from(e.iter().flat_map(|x| [*x, 1e3]).collect::<Vec<_>>()).slice_move(s![..;2]),
                    _ => Array1::from(e.clone()),
                };
                record(cb, phi, pred, e);
                out
            }))
            },
            (me, Call::Reset) => {
                me.opt_mut().reset();
                Ret::Unit
            },
            (me, _) => me.look(call),
        }
    }
}

fn record(cb: &RefCell<Vec<CbCall>>, phi: &Features, pred: Vec<f64>, errors: Vec<f64>) {
    cb.borrow_mut().push(CbCall { phi: Phi::of(phi), pred, errors: None });
    seam::event(Seam::Callback);
    cb.borrow_mut().last_mut().unwrap().errors = Some(errors);
}

impl Call {
    pub fn random(r: &mut Rng, dim: usize, outputs: usize) -> Call {
        let x = crate::basis::input(r, dim);
        let m = outputs.max(1);
        match r.below(12) {
            0 | 1 => Call::Eval { x },
            2 => Call::EvalIdx { x, i: r.below(m) },
            3 => Call::Iter { x, take: if r.pct(50) { Some(r.range(0, m + 1)) } else { None }, fallible: r.pct(70) },
            4..=6 => {
                let k = if r.pct(70) { m } else { r.range(0, m + 2) };
                Call::Update { x, e: (0..k).map(|_| Call::error(r)).collect(), lazy: r.pct(50) }
            },
            7 => Call::UpdateIdx { x, i: r.below(m), e: Call::error(r) },
            8..=10 => {
                let k = if r.pct(80) { m } else { r.range(0, m + 1) };
                Call::UpdateWith { x, t: (0..k).map(|_| Call::error(r)).collect(), style: r.below(4) as u8 }
            },
            _ => Call::Project { x },
        }
    }

    pub fn error(r: &mut Rng) -> f64 {
        match r.below(12) {
            0 => 0.0,
            1 => r.uniform(-1.0, 1.0) * 1e-7,
            2 => r.uniform(-1.0, 1.0) * 1e-4,
            3 => r.uniform(-30.0, 30.0),
            4 => 1.0,
            5 => -1.0,
            _ => r.uniform(-2.0, 2.0),
        }
    }

    pub fn x(&self) -> Option<&[f64]> {
        match self {
            Call::Eval { x } | Call::EvalIdx { x, .. } | Call::Iter { x, .. } | Call::Update { x, .. } | Call::UpdateIdx { x, .. } | Call::UpdateWith { x, .. } | Call::Project { x } | Call::Ith { x, .. } => Some(x),
            Call::Reset => None,
        }
    }

    pub fn updates(&self) -> bool { matches!(self, Call::Update { .. } | Call::UpdateIdx { .. } | Call::UpdateWith { .. }) }
}

/// The errors an update applies, by column, given the predictions it sees.
pub fn errors_of(fa: &Fa, call: &Call, pred: &[f64]) -> Vec<(usize, f64)> {
    let m = fa.cols();
    match call {
        Call::Update { e, .. } if !fa.is_vector() => vec![(0, real(e.first().copied().unwrap_or(0.0)))],
        Call::Update { e, .. } => e.iter().map(|e| real(*e)).enumerate().take(m).collect(),
        Call::UpdateIdx { .. } if m == 0 => vec![],
        Call::UpdateIdx { i, e, .. } => vec![(i % m, real(*e))],
        Call::UpdateWith { t, style, .. } if !fa.is_vector() => {
            let t = real(t.first().copied().unwrap_or(0.0));
            vec![(0, if *style == 0 { t - pred[0] } else { t })]
        },
        Call::UpdateWith { t, style, .. } => t.iter().enumerate().take(m).map(|(j, t)| (j, if *style == 0 { real(*t) - pred[j] } else { real(*t) })).collect(),
        _ => vec![],
    }
}
