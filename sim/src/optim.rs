//! Optimisers of the library behind a seam, and their published recurrences on
//! plain vectors.
use crate::phi::Phi;
use crate::rng::Rng;
use crate::seam;
use lfa::optim::*;
use lfa::{Features, Result};
use ndarray::ArrayViewMut1;
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Inner {
    Sgd(SGD),
    Isgd(ISGD),
    Mom(SGDMomentum),
    Nag(NAG),
    Adagrad(Adagrad),
    Adam(Adam),
    AdaMax(AdaMax),
    /// A caller's own, e.g. a signed update.
    Own(f64),
}

#[derive(Debug, Serialize, Deserialize)]
pub struct Opt(pub Inner);

impl Clone for Opt {
    fn clone(&self) -> Opt {
        seam::event(seam::Seam::Clone);
        Opt(self.0.clone())
    }
}

impl Optimiser<Features> for Opt {
    fn step(&mut self, w: &mut ArrayViewMut1<f64>, g: &Features) -> Result<()> {
        seam::opt_before(|| w.to_vec(), 1.0)?;
        let r = match &mut self.0 {
            Inner::Sgd(o) => o.step(w, g),
            Inner::Isgd(o) => o.step(w, g),
            Inner::Mom(o) => o.step(w, g),
            Inner::Nag(o) => o.step(w, g),
            Inner::Adagrad(o) => o.step(w, g),
            Inner::Adam(o) => o.step(w, g),
            Inner::AdaMax(o) => o.step(w, g),
            Inner::Own(lr) => own(*lr, w, g, 1.0),
        };
        seam::opt_after();
        r
    }

    fn step_scaled(&mut self, w: &mut ArrayViewMut1<f64>, g: &Features, scale: f64) -> Result<()> {
        seam::opt_before(|| w.to_vec(), scale)?;
        let r = match &mut self.0 {
            Inner::Sgd(o) => o.step_scaled(w, g, scale),
            Inner::Isgd(o) => o.step_scaled(w, g, scale),
            Inner::Mom(o) => o.step_scaled(w, g, scale),
            Inner::Nag(o) => o.step_scaled(w, g, scale),
            Inner::Adagrad(o) => o.step_scaled(w, g, scale),
            Inner::Adam(o) => o.step_scaled(w, g, scale),
            Inner::AdaMax(o) => o.step_scaled(w, g, scale),
            Inner::Own(lr) => own(*lr, w, g, scale),
        };
        seam::opt_after();
        r
    }

    fn reset(&mut self) {
        match &mut self.0 {
            Inner::Sgd(o) => Optimiser::<Features>::reset(o),
            Inner::Isgd(o) => Optimiser::<Features>::reset(o),
            Inner::Mom(o) => o.reset(),
            Inner::Nag(o) => o.reset(),
            Inner::Adagrad(o) => o.reset(),
            Inner::Adam(o) => o.reset(),
            Inner::AdaMax(o) => o.reset(),
            Inner::Own(_) => {},
        }
    }
}

fn own(lr: f64, w: &mut ArrayViewMut1<f64>, g: &Features, scale: f64) -> Result<()> {
    let p = Phi::of(g).map_err(|_| lfa::Error::index_error(1, 1))?;
    for (i, a) in p.v.iter().enumerate() {
        w[i] += lr * scale * a;
    }
    Ok(())
}

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum OptRecipe {
    Sgd(f64),
    Isgd(f64),
    Mom { m: f64, lr: f64 },
    Nag { m: f64, lr: f64 },
    Adagrad(f64),
    Adam { lr: f64, b1: f64, b2: f64 },
    AdaMax { lr: f64, b1: f64, b2: f64 },
    Own(f64),
}

impl OptRecipe {
    pub fn build(&self, n: usize) -> Opt {
        Opt(match *self {
            OptRecipe::Sgd(lr) => Inner::Sgd(SGD(lr)),
            OptRecipe::Isgd(lr) => Inner::Isgd(ISGD(lr)),
            OptRecipe::Mom { m, lr } => Inner::Mom(SGDMomentum::new(n, m, lr)),
            OptRecipe::Nag { m, lr } => Inner::Nag(NAG::new(n, m, lr)),
            OptRecipe::Adagrad(lr) => Inner::Adagrad(Adagrad::new(n, lr)),
            OptRecipe::Adam { lr, b1, b2 } => Inner::Adam(Adam::new(n, lr, b1, b2)),
            OptRecipe::AdaMax { lr, b1, b2 } => Inner::AdaMax(AdaMax::new(n, lr, b1, b2)),
            OptRecipe::Own(lr) => Inner::Own(lr),
        })
    }

    fn lr(r: &mut Rng) -> f64 { if r.pct(3) { *r.pick(&[1.0, 1.0, 0.0, -0.1]) } else { *r.pick(&[0.01, 0.05, 0.1, 0.1, 0.3, 0.5]) } }

    fn beta(r: &mut Rng) -> f64 { *r.pick(&[0.0, 0.5, 0.9, 0.9, 0.99, 0.999]) }

    pub fn stateless(r: &mut Rng) -> OptRecipe {
        match r.below(2) {
            0 => OptRecipe::Sgd(Self::lr(r)),
            _ => OptRecipe::Isgd(*r.pick(&[0.01, 0.1, 0.5, 1.0, 3.0, 20.0])),
        }
    }

    pub fn stateful(r: &mut Rng) -> OptRecipe {
        match r.below(5) {
            0 => OptRecipe::Mom { m: Self::beta(r), lr: Self::lr(r) },
            1 => OptRecipe::Nag { m: Self::beta(r), lr: Self::lr(r) },
            2 => OptRecipe::Adagrad(Self::lr(r)),
            3 => OptRecipe::Adam { lr: Self::lr(r), b1: Self::beta(r), b2: Self::beta(r) },
            _ => OptRecipe::AdaMax { lr: Self::lr(r), b1: Self::beta(r), b2: Self::beta(r) },
        }
    }

    pub fn any(r: &mut Rng) -> OptRecipe {
        match r.below(8) {
            0 | 1 => Self::stateless(r),
            2 => OptRecipe::Own(Self::lr(r)),
            _ => Self::stateful(r),
        }
    }

    /// Rates and decays of any size.
    pub fn wild(self, r: &mut Rng) -> OptRecipe {
        fn rate(r: &mut Rng, lr: f64) -> f64 {
            match r.below(9) {
                5 => -lr,
                6 => 0.0,
                7 => *r.pick(&[1e2, 1e3, 1e5]),
                0 => r.unit(),
                1 => r.uniform(1.0, 8.0),
                2 => r.unit() * 1e-3,
                3 => 1e-9,
                4 => 1.0,
                _ => lr,
            }
        }
        fn decay(r: &mut Rng, b: f64) -> f64 {
            match r.below(6) {
                4 => *r.pick(&[0.0, 0.5, 0.9]),
                0 | 1 => r.unit(),
                2 => 1.0 - r.unit() * 1e-3 - 1e-4,
                3 => r.unit() * 1e-3,
                _ => b,
            }
        }
        match self {
            OptRecipe::Sgd(lr) => OptRecipe::Sgd(rate(r, lr)),
            OptRecipe::Isgd(lr) => OptRecipe::Isgd(if r.pct(15) { *r.pick(&[1e4, 1e6, 1e9]) } else { rate(r, lr).abs() }),
            OptRecipe::Mom { m, lr } => OptRecipe::Mom { m: decay(r, m), lr: rate(r, lr) },
            OptRecipe::Nag { m, lr } => OptRecipe::Nag { m: decay(r, m), lr: rate(r, lr) },
            OptRecipe::Adagrad(lr) => OptRecipe::Adagrad(rate(r, lr)),
            OptRecipe::Adam { lr, b1, b2 } => OptRecipe::Adam { lr: rate(r, lr), b1: decay(r, b1), b2: decay(r, b2) },
            OptRecipe::AdaMax { lr, b1, b2 } => OptRecipe::AdaMax { lr: rate(r, lr), b1: decay(r, b1), b2: decay(r, b2) },
            o => o,
        }
    }

    pub fn is_stateless(&self) -> bool { matches!(self, OptRecipe::Sgd(_) | OptRecipe::Isgd(_) | OptRecipe::Own(_)) }
}

/// The published recurrences, on plain vectors, ascending along g = scale * phi.
#[derive(Clone, Debug)]
pub struct RefOpt {
    pub recipe: OptRecipe,
    a: Vec<f64>,
    b: Vec<f64>,
    /// Sizes of what went into `a`, before any of it cancelled.
    c: Vec<f64>,
    /// The size of the terms behind each entry of the last step.
    pub mag: Vec<f64>,
    t: i32,
}

pub const EPS: f64 = 1e-7;

impl RefOpt {
    pub fn new(recipe: &OptRecipe, n: usize) -> RefOpt { RefOpt { recipe: recipe.clone(), a: vec![0.0; n], b: vec![0.0; n], c: vec![0.0; n], mag: vec![0.0; n], t: 0 } }

    pub fn reset(&mut self) {
        self.a.iter_mut().for_each(|x| *x = 0.0);
        self.b.iter_mut().for_each(|x| *x = 0.0);
        self.c.iter_mut().for_each(|x| *x = 0.0);
        self.t = 0;
    }

    /// What this step adds to the weights.
    pub fn delta(&mut self, phi: &Phi, scale: f64) -> Vec<f64> {
        let n = phi.n();
        let g: Vec<f64> = phi.v.iter().map(|x| x * scale).collect();
        self.t += 1;
        let keep = match self.recipe {
            OptRecipe::Mom { m, .. } | OptRecipe::Nag { m, .. } => m,
            OptRecipe::Adam { b1, .. } | OptRecipe::AdaMax { b1, .. } => b1,
            _ => 0.0,
        };
        let fresh = match self.recipe {
            OptRecipe::Adam { b1, .. } | OptRecipe::AdaMax { b1, .. } => 1.0 - b1,
            _ => 1.0,
        };
        for i in 0..n {
            self.c[i] = keep * self.c[i] + fresh * g[i].abs();
        }
        let delta = self.recur(phi, &g);
        for i in 0..n {
            self.mag[i] = match self.recipe {
                OptRecipe::Mom { lr, .. } => lr * self.c[i],
                OptRecipe::Nag { m, lr } => lr * (g[i].abs() + m * self.c[i]),
                // The same step along the sum of sizes.
                _ if self.a[i] != 0.0 && !matches!(self.recipe, OptRecipe::Adagrad(_)) => delta[i].abs() * (self.c[i] / self.a[i].abs()),
                OptRecipe::Adam { lr, .. } if phi.on[i] => lr * self.c[i] / (self.b[i].sqrt() + EPS),
                OptRecipe::AdaMax { lr, .. } if phi.on[i] => lr * self.c[i] / (self.b[i] + EPS),
                _ => delta[i].abs(),
            }
            .abs();
        }
        delta
    }

    fn recur(&mut self, phi: &Phi, g: &[f64]) -> Vec<f64> {
        let n = phi.n();
        match self.recipe {
            OptRecipe::Sgd(lr) | OptRecipe::Own(lr) => g.iter().map(|g| lr * g).collect(),
            OptRecipe::Isgd(lr) => {
                let k = lr / (1.0 + lr * phi.norm2());
                g.iter().map(|g| k * g).collect()
            },
            OptRecipe::Mom { m, lr } => (0..n)
                .map(|i| {
                    self.a[i] = m * self.a[i] + g[i];
                    lr * self.a[i]
                })
                .collect(),
            OptRecipe::Nag { m, lr } => (0..n)
                .map(|i| {
                    self.a[i] = m * self.a[i] + g[i];
                    lr * (g[i] + m * self.a[i])
                })
                .collect(),
            OptRecipe::Adagrad(lr) => (0..n)
                .map(|i| {
                    self.a[i] += g[i] * g[i];
                    lr * g[i] / (self.a[i].sqrt() + EPS)
                })
                .collect(),
            OptRecipe::Adam { lr, b1, b2 } => (0..n)
                .map(|i| {
                    self.a[i] = b1 * self.a[i] + (1.0 - b1) * g[i];
                    self.b[i] = b2 * self.b[i] + (1.0 - b2) * g[i] * g[i];
                    if !phi.on[i] {
                        return 0.0;
                    }
                    let m = self.a[i] / (1.0 - b1.powi(self.t));
                    let v = self.b[i] / (1.0 - b2.powi(self.t));
                    lr * m / (v.sqrt() + EPS)
                })
                .collect(),
            OptRecipe::AdaMax { lr, b1, b2 } => (0..n)
                .map(|i| {
                    self.a[i] = b1 * self.a[i] + (1.0 - b1) * g[i];
                    self.b[i] = (b2 * self.b[i]).max(g[i].abs());
                    if !phi.on[i] {
                        return 0.0;
                    }
                    let m = self.a[i] / (1.0 - b1.powi(self.t));
                    lr * m / (self.b[i] + EPS)
                })
                .collect(),
        }
    }
}
