//! Feature vectors read straight from the public representation, and plain
//! vector algebra to compare against.
use crate::rng::Rng;
use lfa::{Features, SparseActivations};
use ndarray::{s, Array1};
use serde::{Deserialize, Serialize};

#[derive(Clone, Debug, PartialEq)]
pub struct Phi {
    pub dense: bool,
    pub v: Vec<f64>,
    /// Which entries are present (all of them when dense).
    pub on: Vec<bool>,
}

impl Phi {
    /// `None` when the representation itself is broken.
    pub fn of(f: &Features) -> Result<Phi, String> {
        crate::rt::uncounted(|| match f {
            Features::Dense(a) => {
                let n = a.len();
                let v: Vec<f64> = (0..n).map(|i| a[i]).collect();
                Ok(Phi { dense: true, on: vec![true; n], v })
            },
            Features::Sparse(sa) => {
                if sa.dim > 1 << 24 {
                    return Err(format!("sparse vector of {} entries", sa.dim));
                }
                let mut v = vec![0.0; sa.dim];
                let mut on = vec![false; sa.dim];
                for (&i, &a) in sa.activations.iter() {
                    if i >= sa.dim {
                        return Err(format!("sparse entry {} in a vector of length {}", i, sa.dim));
                    }
                    v[i] = a;
                    on[i] = true;
                }
                Ok(Phi { dense: false, v, on })
            },
        })
    }

    pub fn n(&self) -> usize { self.v.len() }

    pub fn dot(&self, w: &[f64]) -> f64 { self.v.iter().zip(w).map(|(a, b)| a * b).sum() }

    /// Sum of magnitudes of the terms of `dot`, for error bounds.
    pub fn dot_mag(&self, w: &[f64]) -> f64 { self.v.iter().zip(w).map(|(a, b)| (a * b).abs()).sum() }

    pub fn norm2(&self) -> f64 { self.v.iter().map(|a| a * a).sum() }

    /// The largest magnitude.
    pub fn max(&self) -> f64 { self.v.iter().fold(0.0, |m, a| a.abs().max(m)) }

    pub fn finite(&self) -> bool { self.v.iter().all(|a| a.is_finite()) }
}

/// Close up to rounding: `mag` is the size of the terms that were added up.
pub fn close(a: f64, b: f64, mag: f64) -> bool { near(a, b, mag, 1e-11) }

pub fn near(a: f64, b: f64, mag: f64, rel: f64) -> bool {
    if a == b || (a.is_nan() && b.is_nan()) {
        return true;
    }
    (a - b).abs() <= rel * (mag.abs() + a.abs().max(b.abs())) + 1e-280
}

pub fn same_bits(a: &[f64], b: &[f64]) -> bool { a.len() == b.len() && a.iter().zip(b).all(|(x, y)| x.to_bits() == y.to_bits()) }

/// How a feature vector is stored.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub struct FeatRecipe {
    /// 0 plain, 1 strided, 2 reversed, 3 offset; 4 sparse, 5 unit sparse,
    /// 6 sparse with stored zeros, 7 dense from an iterator.
    pub form: u8,
    pub v: Vec<f64>,
}

impl FeatRecipe {
    pub fn random(r: &mut Rng, n: usize) -> FeatRecipe {
        let form = r.below(8) as u8;
        let density = *r.pick(&[100, 100, 70, 30, 10, 0]);
        let v = (0..n)
            .map(|_| {
                if form == 5 {
                    if r.pct(density) { 1.0 } else { 0.0 }
                } else if r.pct(density) {
                    r.value()
                } else {
                    0.0
                }
            })
            .collect();
        FeatRecipe { form, v }
    }

    pub fn sparse(&self) -> bool { (4..=6).contains(&self.form) }

    pub fn build(&self) -> Features {
        let v = &self.v;
        let n = v.len();
        match self.form {
            0 => Features::Dense(Array1::from(v.clone())),
            1 => {
                let big = Array1::from(v.iter().flat_map(|x| [*x, 77.0, 78.0]).collect::<Vec<_>>());
                Features::Dense(big.slice_move(s![..;3]))
            },
            2 => {
                let mut w = v.clone();
                w.reverse();
                Features::Dense(Array1::from(w).slice_move(s![..;-1]))
            },
            3 => {
                let mut w = vec![55.0, 56.0];
                w.extend(v);
                w.push(57.0);
                Features::Dense(Array1::from(w).slice_move(s![2..2 + n]))
            },
            4 => Features::Sparse(SparseActivations {
                dim: n,
                activations: v.iter().copied().enumerate().filter(|(_, a)| *a != 0.0).collect(),
            }),
            5 => Features::unitary(n, v.iter().enumerate().filter(|(_, a)| **a == 1.0).map(|(i, _)| i)),
            6 => Features::sparse(n, v.iter().copied().enumerate().filter(|(i, a)| *a != 0.0 || i % 3 == 0)),
            _ => Features::dense(v.iter().copied()),
        }
    }
}
