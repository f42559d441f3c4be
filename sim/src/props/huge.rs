//! C05, C06: sparse feature vectors far longer than anything that could be
//! written out, under the operations that keep them sparse.
use super::*;
use crate::disk::Codec;
use crate::ensure;
use crate::harness::violation;
use crate::phi::near;
use crate::props::feats::{Mode, F1, F2};
use crate::seam::{self, Seam};
use lfa::{Features, SparseActivations};
use std::collections::{BTreeMap, BTreeSet};

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum HOp {
    New { a: usize, dim: u64, on: Vec<(u64, f64)>, how: u8 },
    Stack { a: usize, b: usize },
    Remove { a: usize, i: u64 },
    Map { a: usize, f: F1, mode: Mode },
    Merge { a: usize, b: usize, f: F2, mode: Mode },
    Copy { a: usize, b: usize },
    Rekey { a: usize, codec: Option<Codec> },
    Sum { a: usize },
    Fold { a: usize },
    Dot { a: usize, b: usize },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct HPlan {
    pub key: u64,
    pub ops: Vec<HOp>,
}

const REGS: usize = 3;

#[derive(Clone, Debug, Default)]
struct Model {
    dim: u64,
    v: BTreeMap<u64, f64>,
}

impl Model {
    fn at(&self, i: u64) -> f64 { self.v.get(&i).copied().unwrap_or(0.0) }
}

impl HPlan {
    pub fn random(r: &mut Rng, ops: usize, products: bool) -> HPlan {
        let dims: Vec<u64> = (0..3)
            .map(|_| {
                let d = 1u64 << r.range(16, 46);
                match r.below(4) {
                    0 => d,
                    1 => d - 1,
                    2 => d + 1,
                    _ => d + r.u64() % d,
                }
            })
            .collect();
        let ops = (0..ops)
            .map(|_| {
                let (a, b) = (r.below(REGS), r.below(REGS));
                let mode = *r.pick(&[Mode::Ref, Mode::Into, Mode::Inplace]);
                if products && r.pct(50) {
                    return match r.below(4) {
                        0 => HOp::Sum { a },
                        1 => HOp::Fold { a },
                        _ => HOp::Dot { a, b },
                    };
                }
                match r.below(12) {
                    0..=3 => {
                        let dim = *r.pick(&dims);
                        let k = r.range(0, 8);
                        HOp::New { a, dim, on: (0..k).map(|_| (index(r, dim), r.value())).collect(), how: r.below(3) as u8 }
                    },
                    4 | 5 => HOp::Stack { a, b },
                    6 => {
                        let d = *r.pick(&dims);
                        HOp::Remove { a, i: index(r, d) }
                    },
                    7 | 8 => HOp::Map { a, f: r.pick(&[F1::Id, F1::Scale(-1.5), F1::Square, F1::Abs, F1::Clamp, F1::Sin]).clone(), mode },
                    9 | 10 => HOp::Merge { a, b, f: r.pick(&[F2::Add, F2::Sub, F2::Mul, F2::Max, F2::Min, F2::Left, F2::Right, F2::Dist, F2::Hypot, F2::Less, F2::Lin(0.5, -2.0)]).clone(), mode },
                    11 if r.pct(50) => HOp::Copy { a, b },
                    _ => HOp::Rekey { a, codec: if r.pct(60) { Some(Codec::random(r)) } else { None } },
                }
            })
            .collect();
        HPlan { key: r.u64(), ops }
    }

    pub fn run(&self, rep: &mut Rep) -> Res {
        let ((res, inner), steps) = rt::incarnation(self.key, STEPS, || {
            let mut rep = Rep::default();
            let res = self.body(&mut rep);
            (res, rep)
        });
        rep.absorb(&inner);
        rep.steps += steps;
        res
    }

    fn body(&self, rep: &mut Rep) -> Res {
        let mut regs: Vec<Features> = (0..REGS).map(|i| Features::unitary(1 << 20, vec![i])).collect();
        let mut model: Vec<Model> = (0..REGS).map(|i| Model { dim: 1 << 20, v: [(i as u64, 1.0)].into_iter().collect() }).collect();
        for (k, op) in self.ops.iter().enumerate() {
            rep.ops += 1;
            let name = format!("{op:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
            rep.shape_str("huge");
            rep.shape_str(&name);
            let r = seam::catch(|| one(k, op, &mut regs, &mut model, rep));
            match r {
                Ok(r) => r?,
                Err(c) => return violation(format!("panic:huge:{name}"), format!("op {k}: {op:?}: {c:?}")),
            }
            for i in 0..REGS {
                same(k, &name, &regs[i], &model[i])?;
                if model[i].dim >> 32 != 0 {
                    rep.probe("vector of more than 2^32 entries");
                }
            }
        }
        for m in &model {
            rep.u(m.dim);
            m.v.iter().for_each(|(i, v)| {
                rep.u(*i);
                rep.f(*v)
            });
        }
        Ok(())
    }
}

fn index(r: &mut Rng, dim: u64) -> u64 {
    match r.below(5) {
        0 => dim - 1,
        1 => (1u64 << r.range(8, 45)).min(dim - 1),
        2 => r.u64() % 8,
        _ => r.u64() % dim,
    }
}

fn one(k: usize, op: &HOp, regs: &mut [Features], model: &mut [Model], rep: &mut Rep) -> Res {
    match op {
        HOp::New { a, dim, on, how } => {
            let n = *dim as usize;
            let pairs: Vec<(usize, f64)> = on.iter().map(|(i, v)| ((*i % dim) as usize, *v)).collect();
            regs[*a] = match how {
                0 => Features::sparse(n, pairs.iter().copied()),
                1 => SparseActivations { dim: n, activations: pairs.iter().copied().collect() }.into(),
                _ => Features::unitary(n, pairs.iter().map(|p| p.0)),
            };
            model[*a] = Model { dim: *dim, v: pairs.iter().map(|(i, v)| (*i as u64, if *how == 2 { 1.0 } else { *v })).collect() };
        },
        HOp::Stack { a, b } => {
            if (model[*a].dim + model[*b].dim) >> 52 == 0 {
                let g = regs[*b].clone();
                let f = std::mem::replace(&mut regs[*a], Features::dense(vec![]));
                regs[*a] = f.stack(g);
                let other = model[*b].clone();
                let d = model[*a].dim;
                other.v.iter().for_each(|(i, v)| {
                    model[*a].v.insert(d + i, *v);
                });
                model[*a].dim += other.dim;
            }
        },
        HOp::Remove { a, i } => {
            regs[*a].remove(*i as usize);
            model[*a].v.remove(i);
        },
        HOp::Map { a, f, mode } => {
            let g = |x: f64| {
                seam::event(Seam::Function);
                f.at(x)
            };
            match mode {
                Mode::Ref => regs[*a] = regs[*a].map(g),
                Mode::Into => regs[*a] = regs[*a].clone().map_into(g),
                Mode::Inplace => regs[*a].map_inplace(g),
            }
            model[*a].v.values_mut().for_each(|v| *v = f.at(*v));
        },
        HOp::Merge { a, b, f, mode } => {
            let g = |x: f64, y: f64| {
                seam::event(Seam::Function);
                f.at(x, y)
            };
            let other = regs[*b].clone();
            match mode {
                Mode::Ref => regs[*a] = regs[*a].merge(&other, g),
                Mode::Into => regs[*a] = regs[*a].clone().merge_into(&other, g),
                Mode::Inplace => regs[*a].merge_inplace(&other, g),
            }
            let (x, y) = (model[*a].clone(), model[*b].clone());
            let keys: BTreeSet<u64> = x.v.keys().chain(y.v.keys()).copied().collect();
            model[*a] = Model { dim: x.dim.max(y.dim), v: keys.into_iter().map(|i| (i, f.at(x.at(i), y.at(i)))).collect() };
        },
        HOp::Copy { a, b } => {
            regs[*b] = regs[*a].clone();
            model[*b] = model[*a].clone();
        },
        HOp::Rekey { a, codec } => {
            regs[*a] = match (codec, &regs[*a]) {
                (Some(c), f) => match c.to_vec(f).and_then(|b| c.from_slice::<Features>(&b)) {
                    Ok(f) => f,
                    Err(e) => return violation(format!("reload:{c:?}"), format!("op {k}: {e}")),
                },
                (None, Features::Sparse(sa)) => Features::sparse(sa.dim, sa.activations.iter().map(|(i, v)| (*i, *v)).collect::<Vec<_>>()),
                (None, f) => f.clone(),
            };
            rep.fault(if codec.is_some() { "reload" } else { "rekey" });
        },
        HOp::Sum { a } => {
            let (got, want, mag) = (regs[*a].sum(), model[*a].v.values().sum::<f64>(), model[*a].v.values().map(|v| v.abs()).sum::<f64>());
            rep.f(got);
            ensure!(near(got, want, mag, 1e-11), "sum:huge", "op {k}: {got:e} instead of {want:e}");
        },
        HOp::Fold { a } => {
            let got = regs[*a].fold(0.25, |acc, x| acc + x.abs());
            let want = model[*a].v.values().fold(0.25, |acc, x| acc + x.abs());
            rep.f(got);
            ensure!(near(got, want, want, 1e-11), "fold:huge", "op {k}: {got:e} instead of {want:e}");
        },
        HOp::Dot { a, b } => {
            use ndarray::linalg::Dot;
            if model[*a].dim == model[*b].dim {
                let terms: Vec<f64> = model[*a].v.iter().map(|(i, v)| v * model[*b].at(*i)).collect();
                let (want, mag) = (terms.iter().sum::<f64>(), terms.iter().map(|t| t.abs()).sum::<f64>());
                for got in [Dot::<Features>::dot(&regs[*a], &regs[*b]), Dot::<Features>::dot(&regs[*b], &regs[*a])] {
                    rep.f(got);
                    ensure!(near(got, want, mag, 1e-11), "dot-features:huge", "op {k}: {got:e} instead of {want:e}");
                }
            }
        },
    }
    Ok(())
}

fn same(k: usize, what: &str, f: &Features, m: &Model) -> Res {
    ensure!(f.n_features() as u64 == m.dim, format!("huge:length:{what}"), "op {k}: {} entries instead of {}", f.n_features(), m.dim);
    let sa = match f {
        Features::Sparse(sa) => sa,
        Features::Dense(_) => return violation(format!("huge:dense:{what}"), format!("op {k}: written out")),
    };
    ensure!(sa.activations.keys().all(|i| (*i as u64) < m.dim), format!("huge:malformed:{what}"), "op {k}: entry beyond {}: {sa:?}", m.dim);
    ensure!(f.n_active() >= m.v.values().filter(|v| v.abs() > 1e-7).count(), format!("huge:n_active:{what}"), "op {k}: {}", f.n_active());
    let keys: BTreeSet<u64> = m.v.keys().copied().chain(sa.activations.keys().map(|i| *i as u64)).collect();
    for i in keys {
        let got = f.get(i as usize).copied().unwrap_or(0.0);
        let by = f[i as usize];
        ensure!(got == m.at(i) && by == m.at(i), format!("huge:entry:{what}"), "op {k}: entry {i} is {got:e} or {by:e}, not {:e}", m.at(i));
    }
    Ok(())
}
