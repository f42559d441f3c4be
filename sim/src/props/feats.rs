//! C05, C06: histories of feature vectors against plain vectors.
use super::*;
use crate::disk::Codec;
use crate::ensure;
use crate::harness::{decode, encode, violation};
use crate::phi::{near, same_bits, FeatRecipe};
use crate::props::huge::HPlan;
use crate::seam::{self, Caught, Seam};
use lfa::{Features, SparseActivations};
use ndarray::{s, Array1, Array2, ShapeBuilder};
use serde_json::Value;
use std::collections::HashMap;

///////////////////////////////////////////////////////////////////////////////
// Functions of the caller
///////////////////////////////////////////////////////////////////////////////
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum F1 {
    Id,
    Scale(f64),
    Add(f64),
    Const(f64),
    Square,
    Abs,
    Threshold(f64),
    Clamp,
    Sin,
    /// Sends nothing to zero, zero to infinity.
    Recip,
    /// Has no value below zero.
    Sqrt,
    Ln,
}

impl F1 {
    pub fn at(&self, x: f64) -> f64 {
        match self {
            F1::Id => x,
            F1::Scale(c) => c * x,
            F1::Add(c) => x + c,
            F1::Const(c) => *c,
            F1::Square => x * x,
            F1::Abs => x.abs(),
            F1::Threshold(t) => (x > *t) as u8 as f64,
            F1::Clamp => x.max(-1.0).min(1.0),
            F1::Sin => x.sin(),
            F1::Recip => 1.0 / x,
            F1::Sqrt => x.sqrt(),
            F1::Ln => x.ln(),
        }
    }

    pub fn random(r: &mut Rng) -> F1 {
        match r.below(26) {
            // Rare: what has no value stays so.
            24 => F1::Sqrt,
            25 => F1::Ln,
            n => F1::plain(r, n / 2),
        }
    }

    fn plain(r: &mut Rng, which: usize) -> F1 {
        match which {
            0 => F1::Id,
            1 => F1::Scale(r.value()),
            2 | 3 => F1::Add(offset(r)),
            4 => F1::Const(offset(r)),
            5 => F1::Square,
            6 => F1::Abs,
            7 => F1::Threshold(*r.pick(&[-0.5, 0.0, 0.5])),
            8 => F1::Clamp,
            9 => F1::Sin,
            10 => F1::Recip,
            _ => F1::Scale(r.nonzero()),
        }
    }
}

/// What zero is sent to: well away from 1e-5 on either side.
fn offset(r: &mut Rng) -> f64 { *r.pick(&[0.0, 1.0, -1.0, 0.5, 2.0, 1e-4, -1e-4, 3e-5, -2e-3, 1e-6, -5e-6, 1e-8]) }

#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum F2 {
    Add,
    Sub,
    Mul,
    Max,
    Min,
    Left,
    Right,
    AddC(f64),
    Dist,
    Hypot,
    Less,
    Lin(f64, f64),
    /// Of nothing by nothing has no value.
    Div,
    Pow,
}

impl F2 {
    pub fn at(&self, x: f64, y: f64) -> f64 {
        match self {
            F2::Add => x + y,
            F2::Sub => x - y,
            F2::Mul => x * y,
            F2::Max => x.max(y),
            F2::Min => x.min(y),
            F2::Left => x,
            F2::Right => y,
            F2::AddC(c) => x + y + c,
            F2::Dist => (x - y).abs(),
            F2::Hypot => (x * x + y * y).sqrt(),
            F2::Less => (x < y) as u8 as f64,
            F2::Lin(a, b) => a * x + b * y,
            F2::Div => x / y,
            F2::Pow => x.powf(y),
        }
    }

    pub fn random(r: &mut Rng) -> F2 {
        match r.below(30) {
            28 => F2::Div,
            29 => F2::Pow,
            n => F2::plain(r, n / 2),
        }
    }

    fn plain(r: &mut Rng, which: usize) -> F2 {
        match which {
            0 => F2::Add,
            1 => F2::Sub,
            2 => F2::Mul,
            3 => F2::Max,
            4 => F2::Min,
            5 => F2::Left,
            6 => F2::Right,
            7 | 8 => F2::AddC(offset(r)),
            9 => F2::Dist,
            10 => F2::Hypot,
            11 => F2::Less,
            _ => F2::Lin(r.value(), r.value()),
        }
    }
}

///////////////////////////////////////////////////////////////////////////////
// Plans
///////////////////////////////////////////////////////////////////////////////
#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
pub enum Mode {
    Ref,
    Into,
    Inplace,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum FOp {
    New { a: usize, f: FeatRecipe, how: u8 },
    Stack { a: usize, b: usize },
    Remove { a: usize, i: usize },
    Map { a: usize, f: F1, mode: Mode, fault: Option<u32> },
    Merge { a: usize, b: usize, f: F2, mode: Mode, fault: Option<u32> },
    Either { a: usize, how: u8, fault: Option<u32> },
    Copy { a: usize, b: usize },
    /// Read everything there is to read.
    Read { a: usize },
    /// Continue with the dense form.
    Dense { a: usize, how: u8 },
    /// Rebuild under other hash keys, or save and load.
    Rekey { a: usize, codec: Option<Codec> },
    // Reductions and products.
    Sum { a: usize },
    Fold { a: usize, how: u8, fault: Option<u32> },
    Dot { a: usize, w: u8, seed: u64 },
    DotFeatures { a: usize, b: usize },
    Matmul { a: usize, w: u8, cols: usize, seed: u64 },
    AddTo { a: usize, w: u8, alpha: Option<f64>, seed: u64 },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct FPlan {
    pub key: u64,
    pub n: usize,
    pub ops: Vec<FOp>,
    /// Operations on other vectors, in the middle of these.
    #[serde(default, skip_serializing_if = "Vec::is_empty")]
    pub guest: Vec<FPlan>,
}

const REGS: usize = 3;
const MAX_LEN: usize = 700;

/// Now and then, vectors of more entries than 16 bits count.
fn plain(r: &mut Rng, ops: usize, fault_pct: usize, products: bool) -> FPlan {
    if r.below(4000) > 0 {
        let mut p = FPlan::random(r, ops, fault_pct, products);
        if r.pct(10) {
            let n = if r.pct(60) { p.n } else { r.range(1, 20) };
            let k = r.range(2, 8);
            p.guest = vec![FPlan::of_length(r, n, k, 10, products)];
        }
        return p;
    }
    let n = 65_000 + r.below(1200);
    FPlan::of_length(r, n, ops.min(8), fault_pct, products)
}

impl FPlan {
    pub fn random(r: &mut Rng, ops: usize, fault_pct: usize, products: bool) -> FPlan {
        let n = match r.below(400) {
            0 => r.range(400, 2100),
            1..=12 => r.range(60, 300),
            _ => *r.pick(&[1, 2, 3, 5, 8, 13, 40]),
        };
        FPlan::of_length(r, n, ops, fault_pct, products)
    }

    fn of_length(r: &mut Rng, n: usize, ops: usize, fault_pct: usize, products: bool) -> FPlan {
        // Activations and factors of any size.
        let size = if r.pct(10) { *r.pick(&[1e-30, 1e-17, 1e-9, 1e-7, 1e9, 1e18, 1e30]) } else { 1.0 };
        let factor = move |r: &mut Rng| r.value() * if size == 1.0 { 1.0 } else { *r.pick(&[1.0, 1.0 / size, 1e-17, 1e15]) };
        let ops = (0..ops)
            .map(|_| {
                let (a, b) = (r.below(REGS), r.below(REGS));
                let fault = if r.pct(fault_pct) { Some(r.u32()) } else { None };
                let mode = *r.pick(&[Mode::Ref, Mode::Into, Mode::Inplace]);
                if products && r.pct(55) {
                    let w = r.below(6) as u8;
                    return match r.below(8) {
                        0 => FOp::Sum { a },
                        1 => FOp::Fold { a, how: r.below(5) as u8, fault },
                        2 => FOp::Dot { a, w, seed: r.u64() >> 16 },
                        3 | 4 => FOp::DotFeatures { a, b },
                        5 => FOp::Matmul { a, w, cols: if r.pct(2) { r.range(5, 20) } else { r.range(0, 4) }, seed: r.u64() >> 16 },
                        _ => FOp::AddTo { a, w, alpha: if r.pct(60) { Some(factor(r)) } else { None }, seed: r.u64() >> 16 },
                    };
                }
                match r.below(20) {
                    0..=4 => {
                        let n = if r.pct(70) { n } else { r.range(0, 12) };
                        let mut f = FeatRecipe::random(r, n);
                        if f.form != 5 {
                            f.v.iter_mut().for_each(|v| *v *= size);
                        }
                        FOp::New { a, f, how: r.below(4) as u8 }
                    },
                    5 | 6 => FOp::Stack { a, b },
                    7 => FOp::Remove { a, i: r.below(n + 2) },
                    8..=10 => FOp::Map { a, f: F1::random(r), mode, fault },
                    11..=13 => FOp::Merge { a, b, f: F2::random(r), mode, fault },
                    14 => FOp::Either { a, how: r.below(4) as u8, fault },
                    15 => FOp::Copy { a, b },
                    16 | 17 => FOp::Read { a },
                    18 => FOp::Dense { a, how: r.below(4) as u8 },
                    _ => FOp::Rekey { a, codec: if r.pct(60) { Some(Codec::random(r)) } else { None } },
                }
            })
            .collect();
        let mut p = FPlan { key: r.u64(), n, ops, guest: vec![] };
        // A call that is cut short more often than anybody keeps count of.
        if fault_pct > 0 && n <= 100 && r.below(200) == 0 {
            if let Some(i) = p.ops.iter().position(|o| matches!(o, FOp::Map { fault: Some(_), .. } | FOp::Merge { fault: Some(_), .. } | FOp::Fold { fault: Some(_), .. } | FOp::Either { fault: Some(_), .. })) {
                let op = p.ops[i].clone();
                let times = *r.pick(&[40, 140, 300]);
                p.ops.splice(i..i, vec![op; times]);
            }
        }
        p
    }
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Plan {
    Plain(FPlan),
    Huge(HPlan),
}

fn n_ops(r: &mut Rng, thorough: bool) -> usize {
    if thorough { r.range(1, 80) } else { r.range(1, 30) }
}

pub fn c05() -> Prop {
    Prop {
        id: "C05",
        gen: |r, thorough| {
            let (k, pct) = (n_ops(r, thorough), *r.pick(&[0, 10, 30]));
            encode(&if r.pct(3) { Plan::Huge(HPlan::random(r, k, false)) } else { Plan::Plain(plain(r, k, pct, false)) })
        },
        run: run_features,
        quick: 160_000,
        thorough: 3_000_000,
        rule: "one run = one seeded history over three feature vectors (construction in every form and memory layout, stack, remove, map, merge, clone, conversion, indexing, comparison, re-hashing under other keys, saving and loading; lengths to 65,000, sparse ones beyond 2^32), the caller's function panicking part way through some of them; after each operation length and every entry are compared with the same operation on plain vectors; non-trivial = a fault fired: a panic of the caller's function, a re-hash, a reload; distinct = distinct hash of everything observed",
        real: &["lfa::Features (construction, conversion, stack, remove, map*, merge*, indexing, serialisation)"],
        stub: &["the functions mapped and merged, the iterators of activations", "hash keys (getrandom)"],
        assumptions: &["functions of the caller are pure", "two dense vectors of different length are never merged"],
    }
}

pub fn c06() -> Prop {
    Prop {
        id: "C06",
        gen: |r, thorough| {
            let (k, pct) = (n_ops(r, thorough), *r.pick(&[0, 10, 30]));
            encode(&if r.pct(3) { Plan::Huge(HPlan::random(r, k, true)) } else { Plan::Plain(plain(r, k, pct, true)) })
        },
        run: run_features,
        quick: 160_000,
        thorough: 3_000_000,
        rule: "one run = one seeded history over three feature vectors as for C05, interleaved with sums, folds, inner products with weights and with other feature vectors, products with weight matrices, and (scaled) additions to weights in every memory layout, folding functions panicking part way; every result is compared with the same computation on plain vectors; non-trivial = a fault fired: a panic of the caller's function, a re-hash, a reload; distinct = distinct hash of everything observed",
        real: &["lfa::Features (sum, fold, dot, matmul, addto, scaled_addto, and the operations that make the vectors)"],
        stub: &["the functions folded", "hash keys (getrandom)"],
        assumptions: &["weights have as many rows as the vector has entries", "1e-11 relative rounding, relative to the sum of magnitudes"],
    }
}

fn run_features(v: &Value, rep: &mut Rep) -> Res {
    let p: FPlan = match decode(v) {
        Plan::Plain(p) => p,
        Plan::Huge(h) => return h.run(rep),
    };
    let (r, steps) = rt::incarnation(p.key, STEPS, || {
        let mut rep = Rep::default();
        let guest = p.guest.first().cloned();
        let seed = guest.as_ref().map(|g| g.key);
        let visit = move || guest.as_ref().map_or(Ok(()), |g| features_body(g, &mut Rep::default()));
        let res = hosting(seed, visit, &mut rep, |rep| features_body(&p, rep));
        (res, rep)
    });
    let (res, inner) = r;
    rep.absorb(&inner);
    rep.steps += steps;
    res
}

pub fn build(f: &FeatRecipe, how: u8) -> (Features, Vec<f64>) {
    if f.sparse() {
        let pairs: Vec<(usize, f64)> = f.v.iter().copied().enumerate().filter(|(_, a)| *a != 0.0).collect();
        match how {
            1 => {
                let sa = SparseActivations { dim: f.v.len(), activations: pairs.into_iter().collect() };
                return (sa.into(), f.v.clone());
            },
            2 if f.form == 5 => {
                let idx: Vec<usize> = pairs.iter().map(|p| p.0).collect();
                let n = idx.iter().max().map_or(0, |i| i + 1);
                return (idx.into(), f.v[..n].to_vec());
            },
            3 => {
                // Other insertion order, entries seen by the library through an
                // iterator of the caller's.
                let n = f.v.len();
                return (Features::sparse(n, pairs.into_iter().rev().inspect(|_| seam::event(Seam::Function))), f.v.clone());
            },
            _ => {},
        }
    } else if f.form == 0 {
        match how {
            1 => return (f.v.clone().into(), f.v.clone()),
            2 => return (Array1::from(f.v.clone()).into(), f.v.clone()),
            3 => return (f.v.iter().copied().collect(), f.v.clone()),
            _ => {},
        }
    }
    (f.build(), f.v.clone())
}

fn eq(a: f64, b: f64) -> bool { a == b || (a.is_nan() && b.is_nan()) }

/// Whether entry `i` after a function was applied is right: `zero` says that
/// the entry may have been absent from a sparse operand.
fn right(got: f64, want: f64, at_zero: f64, zero: bool) -> bool { eq(got, want) || (zero && got == 0.0 && at_zero.abs() <= 1.0001e-5) }

fn read_all(k: usize, f: &Features, p: &Phi) -> Res {
    let n = p.n();
    ensure!(f.n_features() == n, "n_features", "op {k}: {} instead of {n}", f.n_features());
    ensure!(f.is_dense() == p.dense && f.is_sparse() != p.dense, "variant", "op {k}");
    for i in 0..n {
        ensure!(eq(f[i], p.v[i]), "index", "op {k}: [{i}] gives {:e}, the entry is {:e}", f[i], p.v[i]);
        let g = f.get(i).copied();
        ensure!(eq(g.unwrap_or(0.0), p.v[i]), "get", "op {k}: get({i}) gives {g:?}, the entry is {:e}", p.v[i]);
        let u = unsafe { f.uget(i).copied() };
        ensure!(eq(u.unwrap_or(0.0), p.v[i]), "uget", "op {k}: uget({i}) gives {u:?}, the entry is {:e}", p.v[i]);
    }
    let all = |name: &str, got: Vec<f64>| -> Res {
        ensure!(got.len() == n && got.iter().zip(&p.v).all(|(a, b)| eq(*a, *b)), format!("convert:{name}"), "op {k}: {got:?} instead of {:?}", p.v);
        Ok(())
    };
    let list = |a: Array1<f64>| (0..a.len()).map(|i| a[i]).collect::<Vec<f64>>();
    all("to_dense", list(f.to_dense()))?;
    all("into_dense", list(f.clone().into_dense()))?;
    all("array", list(Array1::from(f.clone())))?;
    all("vec", Vec::<f64>::from(f.clone()))?;
    let nonzero = p.v.iter().filter(|v| v.abs() > 1e-7).count();
    let active = f.n_active();
    ensure!(active >= nonzero && active <= n && (!p.dense || active == nonzero), "n_active", "op {k}: {active} active of {:?}", p.v);
    if p.v.iter().all(|v| !v.is_nan()) {
        ensure!(*f == f.clone(), "equality", "op {k}: a clone of {f:?} is not equal to it");
        let r: &Features = f.as_ref();
        ensure!(std::ptr::eq(r, f), "as_ref", "op {k}");
    }
    Ok(())
}

/// Equality of vectors stored alike; whether a stored zero is one with an
/// absent entry is left open.
fn compare(k: usize, f: &Features, p: &Phi, g: &Features, q: &Phi) -> Res {
    if p.dense != q.dense {
        return Ok(());
    }
    let alike = p.n() == q.n() && p.v.iter().zip(&q.v).all(|(a, b)| a == b);
    if p.on == q.on || !alike {
        ensure!((f == g) == alike, "equality", "op {k}: {f:?} and {g:?} are {}equal", if alike { "un" } else { "" });
    }
    ensure!((f == g) == (g == f) && (f == g) != (f != g), "equality-both-ways", "op {k}: {f:?} and {g:?}");
    Ok(())
}

/// A vector that differs in one place, or has one more feature.
fn nearly(f: &Features, k: usize) -> Features {
    match f {
        Features::Dense(a) => {
            let mut v: Vec<f64> = a.iter().copied().collect();
            let n = v.len();
            if k % 4 == 0 || n == 0 {
                v.push(0.0);
            } else {
                v[k * 7 % n] += [1e-9, 1.0, -1e-3][k % 3];
            }
            Features::Dense(Array1::from(v))
        },
        Features::Sparse(sa) => {
            let mut m: HashMap<usize, f64> = HashMap::new();
            m.extend(sa.activations.iter().map(|(i, v)| (*i, *v)));
            if k % 4 == 0 || sa.dim == 0 {
                return Features::Sparse(SparseActivations { dim: sa.dim + 1, activations: m });
            }
            *m.entry(k * 7 % sa.dim).or_insert(0.0) += [1e-9, 1.0, -1e-3][k % 3];
            Features::Sparse(SparseActivations { dim: sa.dim, activations: m })
        },
    }
}

/// Run `op` with a function that panics at a chosen call: `None` when the panic
/// came out.
fn with_fault<T>(rep: &mut Rep, fault: &Option<u32>, dry: impl FnOnce(), op: impl FnOnce() -> T) -> Result<Option<T>, String> {
    let mut armed = None;
    if let Some(x) = fault {
        seam::begin(None, false);
        let d = seam::catch(dry);
        let seen = seam::end();
        if d.is_ok() {
            armed = seam::resolve(&Fault::Panic(*x), &seen);
        }
    }
    seam::begin(armed, false);
    let r = seam::catch(op);
    let seen = seam::end();
    rep.shape_u(seen.events);
    if let Some(f) = &seen.fired {
        rep.fault(f);
    }
    match r {
        Ok(v) => Ok(Some(v)),
        Err(Caught::Sim) => Ok(None),
        Err(Caught::Real(m)) => Err(m),
    }
}

fn g1(f: &F1) -> impl Fn(f64) -> f64 + '_ {
    move |x| {
        seam::event(Seam::Function);
        f.at(x)
    }
}

fn g2(f: &F2) -> impl Fn(f64, f64) -> f64 + '_ {
    move |x, y| {
        seam::event(Seam::Function);
        f.at(x, y)
    }
}

fn both(a: usize, b: usize) -> String {
    ["dense", "sparse"][a].to_string() + "-" + ["dense", "sparse"][b]
}

fn rekeyed(f: &Features) -> Features {
    match f {
        Features::Sparse(sa) => {
            let mut m: HashMap<usize, f64> = HashMap::new();
            m.extend(sa.activations.iter().map(|(i, v)| (*i, *v)));
            Features::Sparse(SparseActivations { dim: sa.dim, activations: m })
        },
        f => f.clone(),
    }
}

pub fn features_body(p: &FPlan, rep: &mut Rep) -> Res {
    let mut regs: Vec<Features> = (0..REGS).map(|i| Features::dense(vec![0.5 * i as f64; p.n.min(3 + i)])).collect();
    let mut dirty = false;
    for (k, op) in p.ops.iter().enumerate() {
        rep.ops += 1;
        let old: Vec<Phi> = {
            let mut o = Vec::new();
            for f in &regs {
                o.push(Phi::of(f).or_else(|m| violation("malformed", format!("op {k}: {m}")))?);
            }
            o
        };
        // Registers this operation may change.
        let mut touched: Option<usize> = None;
        let name = format!("{op:?}").split(|c: char| !c.is_alphanumeric()).next().unwrap_or("").to_string();
        rep.shape_str(&name);
        match op {
            FOp::New { a, f, how } => {
                let made = seam::catch(|| build(f, *how));
                let (f2, want) = match made {
                    Ok(x) => x,
                    Err(c) => return violation("panic:construct", format!("op {k}: form {} {how}: {c:?}", f.form)),
                };
                let phi = Phi::of(&f2).or_else(|m| violation("malformed", format!("op {k}: {m}")))?;
                ensure!(phi.n() == want.len(), "length:construct", "op {k}: form {} {how}: {} entries instead of {}", f.form, phi.n(), want.len());
                ensure!(phi.v.iter().zip(&want).all(|(x, y)| eq(*x, *y)), "entries:construct", "op {k}: form {} {how}: {:?} instead of {want:?}", f.form, phi.v);
                regs[*a] = f2;
                touched = Some(*a);
            },
            FOp::Stack { a, b } => {
                if old[*a].n() + old[*b].n() <= MAX_LEN.max(3 * p.n) {
                    let g = regs[*b].clone();
                    let f = std::mem::replace(&mut regs[*a], Features::dense(vec![]));
                    let kinds = both(f.is_sparse() as usize, g.is_sparse() as usize);
                    let f = match seam::catch(|| f.stack(g)) {
                        Ok(f) => f,
                        Err(c) => return violation(format!("panic:stack:{kinds}"), format!("op {k}: {c:?}")),
                    };
                    let want: Vec<f64> = old[*a].v.iter().chain(&old[*b].v).copied().collect();
                    let got = Phi::of(&f).or_else(|m| violation("malformed:stack", format!("op {k}: {m}")))?;
                    ensure!(got.v.len() == want.len() && got.v.iter().zip(&want).all(|(x, y)| eq(*x, *y)), format!("stack:{kinds}"), "op {k}: {:?} instead of {want:?}", got.v);
                    regs[*a] = f;
                    touched = Some(*a);
                }
            },
            FOp::Remove { a, i } => {
                let f = &mut regs[*a];
                if let Err(c) = seam::catch(|| f.remove(*i)) {
                    return violation("panic:remove", format!("op {k}: {c:?}"));
                }
                let got = Phi::of(f).or_else(|m| violation("malformed:remove", format!("op {k}: {m}")))?;
                let mut want = old[*a].v.clone();
                if *i < want.len() {
                    want[*i] = 0.0;
                }
                ensure!(got.v.len() == want.len() && got.v.iter().zip(&want).all(|(x, y)| eq(*x, *y)), "remove", "op {k}: {:?} instead of {want:?}", got.v);
                touched = Some(*a);
            },
            FOp::Map { a, f, mode, fault } => {
                let o = &old[*a];
                let before = regs[*a].clone();
                let dry = || drop(before.map(g1(f)));
                let out = match mode {
                    Mode::Ref => with_fault(rep, fault, dry, || before.map(g1(f))),
                    Mode::Into => {
                        let own = rekeyed(&before);
                        with_fault(rep, fault, dry, || own.map_into(g1(f)))
                    },
                    Mode::Inplace => {
                        let r = &mut regs[*a];
                        touched = Some(*a);
                        match with_fault(rep, fault, dry, || r.map_inplace(g1(f))) {
                            Ok(Some(())) => Ok(Some(regs[*a].clone())),
                            Ok(None) => {
                                let got = Phi::of(&regs[*a]).or_else(|m| violation("malformed:map", format!("op {k}: {m}")))?;
                                in_between(k, "map", &got, o, o.n(), |i| f.at(o.v[i]))?;
                                dirty = true;
                                rep.probe("in-place map cut short");
                                Ok(None)
                            },
                            Err(m) => Err(m),
                        }
                    },
                };
                let kind = if o.dense { "dense" } else { "sparse" };
                match out {
                    Err(m) => return violation(format!("panic:map:{kind}:{mode:?}"), format!("op {k}: {m}")),
                    Ok(None) => {
                        let same = Phi::of(&before).or_else(|m| violation("malformed:map", format!("op {k}: {m}")))?;
                        ensure!(same_bits(&same.v, &o.v), "map:source-changed", "op {k}");
                        dirty = true;
                    },
                    Ok(Some(g)) => {
                        let got = Phi::of(&g).or_else(|m| violation("malformed:map", format!("op {k}: {m}")))?;
                        ensure!(got.n() == o.n(), format!("map:length:{kind}:{mode:?}"), "op {k}: {} entries became {}", o.n(), got.n());
                        for i in 0..o.n() {
                            let want = f.at(o.v[i]);
                            ensure!(right(got.v[i], want, f.at(0.0), !o.dense && o.v[i] == 0.0), format!("map:{kind}:{mode:?}"), "op {k}: {f:?} takes entry {i} from {:e} to {:e}, not {want:e}", o.v[i], got.v[i]);
                        }
                        rep.fs(&got.v);
                        regs[*a] = g;
                        touched = Some(*a);
                    },
                }
            },
            FOp::Merge { a, b, f, mode, fault } => {
                let (o, q) = (&old[*a], &old[*b]);
                if o.dense && q.dense && o.n() != q.n() {
                    rep.probe("merge skipped: dense operands of different length");
                } else {
                    let kinds = both(!o.dense as usize, !q.dense as usize);
                    let n = o.n().max(q.n());
                    let get = |p: &Phi, i: usize| p.v.get(i).copied().unwrap_or(0.0);
                    let before = regs[*a].clone();
                    let other = regs[*b].clone();
                    if o.n() != q.n() {
                        rep.probe("operands of different length merged");
                    }
                    let dry = || drop(before.merge(&other, g2(f)));
                    let out = match mode {
                        Mode::Ref => with_fault(rep, fault, dry, || before.merge(&other, g2(f))),
                        Mode::Into => {
                            let own = rekeyed(&before);
                            with_fault(rep, fault, dry, || own.merge_into(&other, g2(f)))
                        },
                        Mode::Inplace => {
                            let r = &mut regs[*a];
                            touched = Some(*a);
                            match with_fault(rep, fault, dry, || r.merge_inplace(&other, g2(f))) {
                                Ok(Some(())) => Ok(Some(regs[*a].clone())),
                                Ok(None) => {
                                    let got = Phi::of(&regs[*a]).or_else(|m| violation("malformed:merge", format!("op {k}: {m}")))?;
                                    in_between(k, "merge", &got, o, n, |i| f.at(get(o, i), get(q, i)))?;
                                    rep.probe("in-place merge cut short");
                                    Ok(None)
                                },
                                Err(m) => Err(m),
                            }
                        },
                    };
                    let other_after = Phi::of(&other).or_else(|m| violation("malformed:merge", format!("op {k}: {m}")))?;
                    ensure!(same_bits(&other_after.v, &q.v), "merge:other-changed", "op {k}");
                    match out {
                        Err(m) => return violation(format!("panic:merge:{kinds}:{mode:?}"), format!("op {k}: lengths {} and {}: {m}", o.n(), q.n())),
                        Ok(None) => {
                            let same = Phi::of(&before).or_else(|m| violation("malformed:merge", format!("op {k}: {m}")))?;
                            ensure!(same_bits(&same.v, &o.v), "merge:source-changed", "op {k}");
                            dirty = true;
                        },
                        Ok(Some(g)) => {
                            let got = Phi::of(&g).or_else(|m| violation("malformed:merge", format!("op {k}: {m}")))?;
                            ensure!(got.n() == n, format!("merge:length:{kinds}:{mode:?}"), "op {k}: {} and {} entries became {}", o.n(), q.n(), got.n());
                            for i in 0..n {
                                let (x, y) = (get(o, i), get(q, i));
                                let want = f.at(x, y);
                                let zero = !(o.dense && q.dense) && x == 0.0 && y == 0.0;
                                ensure!(right(got.v[i], want, f.at(0.0, 0.0), zero), format!("merge:{kinds}:{mode:?}"), "op {k}: {f:?} of {x:e} and {y:e} at {i} gave {:e}, not {want:e}", got.v[i]);
                            }
                            rep.fs(&got.v);
                            regs[*a] = g;
                            touched = Some(*a);
                        },
                    }
                }
            },
            FOp::Either { a, how, fault } => {
                let o = &old[*a];
                let f = regs[*a].clone();
                let on_dense = |d: Array1<f64>| {
                    seam::event(Seam::Function);
                    (0..d.len()).map(|i| d[i]).collect::<Vec<f64>>()
                };
                let on_sparse = |sa: SparseActivations| {
                    seam::event(Seam::Function);
                    (0..sa.dim).map(|i| sa.activations.get(&i).copied().unwrap_or(0.0)).collect::<Vec<f64>>()
                };
                let dry = || seam::event(Seam::Function);
                let r = with_fault(rep, fault, dry, || match how {
                    0 => (f.map_dense(on_dense), o.dense),
                    1 => (f.map_sparse(on_sparse), !o.dense),
                    _ => (Some(f.map_either(on_dense, on_sparse)), true),
                });
                match r {
                    Err(m) => return violation("panic:map-either", format!("op {k}: {m}")),
                    Ok(None) => dirty = true,
                    Ok(Some((got, there))) => {
                        ensure!(got.is_some() == there, "map-either", "op {k}: {how} on a {} vector gave {got:?}", if o.dense { "dense" } else { "sparse" });
                        if let Some(got) = got {
                            ensure!(got.len() == o.n() && got.iter().zip(&o.v).all(|(x, y)| eq(*x, *y)), "map-either", "op {k}: {how} saw {got:?} instead of {:?}", o.v);
                        }
                    },
                }
            },
            FOp::Copy { a, b } => {
                regs[*b] = regs[*a].clone();
                let got = Phi::of(&regs[*b]).or_else(|m| violation("malformed:clone", format!("op {k}: {m}")))?;
                ensure!(same_bits(&got.v, &old[*a].v), "clone", "op {k}");
                touched = Some(*b);
            },
            FOp::Read { a } => {
                let f = &regs[*a];
                let check = || -> Res {
                    read_all(k, f, &old[*a])?;
                    for (g, q) in regs.iter().zip(&old) {
                        compare(k, f, &old[*a], g, q)?;
                    }
                    let g = nearly(f, k);
                    match Phi::of(&g) {
                        Ok(q) => compare(k, f, &old[*a], &g, &q),
                        Err(m) => violation("malformed", m),
                    }
                };
                match seam::catch(check) {
                    Ok(r) => r?,
                    Err(c) => return violation("panic:read", format!("op {k}: {c:?}")),
                }
            },
            FOp::Dense { a, how } => {
                let f = regs[*a].clone();
                let d: Features = match how {
                    0 => f.to_dense().into(),
                    1 => f.into_dense().into(),
                    2 => Vec::<f64>::from(f).into(),
                    _ => Array1::<f64>::from(f).into(),
                };
                let got = Phi::of(&d).or_else(|m| violation("malformed:dense", format!("op {k}: {m}")))?;
                ensure!(got.n() == old[*a].n() && got.v.iter().zip(&old[*a].v).all(|(x, y)| eq(*x, *y)), "convert", "op {k}: {:?} instead of {:?}", got.v, old[*a].v);
                regs[*a] = d;
                touched = Some(*a);
            },
            FOp::Rekey { a, codec } => {
                let finite = old[*a].finite();
                let f = match codec {
                    Some(c) if finite => match c.to_vec(&regs[*a]).and_then(|b| c.from_slice::<Features>(&b)) {
                        Ok(f) => f,
                        Err(e) => return violation(format!("reload:{c:?}"), format!("op {k}: {e}")),
                    },
                    _ => rekeyed(&regs[*a]),
                };
                let got = Phi::of(&f).or_else(|m| violation("malformed:reload", format!("op {k}: {m}")))?;
                ensure!(got.dense == old[*a].dense && got.n() == old[*a].n() && got.v.iter().zip(&old[*a].v).all(|(x, y)| eq(*x, *y)), "reload", "op {k}: {:?} instead of {:?}", got.v, old[*a].v);
                regs[*a] = f;
                touched = Some(*a);
                dirty = true;
                rep.fault(if codec.is_some() && finite { "reload" } else { "rekey" });
            },
            _ => {
                product(k, op, &regs, &old, rep)?;
                if dirty {
                    rep.probe("product after a re-hash or a caught panic");
                }
            },
        }
        // Nothing else moved, and what moved stays within bounds.
        for i in 0..REGS {
            if Some(i) != touched {
                let now = Phi::of(&regs[i]).or_else(|m| violation("malformed", format!("op {k}: {m}")))?;
                ensure!(now.dense == old[i].dense && same_bits(&now.v, &old[i].v), "other-changed", "op {k}: vector {i}");
            } else {
                let now = Phi::of(&regs[i]).or_else(|m| violation("malformed", format!("op {k}: {m}")))?;
                rep.fs(&now.v);
                if !now.finite() || now.max() > 1e60 {
                    regs[i] = Features::dense(vec![1.0; now.n()]);
                    rep.probe("vector restarted: not finite");
                }
            }
        }
    }
    Ok(())
}

/// After an in-place operation was cut short: its length is the old one (or the
/// new one), and every entry is the old or the new one.
fn in_between(k: usize, what: &str, got: &Phi, old: &Phi, n: usize, new: impl Fn(usize) -> f64) -> Res {
    ensure!(got.n() == old.n() || got.n() == n, format!("{what}:cut-short:length"), "op {k}: {} entries after a panic, {} before", got.n(), old.n());
    for i in 0..got.n() {
        let o = old.v.get(i).copied().unwrap_or(0.0);
        let w = new(i);
        ensure!(eq(got.v[i], o) || eq(got.v[i], w), format!("{what}:cut-short:entry"), "op {k}: entry {i} is {:e} after a panic, neither {o:e} nor {w:e}", got.v[i]);
    }
    Ok(())
}

///////////////////////////////////////////////////////////////////////////////
// Products
///////////////////////////////////////////////////////////////////////////////
fn weights(n: usize, seed: u64) -> Vec<f64> {
    let mut r = Rng::new(seed);
    (0..n).map(|_| r.value()).collect()
}

fn vector(w: &[f64], layout: u8) -> Array1<f64> {
    match layout {
        1 => Array1::from(w.iter().flat_map(|x| [*x, 1e9]).collect::<Vec<_>>()).slice_move(s![..;2]),
        2 => Array1::from(w.iter().rev().copied().collect::<Vec<_>>()).slice_move(s![..;-1]),
        3 => {
            let mut v = vec![3e8, 4e8];
            v.extend(w);
            v.push(5e8);
            Array1::from(v).slice_move(s![2..2 + w.len()])
        },
        _ => Array1::from(w.to_vec()),
    }
}

fn matrix(w: &[f64], n: usize, m: usize, layout: u8) -> Array2<f64> {
    let at = |i: usize, j: usize| w[i * m + j];
    match layout {
        1 => Array2::from_shape_fn((n, m).f(), |(i, j)| at(i, j)),
        2 => Array2::from_shape_fn((n, m), |(i, j)| at(n - 1 - i, m - 1 - j)).slice_move(s![..;-1, ..;-1]),
        3 => Array2::from_shape_fn((n, 2 * m), |(i, j)| if j % 2 == 0 { at(i, j / 2) } else { 1e9 }).slice_move(s![.., ..;2]),
        4 => Array2::from_shape_fn((m, n), |(j, i)| at(i, j)).reversed_axes(),
        _ => Array2::from_shape_fn((n, m), |(i, j)| at(i, j)),
    }
}

fn product(k: usize, op: &FOp, regs: &[Features], old: &[Phi], rep: &mut Rep) -> Res {
    let kind = |p: &Phi| if p.dense { "dense" } else { "sparse" };
    let real = |what: &str, c: Caught| -> Res { violation(format!("panic:{what}"), format!("op {k}: {c:?}")) };
    match op {
        FOp::Sum { a } => {
            let p = &old[*a];
            let (want, mag) = (p.v.iter().sum::<f64>(), p.v.iter().map(|v| v.abs()).sum());
            match seam::catch(|| regs[*a].sum()) {
                Ok(got) => {
                    rep.f(got);
                    ensure!(near(got, want, mag, 1e-11), format!("sum:{}", kind(p)), "op {k}: {got:e} instead of {want:e}")
                },
                Err(c) => return real("sum", c),
            }
        },
        FOp::Fold { a, how, fault } => {
            let p = &old[*a];
            let f: fn(f64, &f64) -> f64 = match how {
                0 => |acc, x| acc + x * x,
                1 => |acc, x| acc + x.abs(),
                2 => |acc, x| acc.max(x.abs()),
                3 => |acc, x| acc + (*x != 0.0) as u8 as f64,
                _ => |acc, x| acc + 2.0 * x,
            };
            let init = if *how == 2 { 0.0 } else { 0.25 };
            let want = p.v.iter().fold(init, f);
            let mag: f64 = p.v.iter().map(|x| x * x + 2.0 * x.abs()).sum();
            let g = |acc: f64, x: &f64| {
                seam::event(Seam::Function);
                f(acc, x)
            };
            let fs = &regs[*a];
            match with_fault(rep, fault, || drop(fs.fold(init, g)), || fs.fold(init, g)) {
                Ok(Some(got)) => {
                    rep.f(got);
                    ensure!(near(got, want, mag, 1e-11), format!("fold:{}", kind(p)), "op {k}: fold {how} gives {got:e} instead of {want:e}")
                },
                Ok(None) => {},
                Err(m) => return violation("panic:fold", format!("op {k}: {m}")),
            }
        },
        FOp::Dot { a, w, seed } => {
            let p = &old[*a];
            let v = weights(p.n(), *seed);
            let x = vector(&v, *w);
            let f = &regs[*a];
            let got = seam::catch(|| {
                use ndarray::linalg::Dot;
                match w {
                    4 => Dot::dot(f, &x),
                    5 => Dot::dot(f, &x.view()),
                    _ => f.dot(&x.view()),
                }
            });
            match got {
                Ok(got) => {
                    rep.f(got);
                    ensure!(near(got, p.dot(&v), p.dot_mag(&v), 1e-11), format!("dot:{}", kind(p)), "op {k}: {got:e} instead of {:e}", p.dot(&v))
                },
                Err(c) => return real("dot", c),
            }
        },
        FOp::DotFeatures { a, b } => {
            use ndarray::linalg::Dot;
            let (p, q) = (&old[*a], &old[*b]);
            if p.n() != q.n() {
                rep.probe("inner product skipped: different lengths");
                return Ok(());
            }
            let (f, g) = (&regs[*a], &regs[*b]);
            match seam::catch(|| (Dot::<Features>::dot(f, g), Dot::<Features>::dot(g, f))) {
                Ok((x, y)) => {
                    rep.f(x);
                    let kinds = both(!p.dense as usize, !q.dense as usize);
                    for got in [x, y] {
                        ensure!(near(got, p.dot(&q.v), p.dot_mag(&q.v), 1e-11), format!("dot-features:{kinds}"), "op {k}: {got:e} instead of {:e}", p.dot(&q.v));
                    }
                },
                Err(c) => return real("dot-features", c),
            }
        },
        FOp::Matmul { a, w, cols, seed } => {
            let p = &old[*a];
            let m = *cols;
            let v = weights(p.n() * m, *seed);
            let x = matrix(&v, p.n(), m, *w);
            let f = &regs[*a];
            match seam::catch(|| if *w == 5 { f.matmul(&x) } else { f.matmul(&x.view()) }) {
                Ok(got) => {
                    ensure!(got.len() == m, format!("matmul:{}", kind(p)), "op {k}: {} values for {m} columns", got.len());
                    for j in 0..m {
                        let c: Vec<f64> = (0..p.n()).map(|i| v[i * m + j]).collect();
                        rep.f(got[j]);
                        ensure!(near(got[j], p.dot(&c), p.dot_mag(&c), 1e-11), format!("matmul:{}", kind(p)), "op {k}: column {j}: {:e} instead of {:e}", got[j], p.dot(&c));
                    }
                },
                Err(c) => return real("matmul", c),
            }
        },
        FOp::AddTo { a, w, alpha, seed } => {
            let p = &old[*a];
            let v = weights(p.n(), *seed);
            let f = &regs[*a];
            let mut x = vector(&v, *w);
            // A column of a larger matrix, whose other columns must not move.
            let mut host = Array2::from_shape_fn((p.n(), 3), |(i, j)| if j == 1 { v[i] } else { 7.0 });
            let r = seam::catch(|| match (w, alpha) {
                (4, Some(al)) => f.scaled_addto(*al, &mut host.column_mut(1)),
                (4, None) => f.addto(&mut host.column_mut(1)),
                (5, Some(al)) => f.scaled_addto(*al, &mut x.view_mut()),
                (5, None) => f.addto(&mut x.view_mut()),
                (_, Some(al)) => f.scaled_addto(*al, &mut x),
                (_, None) => f.addto(&mut x),
            });
            if let Err(c) = r {
                return real("addto", c);
            }
            let what = if alpha.is_some() { "scaled_addto" } else { "addto" };
            for i in 0..p.n() {
                let got = if *w == 4 { host[[i, 1]] } else { x[i] };
                rep.f(got);
                if p.v[i] == 0.0 {
                    ensure!(got == v[i], format!("{what}:zero:{}", kind(p)), "op {k}: weight {i} moved from {:e} to {got:e} at a zero activation", v[i]);
                } else {
                    let step = alpha.unwrap_or(1.0) * p.v[i];
                    ensure!(near(got, v[i] + step, v[i].abs() + step.abs(), 1e-11), format!("{what}:{}", kind(p)), "op {k}: weight {i} went from {:e} to {got:e} instead of by {step:e}", v[i]);
                }
                ensure!(host[[i, 0]] == 7.0 && host[[i, 2]] == 7.0, format!("{what}:other-column"), "op {k}");
            }
        },
        _ => {},
    }
    Ok(())
}
