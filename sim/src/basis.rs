//! Bases of the library, composed into trees with a seam at every level.
use crate::rng::{mix, Rng};
use crate::seam::{self, Seam};
use lfa::basis::kernels::{self, Kernel};
use lfa::basis::*;
use lfa::{Features, Result};
use serde::{Deserialize, Serialize};
use spaces::{Card, Dim, Equipartition, ProductSpace, Space};
use std::borrow::Borrow;
use std::collections::HashSet;
use std::hash::{BuildHasher, Hasher};

/// The input type handed to projections: its iterator is a seam.
#[derive(Clone, Copy, Debug)]
pub struct In<'a>(pub &'a [f64]);

#[derive(Clone, Debug)]
pub struct InIter<'a>(std::slice::Iter<'a, f64>, #[allow(dead_code)] seam::Gone);

impl<'a> Iterator for InIter<'a> {
    type Item = &'a f64;

    fn next(&mut self) -> Option<&'a f64> {
        seam::event(Seam::Input);
        self.0.next()
    }

    fn size_hint(&self) -> (usize, Option<usize>) { self.0.size_hint() }
}

impl<'a> ExactSizeIterator for InIter<'a> {}

impl<'a> IntoIterator for In<'a> {
    type IntoIter = InIter<'a>;
    type Item = &'a f64;

    fn into_iter(self) -> InIter<'a> { InIter(self.0.iter(), seam::Gone) }
}

impl<'a> Borrow<[f64]> for In<'a> {
    fn borrow(&self) -> &[f64] { self.0 }
}

///////////////////////////////////////////////////////////////////////////////
// Caller-supplied components
///////////////////////////////////////////////////////////////////////////////

/// A hasher the simulator seeds; every write is a seam.
#[derive(Clone, Debug, Default, Serialize, Deserialize, PartialEq)]
pub struct SimHash {
    pub key: u64,
}

#[derive(Clone)]
pub struct SimHasher(u64);

impl BuildHasher for SimHash {
    type Hasher = SimHasher;

    fn build_hasher(&self) -> SimHasher { SimHasher(mix(self.key)) }
}

impl Hasher for SimHasher {
    fn finish(&self) -> u64 { crate::rt::uncounted(|| mix(self.0) >> 1) }

    fn write(&mut self, bytes: &[u8]) {
        seam::event(Seam::Hasher);
        crate::rt::uncounted(|| {
            for b in bytes {
                self.0 = mix(self.0 ^ *b as u64);
            }
        })
    }
}

/// A kernel of the library behind a seam, or one of the caller's own.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum SimKernel {
    Exp(kernels::Exponential),
    M32(kernels::Matern32),
    M52(kernels::Matern52),
    Eq(kernels::ExpQuad),
    Cos(kernels::Cosine),
    Rq(kernels::RationalQuadratic),
    Own(f64),
}

impl<'x> Kernel<&'x [f64]> for SimKernel {
    fn kernel(&self, x: &'x [f64], y: &'x [f64]) -> f64 {
        seam::event(Seam::Kernel);
        let v = self.value(x, y);
        match WANDER.with(|w| w.get()) {
            Some(n) => {
                WANDER.with(|w| w.set(Some(n + 1)));
                let h = mix(n ^ 0x6b);
                let v = if h % 48 == 0 { f64::NAN } else { v + ((h >> 8) % 1000) as f64 * 1e-4 };
                seam::kernel_said(x, y, v);
                v
            },
            None => {
                seam::kernel_said(x, y, v);
                v
            },
        }
    }
}

impl SimKernel {
    fn value(&self, x: &[f64], y: &[f64]) -> f64 {
        match self {
            SimKernel::Exp(k) => k.kernel(x, y),
            SimKernel::M32(k) => k.kernel(x, y),
            SimKernel::M52(k) => k.kernel(x, y),
            SimKernel::Eq(k) => k.kernel(x, y),
            SimKernel::Cos(k) => k.kernel(x, y),
            SimKernel::Rq(k) => k.kernel(x, y),
            SimKernel::Own(s) => {
                let d: f64 = x.iter().zip(y).map(|(a, b)| (a - b).abs()).sum();
                1.0 / (1.0 + s * d)
            },
        }
    }
}

/// A mapping of the caller's, as a value: `Closure` takes any `Fn`, so the
/// closure is rebuilt around these parameters for each call.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct Table {
    pub n: usize,
    pub style: u8,
    pub seed: u64,
}

thread_local! {
    /// Mappings of the caller's answer differently each time they are asked.
    static WANDER: std::cell::Cell<Option<u64>> = const { std::cell::Cell::new(None) };
}

pub fn wander(on: bool) { WANDER.with(|w| w.set(if on { Some(1) } else { None })) }

impl Table {
    fn value(&self, x: &[f64], i: usize) -> f64 {
        crate::rt::uncounted(|| {
            let mut h = mix(self.seed ^ (i as u64) << 7);
            let a = Rng::new(h).uniform(-1.0, 1.0);
            let mut s = a;
            for v in x {
                h = mix(h);
                s += Rng::new(h).uniform(-0.7, 0.7) * v;
            }
            s
        })
    }

    fn cell(&self, x: &[f64]) -> u64 {
        crate::rt::uncounted(|| x.iter().fold(mix(self.seed), |h, v| mix(h ^ (v * 3.0).floor() as i64 as u64)))
    }

    pub fn features(&self, x: &[f64]) -> Features {
        use ndarray::{s, Array1};
        if let Some(n) = WANDER.with(|w| w.get()) {
            WANDER.with(|w| w.set(None));
            let seed = mix(self.seed ^ n << 20);
            let f = Table { n: self.n, style: if seed % 4 == 0 { (seed >> 8) as u8 % 8 } else { self.style }, seed }.features(x);
            WANDER.with(|w| w.set(Some(n + 1)));
            return f;
        }
        let n = self.n;
        let dense = |f: &dyn Fn(usize) -> f64| Array1::from((0..n).map(f).collect::<Vec<f64>>());
        let style = if self.style == 7 { [0u8, 3, 5][(self.cell(x) % 3) as usize] } else { self.style };
        match style {
            // Dense: plain, strided, reversed.
            0 => Features::Dense(dense(&|i| self.value(x, i))),
            1 => {
                let big = Array1::from((0..2 * n).map(|i| if i % 2 == 0 { self.value(x, i / 2) } else { 99.0 }).collect::<Vec<_>>());
                Features::Dense(big.slice_move(s![..;2]))
            },
            2 => Features::Dense(dense(&|i| self.value(x, n - 1 - i)).slice_move(s![..;-1])),
            // Sparse: few entries, most entries, unit entries, some stored zeros.
            3 => {
                let c = self.cell(x);
                let mut r = Rng::new(c);
                let k = 1 + r.below((n / 3).max(1));
                Features::sparse(n, (0..k).map(|_| { let i = r.below(n); (i, self.value(x, i)) }).collect::<Vec<_>>())
            },
            4 => {
                let skip = self.cell(x) as usize % n.max(1);
                Features::sparse(n, (0..n).filter(|i| n == 1 || *i != skip).map(|i| (i, self.value(x, i))).collect::<Vec<_>>())
            },
            5 => {
                let c = self.cell(x);
                let mut r = Rng::new(c);
                let k = 1 + r.below((n / 2).max(1));
                Features::unitary(n, (0..k).map(|_| r.below(n)).collect::<Vec<_>>())
            },
            _ => {
                let c = self.cell(x);
                let mut r = Rng::new(c);
                Features::sparse(n, (0..n).filter(|_| true).map(|i| (i, if r.pct(40) && i > 0 { 0.0 } else { 0.1 + self.value(x, i).abs() })).filter(|_| true).collect::<Vec<_>>())
            },
        }
    }
}

/// `Closure` around a `Table`. `F: Fn(T) -> Result<Features>` is implemented by
/// function items and closures only, so what is saved is the table.
#[derive(Clone, Debug, Serialize, Deserialize)]
pub struct ClosureNode(pub Table);

impl Space for ClosureNode {
    type Value = Features;

    fn dim(&self) -> Dim { Closure::new(self.0.n, ()).dim() }

    fn card(&self) -> Card { Closure::new(self.0.n, ()).card() }
}

impl<'a> Basis<In<'a>> for ClosureNode {
    fn project(&self, input: In<'a>) -> Result<Features> {
        Closure::new(self.0.n, |x: In<'a>| {
            seam::node(500_000 + self.0.n as u32)?;
            Ok(self.0.features(x.0))
        })
        .project(input)
    }
}

/// The default `ith` of the trait.
impl<'a> EnumerableBasis<In<'a>> for ClosureNode {}

impl Combinators for ClosureNode {}

///////////////////////////////////////////////////////////////////////////////
// Trees
///////////////////////////////////////////////////////////////////////////////
#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Kind {
    Bias(Bias),
    FixedD(Fixed<Vec<f64>>),
    FixedS(Fixed<(usize, HashSet<usize>)>),
    Fourier(Fourier),
    Poly(Polynomial),
    Cheb(Chebyshev),
    Kernel(KernelBasis<Vec<f64>, SimKernel>),
    KEq(KernelBasis<Vec<f64>, kernels::ExpQuad>),
    KM32(KernelBasis<Vec<f64>, kernels::Matern32>),
    KM52(KernelBasis<Vec<f64>, kernels::Matern52>),
    Tile(TileCoding<SimHash>),
    Grid(UniformGrid),
    Closure(ClosureNode),
    Stack(Box<Stack<Node, Node>>),
    Biased(Box<Stack<Node, Bias>>),
    L0(Box<L0Normaliser<Node>>),
    L1(Box<L1Normaliser<Node>>),
    L2(Box<L2Normaliser<Node>>),
    Linf(Box<LinfNormaliser<Node>>),
}

#[derive(Debug, Serialize, Deserialize)]
pub struct Node {
    pub id: u32,
    /// Nodes in this tree. A projection asks every one of them.
    pub size: u32,
    pub kind: Kind,
}

impl Clone for Node {
    fn clone(&self) -> Node {
        seam::event(Seam::Clone);
        Node { id: self.id, size: self.size, kind: self.kind.clone() }
    }
}

macro_rules! each {
    ($self:ident, $b:ident => $e:expr) => {
        match &$self.kind {
            Kind::Bias($b) => $e,
            Kind::FixedD($b) => $e,
            Kind::FixedS($b) => $e,
            Kind::Fourier($b) => $e,
            Kind::Poly($b) => $e,
            Kind::Cheb($b) => $e,
            Kind::Kernel($b) => $e,
            Kind::KEq($b) => $e,
            Kind::KM32($b) => $e,
            Kind::KM52($b) => $e,
            Kind::Tile($b) => $e,
            Kind::Grid($b) => $e,
            Kind::Closure($b) => $e,
            Kind::Stack($b) => $e,
            Kind::Biased($b) => $e,
            Kind::L0($b) => $e,
            Kind::L1($b) => $e,
            Kind::L2($b) => $e,
            Kind::Linf($b) => $e,
        }
    };
}

impl Space for Node {
    type Value = Features;

    fn dim(&self) -> Dim { each!(self, b => b.dim()) }

    fn card(&self) -> Card { each!(self, b => b.card()) }
}

impl<'a> Basis<In<'a>> for Node {
    fn project(&self, input: In<'a>) -> Result<Features> {
        seam::node(self.id)?;
        let mark = seam::ask(self.id, None, input.0);
        let r = each!(self, b => b.project(input));
        if let (Some(m), Ok(f)) = (mark, &r) {
            seam::answer(m, seam::Answer::All(crate::rt::uncounted(|| f.clone())));
        }
        r
    }
}

impl<'a> EnumerableBasis<In<'a>> for Node {
    fn ith(&self, input: In<'a>, index: usize) -> Result<f64> {
        seam::node(self.id)?;
        let mark = seam::ask(self.id, Some(index), input.0);
        let r = each!(self, b => b.ith(input, index));
        if let (Some(m), Ok(v)) = (mark, &r) {
            seam::answer(m, seam::Answer::One(*v));
        }
        r
    }
}

impl Combinators for Node {}

///////////////////////////////////////////////////////////////////////////////
// Recipes
///////////////////////////////////////////////////////////////////////////////
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Recipe {
    Bias(f64),
    FixedD(Vec<f64>),
    FixedS(usize, Vec<usize>),
    Fourier { order: u8, lo: f64, width: f64, space: bool },
    Poly { order: u8, zeroth: bool },
    Cheb { order: u8, lo: f64, width: f64, zeroth: bool, space: bool },
    Kernel { which: u8, n: usize, seed: u64 },
    KGrid { which: u8, parts: usize },
    Tile { tilings: usize, memory: usize, key: u64 },
    Grid { parts: usize, lo: f64, width: f64 },
    Closure { n: usize, style: u8, seed: u64 },
    Stack(Box<Recipe>, Box<Recipe>),
    Biased(Box<Recipe>),
    Norm(u8, Box<Recipe>),
    /// Limits and partitions that differ from one dimension to the next, and
    /// public fields edited.
    Odd(u64, Box<Recipe>),
}

fn odd_limits(seed: u64, lo: f64, width: f64, dim: usize) -> Vec<(f64, f64)> {
    (0..dim)
        .map(|i| {
            let s = seed >> (4 * i);
            let lo = lo - 0.25 * (s & 3) as f64;
            (lo, lo + width + 0.5 * (s >> 2 & 3) as f64)
        })
        .collect()
}

fn odd_product(seed: u64, parts: usize, lo: f64, width: f64, dim: usize) -> ProductSpace<Equipartition> {
    let limits = odd_limits(seed, lo, width, dim);
    ProductSpace::new(limits.iter().enumerate().map(|(i, l)| Equipartition::new(l.0, l.1, parts.max(1) + (seed >> (32 + 2 * i) & 3) as usize)).collect::<Vec<_>>())
}

fn edit<T: Clone>(seed: u64, v: &mut Vec<T>) {
    let e = (seed >> 56) as usize;
    if v.is_empty() {
        return;
    }
    let i = (e >> 4) % v.len();
    match e % 10 {
        0 => v.reverse(),
        1 if v.len() > 1 => {
            v.remove(i);
        },
        2 => v.push(v[i].clone()),
        3 => v.rotate_left(i),
        4 => v.swap(0, i),
        _ => {},
    }
}

fn product(parts: usize, lo: f64, hi: f64, dim: usize) -> ProductSpace<Equipartition> {
    ProductSpace::new(vec![Equipartition::new(lo, hi, parts.max(1)); dim])
}

impl Recipe {
    pub fn build(&self, dim: usize) -> Node { self.build_id(dim, &mut 0) }

    fn build_id(&self, dim: usize, next: &mut u32) -> Node {
        let id = *next;
        *next += 1;
        let kind = match self {
            Recipe::Bias(b) => Kind::Bias(Bias(*b)),
            Recipe::FixedD(v) => Kind::FixedD(Fixed::<Vec<f64>>::dense(v.iter().copied())),
            Recipe::FixedS(n, v) => Kind::FixedS(Fixed::<(usize, HashSet<usize>)>::sparse(*n, v.iter().map(|i| i % n))),
            Recipe::Fourier { order, lo, width, space } => Kind::Fourier(if *space {
                Fourier::from_space(*order, ProductSpace::new(vec![spaces::real::Interval::bounded(*lo, lo + width); dim]))
            } else {
                Fourier::new(*order, vec![(*lo, lo + width); dim])
            }),
            Recipe::Poly { order, zeroth } => {
                let p = Polynomial::new(dim, *order);
                Kind::Poly(if *zeroth { p.with_zeroth() } else { p })
            },
            Recipe::Cheb { order, lo, width, zeroth, space } => {
                let c = if *space {
                    Chebyshev::from_space(*order, ProductSpace::new(vec![spaces::Interval::bounded(*lo, lo + width); dim]))
                } else {
                    Chebyshev::new(*order, vec![(*lo, lo + width); dim])
                };
                Kind::Cheb(if *zeroth { c.with_zeroth() } else { c })
            },
            Recipe::Kernel { which, n, seed } => {
                let mut r = Rng::new(*seed);
                // Now and then blind to the order of coordinates.
                let even = seed % 5 == 0;
                // Now and then in round numbers, as people choose them.
                let round = seed % 7 == 3;
                let mk = |r: &mut Rng| {
                    let mut ls: Vec<f64> = (0..dim).map(|_| r.uniform(0.3, 2.0)).collect();
                    if even {
                        ls = vec![ls[0]; dim];
                    }
                    let (mut v, mut power) = (r.uniform(0.5, 2.0), r.uniform(0.5, 2.0));
                    if round {
                        ls = vec![*r.pick(&[1.0, 0.5, 2.0]); dim];
                        v = *r.pick(&[1.0, 1.0, 0.5, 2.0, 0.0, -1.0]);
                        power = *r.pick(&[1.0, 1.0, 2.0, 0.5, 0.0]);
                    }
                    match which % 8 {
                        0 => SimKernel::Exp(kernels::Exponential::new(v, ls)),
                        1 => SimKernel::M32(kernels::Matern32::new(v, ls)),
                        2 => SimKernel::M52(kernels::Matern52::new(v, ls)),
                        3 => SimKernel::Eq(kernels::ExpQuad::new(v, ls)),
                        4 => SimKernel::Cos(kernels::Cosine::new(v, ls)),
                        5 => SimKernel::Rq(kernels::RationalQuadratic::new(v, ls, power)),
                        6 => SimKernel::Own(r.uniform(0.5, 2.0)),
                        _ => SimKernel::Eq(kernels::ExpQuad::non_ard(v, ls[0])),
                    }
                };
                let centre = |r: &mut Rng| -> Vec<f64> {
                    if even && r.pct(60) {
                        return vec![*r.pick(&[0.0, -0.5, 0.25]); dim];
                    }
                    (0..dim).map(|_| r.uniform(-1.0, 1.0)).collect()
                };
                if seed % 2 == 0 {
                    let k = mk(&mut r);
                    let cs: Vec<Vec<f64>> = (0..*n).map(|_| centre(&mut r)).collect();
                    Kind::Kernel(KernelBasis::homogeneous(cs, k))
                } else {
                    let mut ps: Vec<Prototype<Vec<f64>, SimKernel>> = Vec::new();
                    for i in 0..*n {
                        let mut p = Prototype { centroid: centre(&mut r), kernel: mk(&mut r) };
                        // Some share a kernel, a centre or both with another.
                        if seed % 4 == 3 && i > 0 && (i == 1 || r.pct(40)) {
                            let other = r.pick(&ps).clone();
                            if i == 1 || r.pct(70) {
                                p.kernel = other.kernel;
                            }
                            if r.pct(30) {
                                p.centroid = other.centroid;
                            }
                        }
                        ps.push(p);
                    }
                    Kind::Kernel(KernelBasis::new(ps))
                }
            },
            Recipe::KGrid { which, parts } => {
                let p = product(*parts, -1.0, 1.0, dim);
                match which % 3 {
                    0 => Kind::KEq(KernelBasis::exp_quad(p)),
                    1 => Kind::KM32(KernelBasis::matern_32(p)),
                    _ => Kind::KM52(KernelBasis::matern_52(p)),
                }
            },
            Recipe::Tile { tilings, memory, key } => Kind::Tile(TileCoding::new(SimHash { key: *key }, (*tilings).max(1), (*memory).max(1))),
            Recipe::Grid { parts, lo, width } => Kind::Grid(UniformGrid::new(product(*parts, *lo, lo + width, dim))),
            Recipe::Closure { n, style, seed } => Kind::Closure(ClosureNode(Table { n: (*n).max(1), style: *style, seed: *seed })),
            Recipe::Stack(a, b) => {
                let a = a.build_id(dim, next);
                let b = b.build_id(dim, next);
                Kind::Stack(Box::new(if id % 2 == 0 { a.stack(b) } else { Stack::new(a, b) }))
            },
            Recipe::Biased(a) => Kind::Biased(Box::new(a.build_id(dim, next).with_bias())),
            Recipe::Norm(which, a) => {
                let a = a.build_id(dim, next);
                match which % 4 {
                    0 => Kind::L0(Box::new(a.normalise_l0())),
                    1 => Kind::L1(Box::new(a.normalise_l1())),
                    2 => Kind::L2(Box::new(a.normalise_l2())),
                    _ => Kind::Linf(Box::new(a.normalise_linf())),
                }
            },
            Recipe::Odd(seed, leaf) => match &**leaf {
                Recipe::Fourier { order, lo, width, .. } => {
                    let mut f = Fourier::new(*order, odd_limits(*seed, *lo, *width, dim));
                    edit(*seed, &mut f.coefficients);
                    if seed >> 48 & 7 == 0 && !f.coefficients.is_empty() {
                        f.coefficients[0][0] *= 0.5;
                    }
                    Kind::Fourier(f)
                },
                Recipe::Poly { order, zeroth } => {
                    let p = Polynomial::new(dim, *order);
                    let mut p = if *zeroth { p.with_zeroth() } else { p };
                    edit(*seed, &mut p.exponents);
                    Kind::Poly(p)
                },
                Recipe::Cheb { order, lo, width, zeroth, .. } => {
                    let c = Chebyshev::new(*order, odd_limits(*seed, *lo, *width, dim));
                    let mut c = if *zeroth { c.with_zeroth() } else { c };
                    edit(*seed, &mut c.polynomials);
                    Kind::Cheb(c)
                },
                Recipe::KGrid { which, parts } => {
                    let p = odd_product(*seed, *parts, -1.0, 2.0, dim);
                    match which % 3 {
                        0 => Kind::KEq(KernelBasis::exp_quad(p)),
                        1 => Kind::KM32(KernelBasis::matern_32(p)),
                        _ => Kind::KM52(KernelBasis::matern_52(p)),
                    }
                },
                Recipe::Grid { parts, lo, width } => Kind::Grid(UniformGrid::new(odd_product(*seed, *parts, *lo, *width, dim))),
                other => {
                    *next = id;
                    return other.build_id(dim, next);
                },
            },
        };
        Node { id, size: *next - id, kind }
    }

    /// A leaf: any basis of the library, or one of the caller's.
    pub fn leaf(r: &mut Rng, dim: usize) -> Recipe {
        if dim > 3 {
            return Recipe::wide_leaf(r, dim);
        }
        match Recipe::even_leaf(r, dim) {
            l @ (Recipe::Fourier { .. } | Recipe::Poly { .. } | Recipe::Cheb { .. } | Recipe::KGrid { .. } | Recipe::Grid { .. }) if r.pct(40) => Recipe::Odd(r.u64(), Box::new(l)),
            l => l,
        }
    }

    fn even_leaf(r: &mut Rng, dim: usize) -> Recipe {
        let small = if dim >= 3 { 1 } else { 3 };
        let lo = *r.pick(&[0.0, -1.0, -2.0, -0.5]);
        let width = *r.pick(&[1.0, 2.0, 4.0, 0.7]);
        if r.pct(2) {
            // A basis without features is one, too, as part of another.
            return Recipe::no_features(r);
        }
        match r.below(13) {
            0 => Recipe::Bias(if r.pct(15) { *r.pick(&[1.0, -1.0]) } else { r.nonzero() }),
            1 => {
                let n = r.range(1, 6);
                Recipe::FixedD((0..n).map(|i| if i == 0 { r.nonzero() } else { r.value() }).collect())
            },
            2 => {
                let n = r.range(1, 8);
                let k = if r.pct(5) { 0 } else { r.range(1, n) };
                Recipe::FixedS(n, (0..k).map(|_| r.below(n)).collect())
            },
            3 => Recipe::Fourier { order: r.range(1, small) as u8, lo, width, space: r.pct(30) },
            4 => Recipe::Poly { order: r.range(1, if dim == 1 { 9 } else { small }) as u8, zeroth: r.pct(50) },
            5 => Recipe::Cheb { order: r.range(1, if dim == 1 { 11 } else { small }) as u8, lo, width, zeroth: r.pct(50), space: r.pct(30) },
            6 | 7 => Recipe::Kernel { which: r.below(8) as u8, n: r.range(1, 6), seed: r.u64() >> 16 },
            8 => Recipe::KGrid { which: r.below(3) as u8, parts: r.range(1, if dim >= 3 { 2 } else { 3 }) },
            9 => Recipe::Tile { tilings: *r.pick(&[1, 2, 3, 4, 8]), memory: if r.pct(20) { 1 << r.below(7) } else { r.range(1, 40) }, key: r.u64() >> 16 },
            10 => Recipe::Grid { parts: r.range(1, if dim >= 3 { 2 } else { 4 }), lo, width },
            _ => Recipe::Closure { n: r.range(1, 9), style: r.below(8) as u8, seed: r.u64() >> 16 },
        }
    }

    fn no_features(r: &mut Rng) -> Recipe {
        match r.below(5) {
            0 => Recipe::FixedD(vec![]),
            1 => Recipe::FixedS(0, vec![]),
            2 => Recipe::Fourier { order: 0, lo: -1.0, width: 2.0, space: r.pct(30) },
            3 => Recipe::Poly { order: 0, zeroth: false },
            _ => Recipe::Kernel { which: r.below(8) as u8, n: 0, seed: r.u64() >> 16 },
        }
    }

    /// Cheap in many dimensions.
    fn wide_leaf(r: &mut Rng, dim: usize) -> Recipe {
        match r.below(8) {
            0 | 1 | 2 => Recipe::Tile { tilings: *r.pick(&[1, 2, 3, 4, 8]), memory: r.range(1, 40), key: r.u64() >> 16 },
            3 | 4 => Recipe::Kernel { which: r.below(8) as u8, n: r.range(1, 6), seed: r.u64() >> 16 },
            5 if dim <= 5 => Recipe::Fourier { order: 1, lo: -1.0, width: 2.0, space: r.pct(30) },
            6 if dim <= 5 => Recipe::Poly { order: 1, zeroth: r.pct(50) },
            7 if dim <= 5 => Recipe::Grid { parts: 2, lo: -1.0, width: 2.0 },
            5 => Recipe::FixedD((0..r.range(1, 6)).map(|_| r.nonzero()).collect()),
            _ => Recipe::Closure { n: r.range(1, 9), style: r.below(8) as u8, seed: r.u64() >> 16 },
        }
    }

    /// Deeper than one nests.
    fn chain(r: &mut Rng, dim: usize) -> Recipe {
        let mut t = Recipe::leaf(r, dim);
        let n: usize = t.build(dim).dim().into();
        if n == 0 || n > 40 {
            t = Recipe::FixedD(vec![0.5, -1.5]);
        }
        // JSON nests 128 deep.
        for _ in 0..r.range(5, 16) {
            t = match r.below(5) {
                0 => Recipe::Norm(r.below(4) as u8, Box::new(t)),
                1 => Recipe::Biased(Box::new(t)),
                2 => Recipe::Stack(Box::new(Recipe::Bias(r.nonzero())), Box::new(t)),
                3 => Recipe::Stack(Box::new(t), Box::new(Recipe::Tile { tilings: 2, memory: r.range(1, 4), key: r.u64() >> 16 })),
                _ => Recipe::Stack(Box::new(t), Box::new(Recipe::Closure { n: r.range(1, 3), style: r.below(8) as u8, seed: r.u64() >> 16 })),
            };
        }
        t
    }

    /// The same, of parts larger by orders of magnitude.
    pub fn inflated(&self, dim: usize) -> Recipe {
        // The most per dimension that stay below some thousand.
        let per = |most: usize| (2..=most).take_while(|k| (k + 1).pow(dim.min(12) as u32) <= 4000).last().unwrap_or(1);
        match self {
            Recipe::Bias(b) => Recipe::Bias(*b),
            Recipe::FixedD(v) => Recipe::FixedD((0..4000).map(|i| v.get(i % v.len().max(1)).copied().unwrap_or(0.25)).collect()),
            Recipe::FixedS(n, v) => Recipe::FixedS((n + 4000) * 10, v.iter().copied().chain(*n..n + 4000).collect()),
            Recipe::Fourier { order, lo, width, space } if dim <= 3 => Recipe::Fourier { order: per(255).max(*order as usize) as u8, lo: *lo, width: *width, space: *space },
            Recipe::Poly { order, zeroth } if dim <= 3 => Recipe::Poly { order: per(255).max(*order as usize) as u8, zeroth: *zeroth },
            Recipe::Cheb { order, lo, width, zeroth, space } if dim <= 3 => Recipe::Cheb { order: per(11).max(*order as usize) as u8, lo: *lo, width: *width, zeroth: *zeroth, space: *space },
            Recipe::Kernel { which, seed, .. } => Recipe::Kernel { which: *which, n: 2000, seed: *seed },
            Recipe::KGrid { which, parts } if dim <= 3 => Recipe::KGrid { which: *which, parts: per(4000).max(*parts) },
            Recipe::Tile { tilings, memory, key } => Recipe::Tile { tilings: (*tilings * 100).max(20_000), memory: memory * 1000, key: *key },
            Recipe::Grid { parts, lo, width } if dim <= 3 => Recipe::Grid { parts: per(4000).max(*parts), lo: *lo, width: *width },
            Recipe::Closure { style, seed, .. } => Recipe::Closure { n: 4000, style: *style, seed: *seed },
            Recipe::Stack(a, b) => Recipe::Stack(Box::new(a.inflated(dim)), Box::new(b.inflated(dim))),
            Recipe::Biased(a) => Recipe::Biased(Box::new(a.inflated(dim))),
            Recipe::Norm(k, a) => Recipe::Norm(*k, Box::new(a.inflated(dim))),
            Recipe::Odd(_, a) => a.inflated(dim),
            same => same.clone(),
        }
    }

    /// No features at all, by the whole of it.
    fn nothing(r: &mut Rng) -> Recipe {
        let leaf = Recipe::no_features(r);
        match r.below(4) {
            0 => Recipe::Stack(Box::new(leaf), Box::new(Recipe::no_features(r))),
            1 => Recipe::Norm(r.below(4) as u8, Box::new(leaf)),
            _ => leaf,
        }
    }

    pub fn tree(r: &mut Rng, dim: usize, depth: usize) -> Recipe {
        if depth == 0 {
            return Recipe::leaf(r, dim);
        }
        match r.below(7) {
            0 | 1 => Recipe::Stack(Box::new(Recipe::tree(r, dim, depth - 1)), Box::new(Recipe::tree(r, dim, depth - 1))),
            2 => Recipe::Biased(Box::new(Recipe::tree(r, dim, depth - 1))),
            3 | 4 => Recipe::Norm(r.below(4) as u8, Box::new(Recipe::tree(r, dim, depth - 1))),
            _ => Recipe::leaf(r, dim),
        }
    }

    /// Many features: past whatever a block, a word or a byte holds.
    pub fn big_leaf(r: &mut Rng, dim: usize) -> Recipe {
        match r.below(9) {
            0 => Recipe::Closure { n: r.range(60, 400), style: r.below(8) as u8, seed: r.u64() >> 16 },
            1 | 2 => Recipe::Tile { tilings: *r.pick(&[4, 16, 33, 64, 64, 300]), memory: r.range(60, 500), key: r.u64() >> 16 },
            3 => Recipe::Grid { parts: [300, 18, 7, 4, 3, 2][dim - 1], lo: -1.0, width: 2.0 },
            4 => {
                let n = r.range(60, 300);
                Recipe::FixedD((0..n).map(|_| r.value()).collect())
            },
            5 => {
                let n = r.range(60, 300);
                let k = r.range(1, n);
                Recipe::FixedS(n, (0..k).map(|_| r.below(n)).collect())
            },
            6 => Recipe::Kernel { which: r.below(8) as u8, n: if r.pct(85) { r.range(20, 150) } else { r.range(257, 300) }, seed: r.u64() >> 16 },
            7 => Recipe::Fourier { order: [if r.pct(80) { 100 } else { 255 }, 12, 5, 3, 2, 1][dim - 1], lo: -1.0, width: 2.0, space: r.pct(30) },
            _ => Recipe::Poly { order: [if r.pct(80) { 12 } else { 255 }, 8, 4, 3, 2, 1][dim - 1], zeroth: r.pct(50) },
        }
    }

    /// A dimension and a tree for it.
    pub fn any(r: &mut Rng, depth: usize, max: usize) -> (usize, Recipe) {
        if r.pct(3) {
            let dim = r.range(1, 6);
            let leaf = Recipe::big_leaf(r, dim);
            let other = Recipe::leaf(r, dim.min(3));
            return match (r.below(6), other) {
                (0, o) if dim <= 3 => (dim, Recipe::Stack(Box::new(leaf), Box::new(o))),
                (1, o) if dim <= 3 => (dim, Recipe::Stack(Box::new(o), Box::new(leaf))),
                (2, _) => (dim, Recipe::Norm(r.below(4) as u8, Box::new(leaf))),
                (3, _) => (dim, Recipe::Biased(Box::new(leaf))),
                _ => (dim, leaf),
            };
        }
        let dim = *r.pick(&[1, 1, 2, 2, 3]);
        match r.below(500) {
            0 | 1 => return (dim, Recipe::nothing(r)),
            2..=6 => {
                // More dimensions than one draws.
                let dim = r.range(4, 20);
                let d = r.below(depth.min(2) + 1);
                return (dim, Recipe::bounded(r, dim, d, max));
            },
            7 | 8 => return (dim, Recipe::chain(r, dim)),
            _ => {},
        }
        let d = r.below(depth + 1);
        (dim, Recipe::bounded(r, dim, d, max))
    }

    /// The same tree of bases with other contents: what a shortcut that looks
    /// at sizes, kinds or addresses would take for this one.
    pub fn sibling(&self, r: &mut Rng) -> Recipe {
        match self {
            Recipe::Bias(_) => Recipe::Bias(r.nonzero()),
            Recipe::FixedD(v) => Recipe::FixedD(v.iter().map(|_| r.value()).collect()),
            Recipe::FixedS(n, v) => Recipe::FixedS(*n, v.iter().map(|_| r.below(*n)).collect()),
            Recipe::Kernel { which, n, .. } => Recipe::Kernel { which: *which, n: *n, seed: r.u64() >> 16 },
            Recipe::Tile { tilings, memory, .. } => Recipe::Tile { tilings: *tilings, memory: *memory, key: r.u64() >> 16 },
            Recipe::Closure { n, style, .. } => Recipe::Closure { n: *n, style: *style, seed: r.u64() >> 16 },
            Recipe::Stack(a, b) if r.pct(20) => Recipe::Stack(b.clone(), a.clone()),
            Recipe::Stack(a, b) => Recipe::Stack(Box::new(a.sibling(r)), Box::new(b.sibling(r))),
            Recipe::Biased(a) => Recipe::Biased(Box::new(a.sibling(r))),
            Recipe::Norm(which, a) if r.pct(20) => Recipe::Norm(which + 1, a.clone()),
            Recipe::Norm(which, a) => Recipe::Norm(*which, Box::new(a.sibling(r))),
            Recipe::Odd(_, leaf) if r.pct(30) => (**leaf).clone(),
            Recipe::Odd(_, leaf) => Recipe::Odd(r.u64(), leaf.clone()),
            leaf => Recipe::Odd(r.u64(), Box::new(leaf.clone())),
        }
    }

    /// Like `tree`, but never too many features for a quick run.
    pub fn bounded(r: &mut Rng, dim: usize, depth: usize, max: usize) -> Recipe {
        for _ in 0..50 {
            let t = Recipe::tree(r, dim, depth);
            let n: usize = t.build(dim).dim().into();
            if n >= 1 && n <= max {
                return t;
            }
        }
        Recipe::FixedD(vec![1.0, -0.5])
    }

    /// Only bases whose projections are never wholly zero.
    pub fn has_norm(&self) -> bool {
        match self {
            Recipe::Norm(..) => true,
            Recipe::Biased(a) => a.has_norm(),
            Recipe::Stack(a, b) => a.has_norm() || b.has_norm(),
            _ => false,
        }
    }
}

/// An input for a `dim`-dimensional basis; mostly inside, now and then outside
/// of or exactly at bounds and cell boundaries.
pub fn input(r: &mut Rng, dim: usize) -> Vec<f64> {
    (0..dim)
        .map(|_| match r.below(12) {
            0 => 0.0,
            1 => 1.0,
            2 => -1.0,
            3 => 0.5,
            4 => r.uniform(-3.0, 3.0),
            5 => r.uniform(-1.0, 1.0) * 1e-9,
            _ => r.uniform(-1.0, 1.0),
        })
        .collect()
}

/// A few inputs that recur, some of them relatives of one another.
pub fn pool(r: &mut Rng, dim: usize, n: usize) -> Vec<Vec<f64>> {
    let mut xs = vec![input(r, dim)];
    while xs.len() < n.max(1) {
        let x = if r.pct(60) { let y = r.pick(&xs).clone(); relative(r, &y) } else { input(r, dim) };
        xs.push(x);
    }
    xs
}

/// An input far outside of anything, or no number at all.
pub fn extreme(r: &mut Rng, dim: usize) -> Vec<f64> {
    let mut x = input(r, dim);
    let i = r.below(dim);
    x[i] = *r.pick(&[1e300, -1e300, INF, -INF, NAN, 5e-324, -0.0, 1e18, -1e10, 1e5]);
    x
}

// Plans are JSON, which has no such numbers.
const INF: f64 = 1.5e307;
const NAN: f64 = 1.25e307;

pub fn actual(x: &[f64]) -> Vec<f64> {
    x.iter()
        .map(|v| match *v {
            v if v.abs() == INF => v * f64::INFINITY,
            v if v == NAN => f64::NAN,
            v => v,
        })
        .collect()
}

/// An input that much of a shortcut would take for `x`: the same coordinates in
/// another order, the same sum or length, one bit or one coordinate apart.
pub fn relative(r: &mut Rng, x: &[f64]) -> Vec<f64> {
    let mut y = x.to_vec();
    let i = r.below(y.len());
    match r.below(9) {
        0 => y.reverse(),
        1 => y.rotate_left(1),
        2 => y[i] = -y[i],
        3 => y.iter_mut().for_each(|v| *v = -*v),
        4 => {
            // A step that keeps the sum of round coordinates.
            let d = *r.pick(&[0.25, 0.5, -0.125]);
            y[i] += d;
            let j = (i + 1) % y.len();
            y[j] -= d;
        },
        5 => y[i] = f64::from_bits(y[i].to_bits() ^ 1),
        6 => y[i] += r.uniform(-1.0, 1.0) * 1e-7,
        7 => y[i] = r.uniform(-1.0, 1.0),
        _ => y[i] += *r.pick(&[1.0, -1.0, 0.5, 2.0]),
    }
    y
}
