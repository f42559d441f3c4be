//! C11: threads.
use super::*;
use crate::disk::Codec;
use crate::ensure;
use crate::harness::{decode, encode, violation, Violation};
use crate::optim::OptRecipe;
use crate::phi::{near, FeatRecipe};
use crate::props::feats::{F1, F2};
use crate::props::learn::{history, name, set_x};
use crate::rt::{Job, SchedStats, Slot};
use crate::seam::{self, Caught, Seam};
use lfa::Features;
use ndarray::{Array1, Array2};
use serde_json::Value;
use std::sync::{Arc, Condvar, Mutex, RwLock};

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    key: u64,
    sched: Vec<Slot>,
    /// More schedules for the same threads, of a few switches each.
    more: Vec<Vec<Cut>>,
    /// In a fresh process, and the threads before anything else: what code does
    /// on its first use happens among them.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    cold: bool,
    /// The threads' caller code shares an instrument, which some calls are made
    /// with in hand: which, goes by this seed (0: no instrument).
    #[serde(default, skip_serializing_if = "nil")]
    instrument: u64,
    /// Each thread's approximator goes to another thread half way.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    handover: bool,
    world: World,
}

fn nil(x: &u64) -> bool { *x == 0 }

/// Whether a thread makes an operation with the instrument in hand.
fn in_hand(seed: u64, t: usize, k: usize) -> bool { seed != 0 && crate::rng::mix(seed ^ (t as u64) << 20 ^ (k as u64) << 30) % 3 == 0 }

/// Let this thread run for this share (of 2^32) of all there is to do.
#[derive(Clone, Debug, Serialize, Deserialize)]
struct Cut {
    pick: u32,
    share: u32,
    /// Or for this many visits to code known to touch what other threads touch.
    hot: u32,
    /// And so many points beyond.
    extra: u32,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum World {
    /// Everybody reads the same approximator and feature vectors.
    Shared { cfg: Config, feats: Vec<FeatRecipe>, threads: Vec<Vec<Look>> },
    /// Everybody has one of their own; some were built by another thread.
    Owned { threads: Vec<Own> },
    /// One approximator under a reader-writer lock.
    Locked { cfg: Config, threads: Vec<Vec<Op>> },
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Own {
    cfg: Config,
    ops: Vec<Op>,
    moved: bool,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum Look {
    Call { call: Call, fault: Option<Fault> },
    Feats { a: usize, b: usize, op: FLook, fault: Option<u32> },
    Save { codec: Codec, x: Vec<f64> },
    /// Clone the shared approximator and train the clone.
    Clone { x: Vec<f64>, e: Vec<f64> },
    Show,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum FLook {
    Dot(u64),
    DotFeatures,
    Matmul(u64),
    Sum,
    Fold,
    Map(F1),
    Merge(F2),
    Get(usize),
    Clone,
    Stack,
    Dense,
    AddTo(f64),
}

pub fn c11() -> Prop {
    Prop {
        id: "C11",
        gen: |r, thorough| {
            let mut p = if r.pct(if thorough { 4 } else { 12 }) { Plan::first_use(r) } else { Plan::random(r, thorough) };
            if r.pct(15) && !matches!(p.world, World::Locked { .. }) {
                p.instrument = r.u64() >> 8 | 1;
            }
            p.handover = r.pct(30) && matches!(p.world, World::Owned { .. });
            p.cold |= r.pct(if thorough { 2 } else { 6 }) && !matches!(p.world, World::Locked { .. });
            if p.cold {
                p.more.clear();
            }
            encode(&p)
        },
        run: run_c11,
        quick: 20_000,
        thorough: 1_000_000,
        rule: "one run = two to four simulated threads reading one approximator and its feature vectors, training approximators of their own, or sharing one under a reader-writer lock, with seeded schedules of pre-emptions at basic blocks, loads and stores (from one to seventeen per set of threads, dense or of a few switches) and with errors and panics inside calls, at times as the first use of the library in a process; results are compared with the same calls alone, lock histories are searched for a linearization; non-trivial = at least one switch between threads in mid-call; distinct = distinct hash of schedule and everything observed",
        real: REAL_LFA,
        stub: &["thread scheduler (one thread at a time, in seeded order)", "futex waits of std locks", "the caller: callbacks, iterators, hasher, user kernel, user basis, user optimiser", "hash keys (getrandom)"],
        assumptions: &["interleavings are sequentially consistent", "switches happen at basic blocks, loads and stores of instrumented code, and inside std only at lock waits", "1e-8 relative rounding between a shared and a lone run"],
    }
}

fn schedule(r: &mut Rng) -> Vec<Slot> {
    let style = r.below(4);
    (0..r.range(2, 160))
        .map(|_| {
            let q = match style {
                0 => r.range(1, 8),
                1 => r.range(1, 80),
                2 => r.range(1, 1200),
                _ => *r.pick(&[1, 2, 4, 16, 64, 256, 1024, 4096]),
            };
            Slot { pick: r.u32() % 12, quantum: q as u32, hot: 0, extra: 0 }
        })
        .collect()
}

fn cuts(r: &mut Rng) -> Vec<Cut> {
    let hot = r.pct(50);
    // Mostly to and fro.
    let turns = r.pct(70);
    let first = r.u32() % 12;
    (0..r.range(1, if hot { 10 } else { 6 }))
        .map(|i| {
            let share = if r.pct(50) { r.u32() / 2 } else { r.u32() >> r.range(2, 12) };
            let pick = if turns { first + i as u32 } else { r.u32() % 12 };
            let hot = if hot { 1 + r.u32() % *r.pick(&[3, 12, 60]) } else { 0 };
            let extra = if hot > 0 && r.pct(50) { r.u32() % *r.pick(&[4, 30]) } else { 0 };
            Cut { pick, share, hot, extra }
        })
        .collect()
}

fn schedules(p: &Plan, points: u64) -> Vec<Vec<Slot>> {
    let few = p.more.iter().map(|cs| {
        cs.iter()
            .map(|c| match c.hot {
                0 => Slot { pick: c.pick, quantum: ((c.share as u64 * points >> 32) as u32).max(1), hot: 0, extra: 0 },
                n => Slot { pick: c.pick, quantum: n, hot: 1, extra: c.extra },
            })
            .collect()
    });
    std::iter::once(p.sched.clone()).chain(few).collect()
}

impl Plan {
    /// Two or three threads, a few calls each on one basis, many schedules.
    fn small(r: &mut Rng, thorough: bool) -> Plan {
        let n = if r.pct(75) { 2 } else { 3 };
        let opt = OptRecipe::any(r);
        let mut cfg = Config::random(r, opt, 40);
        cfg.dim = r.range(1, 2);
        cfg.basis = crate::basis::Recipe::bounded(r, cfg.dim, 0, 30);
        cfg.outputs = cfg.outputs.min(2);
        let k = r.range(1, 2);
        let pool = crate::basis::pool(r, cfg.dim, k);
        let mut call = |r: &mut Rng, updates: bool| {
            let mut c = loop {
                let c = Call::random(r, cfg.dim, cfg.outputs);
                if updates || !c.updates() {
                    break c;
                }
            };
            if r.pct(15) {
                c = Call::Ith { x: vec![], i: r.below(4) };
            }
            set_x(&mut c, r.pick(&pool).clone());
            c
        };
        let world = if r.pct(60) {
            let threads = (0..n).map(|_| (0..r.range(1, 4)).map(|_| Look::Call { call: call(r, false), fault: some_fault(r, 10, &[0, 1]) }).collect()).collect();
            World::Shared { cfg: cfg.clone(), feats: vec![], threads }
        } else {
            let threads = (0..n)
                .map(|_| Own {
                    cfg: cfg.clone(),
                    ops: (0..r.range(1, 3)).map(|_| Op { call: call(r, true), fault: some_fault(r, 10, &[0, 1, 2]), raw: None, edit: None }).collect(),
                    moved: r.pct(50),
                })
                .collect();
            World::Owned { threads }
        };
        let more = (0..if thorough { 40 } else { 16 }).map(|_| cuts(r)).collect();
        Plan { key: r.u64(), sched: schedule(r), more, cold: false, instrument: 0, handover: false, world }
    }

    /// Threads that do much the same, as the first thing in their process: one of
    /// them is stopped somewhere in its first call until others are through, or
    /// they go in step.
    fn first_use(r: &mut Rng) -> Plan {
        let mut p = Plan::small(r, false);
        let nice = r.pct(60);
        let even = |r: &mut Rng, x: &mut Vec<f64>| x.iter_mut().for_each(|v| *v = (r.below(17) as f64 - 8.0) / 8.0);
        match &mut p.world {
            World::Shared { threads, .. } => {
                for op in threads.iter_mut().flatten() {
                    if let Look::Call { call, .. } = op {
                        if let Some(x) = call.x() {
                            let mut x = x.to_vec();
                            if nice {
                                even(r, &mut x);
                            }
                            set_x(call, x);
                        }
                    }
                }
                if r.pct(40) {
                    let first = threads[0].clone();
                    threads.iter_mut().for_each(|t| *t = first.clone());
                }
            },
            World::Owned { threads } => {
                for own in threads.iter_mut() {
                    own.moved &= r.pct(30);
                    for op in own.ops.iter_mut() {
                        if let (Some(x), true) = (op.call.x(), nice) {
                            let mut x = x.to_vec();
                            even(r, &mut x);
                            set_x(&mut op.call, x);
                        }
                    }
                }
            },
            World::Locked { .. } => {},
        }
        let slot = |pick: u32, quantum: u32| Slot { pick, quantum, hot: 0, extra: 0 };
        p.sched = match r.below(3) {
            0 => {
                // Logarithmically uniform.
                let first = 2f64.powf(r.uniform(3.0, 13.0)) as u32;
                vec![slot(0, first), slot(1, 1 << 30), slot(1, 1 << 30)]
            },
            1 => {
                let q = 1 + r.u32() % *r.pick(&[20, 100, 400]);
                (0..240).map(|i| slot(i, q)).collect()
            },
            _ => p.sched,
        };
        p.cold = true;
        p
    }

    fn random(r: &mut Rng, thorough: bool) -> Plan {
        if r.pct(40) {
            return Plan::small(r, thorough);
        }
        let n = if r.pct(60) { 2 } else { r.range(3, 4) };
        let long = if thorough { 12 } else { 6 };
        let world = match r.below(10) {
            0..=3 => {
                let opt = OptRecipe::any(r);
                let cfg = Config::random(r, opt, 40);
                let len = *r.pick(&[1, 2, 3, 8, 20]);
                let feats: Vec<_> = (0..r.range(1, 3)).map(|_| FeatRecipe::random(r, len)).collect();
                let k = r.range(1, 3);
                let pool = crate::basis::pool(r, cfg.dim, k);
                let threads = (0..n)
                    .map(|_| (0..r.range(1, long)).map(|_| Look::random(r, &cfg, &pool, feats.len())).collect())
                    .collect();
                World::Shared { cfg, feats, threads }
            },
            4..=6 => {
                let opt = OptRecipe::any(r);
                let first = Config::random(r, opt, 40);
                let threads = (0..n)
                    .map(|_| {
                        let h = {
                            let opt = OptRecipe::any(r);
                            let k = r.range(1, long + 2);
                            let kinds: &[u8] = &[0, 1, 2];
                            let mut h = history(r, opt, 40, k, 25, kinds);
                            hands(r, &mut h);
                            h
                        };
                        if r.pct(50) {
                            // The same approximator as others have, on calls of its own.
                            let ops = (0..r.range(1, long)).map(|_| Op { call: Call::random(r, first.dim, first.outputs), fault: some_fault(r, 20, &[0, 1, 2]), raw: None, edit: None }).collect();
                            Own { cfg: first.clone(), ops, moved: r.pct(50) }
                        } else {
                            Own { cfg: h.cfg, ops: h.ops, moved: r.pct(50) }
                        }
                    })
                    .collect();
                World::Owned { threads }
            },
            _ => {
                let opt = OptRecipe::any(r);
                let stateless = opt.is_stateless();
                let mut cfg = Config::random(r, opt, 40);
                cfg.outputs = cfg.outputs.min(3);
                let k = r.range(1, 2);
                let pool = crate::basis::pool(r, cfg.dim, k);
                let threads = (0..n)
                    .map(|_| {
                        (0..r.range(1, if n == 2 { 5 } else { 3 }))
                            .map(|_| {
                                let mut call = Call::random(r, cfg.dim, cfg.outputs);
                                set_x(&mut call, r.pick(&pool).clone());
                                // A panic inside a step leaves accumulators the spec does not fix.
                                let fault = some_fault(r, 25, if stateless || !call.updates() { &[0, 1] } else { &[0] });
                                Op { call, fault, raw: None, edit: None }
                            })
                            .collect()
                    })
                    .collect();
                World::Locked { cfg, threads }
            },
        };
        Plan { key: r.u64(), sched: schedule(r), more: (0..r.below(3)).map(|_| cuts(r)).collect(), cold: false, instrument: 0, handover: false, world }
    }
}

impl Look {
    fn random(r: &mut Rng, cfg: &Config, pool: &[Vec<f64>], nf: usize) -> Look {
        let x = r.pick(pool).clone();
        match r.below(20) {
            0..=9 => {
                let mut call = loop {
                    let c = Call::random(r, cfg.dim, cfg.outputs);
                    if !c.updates() {
                        break c;
                    }
                };
                if r.pct(15) {
                    call = Call::Ith { x: x.clone(), i: r.below(4) };
                }
                if r.pct(70) {
                    set_x(&mut call, x);
                }
                Look::Call { call, fault: some_fault(r, 25, &[0, 1]) }
            },
            10 => Look::Save { codec: Codec::random(r), x },
            11 => Look::Clone { x, e: (0..cfg.outputs.max(1)).map(|_| Call::error(r)).collect() },
            12 => Look::Show,
            _ => Look::Feats {
                a: r.below(nf),
                b: r.below(nf),
                op: match r.below(12) {
                    0 => FLook::Dot(r.u64() >> 16),
                    1 => FLook::DotFeatures,
                    2 => FLook::Matmul(r.u64() >> 16),
                    3 => FLook::Sum,
                    4 => FLook::Fold,
                    5 => FLook::Map(F1::random(r)),
                    6 | 7 => FLook::Merge(F2::random(r)),
                    8 => FLook::Get(r.below(20)),
                    9 => FLook::Clone,
                    10 => r.pick(&[FLook::Stack, FLook::Dense]).clone(),
                    _ => FLook::AddTo(r.nonzero()),
                },
                fault: if r.pct(25) { Some(r.u32()) } else { None },
            },
        }
    }
}

/// Whether a type is shareable is a property checked on its own (below), so
/// that losing it is reported and not a failure to build the simulator.
struct Force<T>(T);
unsafe impl<T> Send for Force<T> {}
unsafe impl<T> Sync for Force<T> {}

impl<T> Force<T> {
    fn get(&self) -> &T { &self.0 }

    fn take(self) -> T { self.0 }
}

struct Probe<T>(std::marker::PhantomData<T>);
trait NotSend {
    fn send(&self) -> bool { false }
}
trait NotSync {
    fn sync(&self) -> bool { false }
}
impl<T> NotSend for Probe<T> {}
impl<T> NotSync for Probe<T> {}
impl<T: Send> Probe<T> {
    fn send(&self) -> bool { true }
}
impl<T: Sync> Probe<T> {
    fn sync(&self) -> bool { true }
}

fn auto_traits() -> Res {
    macro_rules! check {
        ($($t:ty),* $(,)?) => {
            $({
                let p: Probe<$t> = Probe(std::marker::PhantomData);
                ensure!(p.send(), concat!("not-send:", stringify!($t)), "{} can no longer be sent to another thread", stringify!($t));
                ensure!(p.sync(), concat!("not-sync:", stringify!($t)), "{} can no longer be shared between threads", stringify!($t));
            })*
        };
    }
    use lfa::basis::kernels::*;
    use lfa::basis::*;
    use lfa::optim::*;
    check!(
        Features, lfa::SparseActivations, lfa::Error, lfa::ErrorKind, lfa::OutputIter<'static>,
        Bias, Fixed<Vec<f64>>, Fixed<(usize, std::collections::HashSet<usize>)>, Fourier, Polynomial, Chebyshev, UniformGrid,
        TileCoding<std::collections::hash_map::RandomState>, KernelBasis<Vec<f64>, ExpQuad>, Prototype<Vec<f64>, ExpQuad>, Closure<fn(f64) -> lfa::Result<Features>>,
        Stack<Fourier, Bias>, L0Normaliser<Fourier>, L1Normaliser<Fourier>, L2Normaliser<Fourier>, LinfNormaliser<Fourier>,
        Exponential, Matern32, Matern52, ExpQuad, Cosine, RationalQuadratic,
        SGD, ISGD, SGDMomentum, NAG, Adagrad, Adam, AdaMax,
        lfa::ScalarLFA<Fourier, SGD>, lfa::VectorLFA<TileCoding<std::collections::hash_map::RandomState>, Adam>,
    );
    Ok(())
}

fn run_c11(v: &Value, rep: &mut Rep) -> Res {
    auto_traits()?;
    let p: Plan = decode(v);
    rt::hot_reset();
    let ((res, inner), _) = rt::incarnation(p.key, STEPS, || {
        let mut rep = Rep::default();
        let res = match &p.world {
            World::Shared { cfg, feats, threads } => shared(&p, cfg, feats, threads, &mut rep),
            World::Owned { threads } => owned(&p, threads, &mut rep),
            World::Locked { cfg, threads } => locked(&p, cfg, threads, &mut rep),
        };
        (res, rep)
    });
    rep.absorb(&inner);
    res
}

fn keys(key: u64, n: usize) -> Vec<u64> { (0..n as u64).map(|i| crate::rng::mix(key ^ i << 40)).collect() }

fn account(rep: &mut Rep, what: &str, st: &SchedStats) {
    rep.steps += st.points;
    rep.u(st.hash);
    rep.shape_str(what);
    rep.shape_u(st.hash);
    rep.probe(&format!("runs: {what}"));
    rep.probe_n("thread switches", st.switches);
    rep.probe_n("lock waits", st.blocks);
    rep.probe_n("accesses to what another thread wrote", st.conflicts);
    rep.probe_n("places in the code that make them", st.hot_places);
    if st.switches > 0 {
        rep.fault("preemption");
        *rep.faults.get_mut("preemption").unwrap() += st.switches - 1;
    }
}

/// What one operation gave.
#[derive(Clone, Debug)]
struct Out {
    what: &'static str,
    ret: Ret,
    fired: Option<String>,
}

fn vals(what: &'static str, v: Vec<f64>) -> Out { Out { what, ret: Ret::Vals(v), fired: None } }

fn note_out(rep: &mut Rep, o: &Out) {
    rep.ops += 1;
    rep.shape_str(o.what);
    if let Some(f) = &o.fired {
        rep.fault(f);
    }
    match &o.ret {
        Ret::Vals(v) => rep.fs(v),
        Ret::Feats(p) => rep.fs(&p.v),
        r => rep.str(&format!("{r:?}").chars().take(8).collect::<String>()),
    }
}

fn near_all(a: &[f64], b: &[f64]) -> bool {
    let mag = a.iter().chain(b).filter(|x| x.is_finite()).fold(1.0f64, |m, x| m.max(x.abs()));
    a.len() == b.len() && a.iter().zip(b).all(|(x, y)| near(*x, *y, mag, 1e-8))
}

fn same(a: &Ret, b: &Ret) -> bool {
    match (a, b) {
        (Ret::Unit, Ret::Unit) | (Ret::SimPanic, Ret::SimPanic) | (Ret::RealPanic(_), Ret::RealPanic(_)) | (Ret::Bad(_), Ret::Bad(_)) => true,
        (Ret::Vals(a), Ret::Vals(b)) => near_all(a, b),
        (Ret::Feats(a), Ret::Feats(b)) => a.on == b.on && near_all(&a.v, &b.v),
        (Ret::Err(a), Ret::Err(b)) => format!("{a:?}") == format!("{b:?}"),
        _ => false,
    }
}

fn huge(r: &Ret) -> bool { matches!(r, Ret::Vals(v) if v.iter().any(|x| !x.is_finite() || x.abs() > 1e12)) }

/// Compare what threads got with what they get alone.
fn compare(world: &str, together: &[Vec<Out>], alone: &[Vec<Out>], rep: &mut Rep) -> Res {
    for outs in together {
        outs.iter().for_each(|o| note_out(rep, o));
    }
    for (t, (a, b)) in together.iter().zip(alone).enumerate() {
        ensure!(a.len() == b.len(), format!("{world}:lost"), "thread {t}: {} results, alone {}", a.len(), b.len());
        for (k, (x, y)) in a.iter().zip(b).enumerate() {
            if huge(&y.ret) {
                rep.probe("history cut: values diverged");
                break;
            }
            ensure!(same(&x.ret, &y.ret), format!("{world}:{}", x.what), "thread {t}, operation {k} ({}): {:?}, alone {:?}", x.what, x.ret, y.ret);
        }
    }
    Ok(())
}

///////////////////////////////////////////////////////////////////////////////
// Shared reads
///////////////////////////////////////////////////////////////////////////////
fn caught(f: impl FnOnce() -> Vec<f64>) -> Ret {
    match seam::catch(f) {
        Ok(v) => Ret::Vals(v),
        Err(Caught::Sim) => Ret::SimPanic,
        Err(Caught::Real(m)) => Ret::RealPanic(m),
    }
}

fn numbers(f: &Features) -> Vec<f64> {
    match Phi::of(f) {
        Ok(p) => p.v.iter().copied().chain(p.on.iter().map(|b| *b as u64 as f64)).collect(),
        Err(_) => vec![f64::NEG_INFINITY],
    }
}

fn feature_op(x: &Features, y: &Features, op: &FLook) -> Vec<f64> {
    let n = x.n_features();
    let weights = |seed: u64, k: usize| -> Vec<f64> {
        let mut r = Rng::new(seed);
        (0..k).map(|_| r.uniform(-2.0, 2.0)).collect()
    };
    match op {
        FLook::Dot(s) => vec![x.dot(&Array1::from(weights(*s, n)))],
        FLook::DotFeatures => vec![<Features as ndarray::linalg::Dot<Features>>::dot(x, y)],
        FLook::Matmul(s) => x.matmul(&Array2::from_shape_vec((n, 2), weights(*s, 2 * n)).unwrap()).to_vec(),
        FLook::Sum => vec![x.sum(), x.n_active() as f64, n as f64],
        FLook::Fold => vec![x.fold(0.5, |a, v| {
            seam::event(Seam::Function);
            a + v.abs()
        })],
        FLook::Map(f) => numbers(&x.map(|v| {
            seam::event(Seam::Function);
            f.at(v)
        })),
        FLook::Merge(f) => numbers(&x.merge(y, |a, b| {
            seam::event(Seam::Function);
            f.at(a, b)
        })),
        FLook::Get(i) => vec![x.get(i % n.max(1)).copied().unwrap_or(-77.0)],
        FLook::Clone => {
            let mut c = x.clone();
            c.map_inplace(|v| v + 1.0);
            c.remove(0);
            numbers(&c).into_iter().chain(numbers(x)).collect()
        },
        FLook::Stack => numbers(&x.clone().stack(y.clone())),
        FLook::Dense => x.to_dense().to_vec(),
        FLook::AddTo(a) => {
            let mut w = Array1::from(vec![0.25; n]);
            x.addto(&mut w);
            y.scaled_addto(*a, &mut w);
            w.to_vec()
        },
    }
}

fn look(fa: &Fa, feats: &[Features], mine: &Fa, mine_f: &[Features], ops: &[Look], hand: impl Fn(usize) -> bool) -> Vec<Out> {
    let one = |op: &Look| look_one(fa, feats, mine, mine_f, op);
    ops.iter().enumerate().map(|(k, op)| if hand(k) { seam::holding(|| one(op)) } else { one(op) }).collect()
}

fn look_one(fa: &Fa, feats: &[Features], mine: &Fa, mine_f: &[Features], op: &Look) -> Out {
        match op {
            Look::Call { call, fault } => {
                let arm = fault.as_ref().and_then(|f| seam::resolve(f, &mine.read(call, None).1));
                let (ret, seen) = fa.read(call, arm);
                Out { what: name(call), ret, fired: seen.fired }
            },
            Look::Feats { a, b, op, fault } => {
                let arm = fault.and_then(|x| {
                    seam::begin(None, false);
                    let _ = caught(|| feature_op(&mine_f[*a], &mine_f[*b], op));
                    seam::resolve(&Fault::Panic(x), &seam::end())
                });
                seam::begin(arm, false);
                let ret = caught(|| feature_op(&feats[*a], &feats[*b], op));
                Out { what: "features", ret, fired: seam::end().fired }
            },
            Look::Save { codec, x } => {
                let ret = match codec.to_vec(fa).and_then(|b| codec.from_slice::<Fa>(&b)) {
                    Ok(f) => f.read(&Call::Eval { x: x.clone() }, None).0,
                    Err(m) => Ret::Bad(m),
                };
                Out { what: "save", ret, fired: None }
            },
            Look::Clone { x, e } => {
                let mut c = fa.clone();
                c.call(&Call::Update { x: x.clone(), e: e.clone(), lazy: false }, None, false);
                vals("clone", c.weights().concat())
            },
            Look::Show => {
                let s = caught(|| vec![(format!("{fa:?}").len() > 4) as u64 as f64]);
                Out { what: "debug", ret: s, fired: None }
            },
        }
}

fn shared(p: &Plan, cfg: &Config, feats: &[FeatRecipe], threads: &[Vec<Look>], rep: &mut Rep) -> Res {
    let ks = keys(p.key, threads.len());
    let make = || (cfg.build(), feats.iter().map(|f| f.build()).collect::<Vec<Features>>());
    let first = if p.cold { Some(shared_run(p.instrument, &p.sched, &ks, cfg, feats, threads, &make, rep)?) } else { None };
    let mut points = 0;
    let alone: Vec<Vec<Out>> = threads
        .iter()
        .enumerate()
        .map(|(t, ops)| {
            let o = Force(make());
            let mine = Force(make());
            let job: Job<Force<Vec<Out>>> = Box::new(move || {
                let ((fa, fs), (m, mf)) = (o.get(), mine.get());
                Force(look(fa, fs, m, mf, ops, |_| false))
            });
            let (mut out, st) = rt::threads(&ks[t..=t], &[], STEPS, vec![job]);
            points += st.points;
            out.remove(0).take()
        })
        .collect();
    if let Some(outs) = first {
        return compare("shared", &outs, &alone, rep);
    }
    for sched in schedules(p, points) {
        let outs = shared_run(p.instrument, &sched, &ks, cfg, feats, threads, &make, rep)?;
        compare("shared", &outs, &alone, rep)?;
    }
    Ok(())
}

fn tool(seed: u64) -> Option<Arc<Mutex<()>>> { if seed == 0 { None } else { Some(Arc::new(Mutex::new(()))) } }

fn shared_run(seed: u64, sched: &[Slot], ks: &[u64], cfg: &Config, feats: &[FeatRecipe], threads: &[Vec<Look>], make: &dyn Fn() -> (Fa, Vec<Features>), rep: &mut Rep) -> Result<Vec<Vec<Out>>, Violation> {
    let o = Force(make());
    let before = o.get().0.weights();
    let tool = tool(seed);
    let jobs: Vec<Job<Force<Vec<Out>>>> = threads
        .iter()
        .enumerate()
        .map(|(t, ops)| {
            let o = &o;
            let mine = Force(make());
            let tool = tool.clone();
            Box::new(move || {
                let ((fa, fs), (m, mf)) = (o.get(), mine.get());
                seam::instrument(tool);
                Force(look(fa, fs, m, mf, ops, |k| in_hand(seed, t, k)))
            }) as Job<Force<Vec<Out>>>
        })
        .collect();
    let (outs, st) = rt::threads(ks, sched, STEPS, jobs);
    account(rep, "shared", &st);
    let outs: Vec<_> = outs.into_iter().map(|o| o.take()).collect();
    // What was read is as it was.
    let (fa, fs) = o.take();
    ensure!(fa.weights() == before, "shared:changed", "readers changed the weights");
    for (f, r) in fs.iter().zip(feats) {
        ensure!(numbers(f) == numbers(&r.build()), "shared:changed", "readers changed {r:?}");
    }
    let fresh = cfg.build();
    for op in threads.iter().flatten() {
        if let Look::Call { call, .. } = op {
            let x = call.x().unwrap().to_vec();
            let e = Call::Eval { x };
            let (a, b) = (fa.read(&e, None).0, fresh.read(&e, None).0);
            ensure!(same(&a, &b), "shared:afterwards", "{a:?} after the threads, {b:?} without them");
        }
    }
    Ok(outs)
}

///////////////////////////////////////////////////////////////////////////////
// One each
///////////////////////////////////////////////////////////////////////////////
fn live(fa: &mut Fa, cfg: &Config, ops: &[Op], hand: impl Fn(usize) -> bool) -> Vec<Out> {
    let mut outs = Vec::new();
    for (k, op) in ops.iter().enumerate() {
        op.edit(fa, cfg, &mut Rep::default());
        let mut go = || fa.faulted(&op.call, &op.fault, false);
        let o = if hand(k) { seam::holding(go) } else { go() };
        outs.push(Out { what: name(&op.call), ret: o.ret, fired: o.seen.fired });
        outs.push(vals("weights", fa.weights().concat()));
    }
    outs
}

fn owned(p: &Plan, threads: &[Own], rep: &mut Rep) -> Res {
    let ks = keys(p.key, threads.len());
    let first = if p.cold { Some(owned_run(p, &p.sched, &ks, threads, rep)) } else { None };
    let mut points = 0;
    let alone: Vec<Vec<Out>> = threads
        .iter()
        .enumerate()
        .map(|(t, own)| {
            let (mut out, st) = rt::threads(&ks[t..=t], &[], STEPS, vec![own.job()]);
            points += st.points;
            out.remove(0).take()
        })
        .collect();
    if let Some(outs) = first {
        return compare("owned", &outs, &alone, rep);
    }
    for sched in schedules(p, points) {
        let outs = owned_run(p, &sched, &ks, threads, rep);
        compare("owned", &outs, &alone, rep)?;
    }
    Ok(())
}

impl Own {
    fn start(&self) -> Force<Option<Fa>> { Force(if self.moved { Some(self.cfg.build()) } else { None }) }

    fn job(&self) -> Job<'_, Force<Vec<Out>>> {
        let fa = self.start();
        Box::new(move || Force(live(&mut fa.take().unwrap_or_else(|| self.cfg.build()), &self.cfg, &self.ops, |_| false)))
    }
}

/// Where one thread leaves its approximator for another.
#[derive(Default)]
struct Slip {
    fa: Mutex<Option<Force<Fa>>>,
    there: Condvar,
}

fn owned_run(p: &Plan, sched: &[Slot], ks: &[u64], threads: &[Own], rep: &mut Rep) -> Vec<Vec<Out>> {
    let seed = p.instrument;
    let tool = tool(seed);
    let n = threads.len();
    let slips: Vec<Slip> = (0..n).map(|_| Slip::default()).collect();
    let slips = &slips;
    // The first half of a thread's calls, then the second half of another's.
    let jobs: Vec<Job<Force<(Vec<Out>, Vec<Out>)>>> = threads
        .iter()
        .enumerate()
        .map(|(t, own)| {
            let fa = own.start();
            let tool = tool.clone();
            Box::new(move || {
                seam::instrument(tool);
                let mut fa = fa.take().unwrap_or_else(|| own.cfg.build());
                if !p.handover {
                    return Force((live(&mut fa, &own.cfg, &own.ops, |k| in_hand(seed, t, k)), vec![]));
                }
                let (ours, _) = own.ops.split_at(own.ops.len() / 2);
                let first = live(&mut fa, &own.cfg, ours, |k| in_hand(seed, t, k));
                *slips[t].fa.lock().unwrap() = Some(Force(fa));
                slips[t].there.notify_all();
                let u = (t + 1) % n;
                let mut g = slips[u].fa.lock().unwrap();
                let mut fa = loop {
                    match g.take() {
                        Some(fa) => break fa.take(),
                        None => g = slips[u].there.wait(g).unwrap(),
                    }
                };
                drop(g);
                let (_, theirs) = threads[u].ops.split_at(threads[u].ops.len() / 2);
                let second = live(&mut fa, &threads[u].cfg, theirs, |k| in_hand(seed, t, 100 + k));
                Force((first, second))
            }) as Job<Force<(Vec<Out>, Vec<Out>)>>
        })
        .collect();
    let (outs, st) = rt::threads(ks, sched, STEPS, jobs);
    account(rep, if p.handover { "owned, handed over" } else { "owned" }, &st);
    let (mut first, mut second): (Vec<_>, Vec<_>) = outs.into_iter().map(|o| o.take()).unzip();
    second.rotate_right(1);
    for (a, b) in first.iter_mut().zip(second) {
        a.extend(b);
    }
    first
}

///////////////////////////////////////////////////////////////////////////////
// Under a lock
///////////////////////////////////////////////////////////////////////////////
struct Done {
    from: u64,
    to: u64,
    call: Call,
    ret: Ret,
    fired: Option<String>,
}

fn locked(p: &Plan, cfg: &Config, threads: &[Vec<Op>], rep: &mut Rep) -> Res {
    let ks = keys(p.key, threads.len());
    let start = cfg.build();
    let lock = Force(RwLock::new(cfg.build()));
    let jobs: Vec<Job<Force<Vec<Done>>>> = threads
        .iter()
        .map(|ops| {
            let lock = &lock;
            let mut mine = Force(cfg.build());
            Box::new(move || {
                let (lock, mine) = (lock.get(), &mut mine);
                Force(
                    ops.iter()
                        .map(|op| {
                            let arm = op.fault.as_ref().and_then(|f| seam::resolve(f, &mine.0.call(&op.call, None, false).seen));
                            let from = rt::tick();
                            let (ret, seen) = if op.call.updates() {
                                // A caller who survives a poisoned lock.
                                let mut g = lock.write().unwrap_or_else(|e| e.into_inner());
                                let o = g.call(&op.call, arm, false);
                                (o.ret, o.seen)
                            } else {
                                let g = lock.read().unwrap_or_else(|e| e.into_inner());
                                g.read(&op.call, arm)
                            };
                            Done { from, to: rt::tick(), call: op.call.clone(), ret, fired: seen.fired }
                        })
                        .collect(),
                )
            }) as Job<Force<Vec<Done>>>
        })
        .collect();
    let (outs, st) = rt::threads(&ks, &p.sched, STEPS, jobs);
    account(rep, "locked", &st);
    let hist: Vec<Vec<Done>> = outs.into_iter().map(|o| o.take()).collect();
    for d in hist.iter().flatten() {
        note_out(rep, &Out { what: name(&d.call), ret: d.ret.clone(), fired: d.fired.clone() });
        if huge(&d.ret) {
            rep.probe("history cut: values diverged");
            return Ok(());
        }
    }
    let end = match lock.take().into_inner() {
        Ok(f) => f,
        Err(e) => e.into_inner(),
    };
    if !finite(&end) {
        rep.probe("history cut: values diverged");
        return Ok(());
    }
    let end = end.weights();
    let mut budget = 3_000;
    let mut at = vec![0; hist.len()];
    match linearize(&hist, &mut at, &start, &end, &mut budget) {
        Some(true) => Ok(()),
        Some(false) => {
            let h: Vec<String> = hist
                .iter()
                .enumerate()
                .flat_map(|(t, ds)| ds.iter().map(move |d| format!("t{t} [{},{}] {} {:?} -> {:?}", d.from, d.to, name(&d.call), d.fired, d.ret)))
                .collect();
            violation("not-linearizable", format!("no order of these explains the results and final weights {end:?}: {}", h.join("; ")))
        },
        None => {
            rep.probe("linearization search out of budget");
            Ok(())
        },
    }
}

/// Wing-Gong search; the specification is the code itself, called in sequence.
fn linearize(h: &[Vec<Done>], at: &mut Vec<usize>, now: &Fa, end: &[Vec<f64>], budget: &mut i32) -> Option<bool> {
    if at.iter().zip(h).all(|(k, ds)| *k == ds.len()) {
        return Some(near_all(&now.weights().concat(), &end.concat()));
    }
    if *budget <= 0 {
        return None;
    }
    // Nothing may go before what returned before it began.
    let first_return = at.iter().zip(h).filter_map(|(k, ds)| ds.get(*k)).map(|d| d.to).min().unwrap();
    let mut unknown = false;
    for t in 0..h.len() {
        let d = match h[t].get(at[t]) {
            Some(d) if d.from <= first_return => d,
            _ => continue,
        };
        *budget -= 1;
        let mut next = now.clone();
        let o = next.call(&d.call, None, false);
        let mut states = Vec::new();
        if d.fired.is_some() && !matches!(d.ret, Ret::Unit) {
            if d.fired.as_deref() == Some("node_err") || !d.call.updates() {
                states.push(now.clone());
            } else {
                // Any of the outputs may have been stepped.
                let (old, new) = (now.weights(), next.weights());
                for mask in 0..1u32 << old.len() {
                    let mut s = now.clone();
                    s.set_weights(&(0..old.len()).map(|j| if mask >> j & 1 == 1 { new[j].clone() } else { old[j].clone() }).collect::<Vec<_>>());
                    states.push(s);
                }
            }
        } else if same(&o.ret, &d.ret) {
            states.push(next);
        }
        at[t] += 1;
        for s in states {
            match linearize(h, at, &s, end, budget) {
                Some(true) => return Some(true),
                Some(false) => {},
                None => unknown = true,
            }
        }
        at[t] -= 1;
    }
    if unknown {
        None
    } else {
        Some(false)
    }
}
