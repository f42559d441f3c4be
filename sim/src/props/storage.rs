//! C03, C04: checkpoints on a simulated disk and on failing streams.
use super::*;
use crate::basis::{In, Node, Recipe};
use crate::disk::{Codec, Disk, Faulty, StreamPlan};
use crate::ensure;
use crate::harness::{decode, encode, violation, Violation};
use crate::optim::{Opt, OptRecipe};
use crate::phi::{near, same_bits, FeatRecipe};
use crate::props::learn::name;
use crate::rng::mix;
use crate::seam::{self, Caught};
use lfa::basis::Basis;
use lfa::LFA;
use ndarray::{Array1, Array2};
use serde::de::DeserializeOwned;
use serde_json::Value;

///////////////////////////////////////////////////////////////////////////////
// C03
///////////////////////////////////////////////////////////////////////////////
#[derive(Clone, Debug, Serialize, Deserialize)]
struct CrashPlan {
    cfg: Config,
    pool: Vec<Vec<f64>>,
    more: Vec<Life>,
    seed: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Life {
    key: u64,
    ops: Vec<LOp>,
    /// Short transfers and interruptions while the checkpoint is read.
    chop: u64,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum LOp {
    Do { call: Call, fault: Option<Fault> },
    /// Make the log durable, which acknowledges what is in it.
    Sync,
    /// Checkpoint; `crash` ends the process at a stage of it.
    Save { parts: bool, codecs: [Codec; 3], chunk: usize, crash: Option<(u8, u32)> },
    /// Save and load in place, without a crash.
    Reload { codec: Codec },
    /// The optimiser alone, the basis alone.
    Swap { basis: bool, codec: Codec },
    Look { p: usize },
    /// Power is lost.
    Crash,
}

const NAMES: [&str; 4] = ["ckpt", "ckpt.tmp", "log", "log.tmp"];

pub fn c03() -> Prop {
    Prop {
        id: "C03",
        gen: |r, thorough| {
            let opt = OptRecipe::any(r);
            let cfg = Config::random(r, opt, 60);
            let n = r.range(1, 4);
            let pool = crate::basis::pool(r, cfg.dim, n);
            let lives = r.range(1, if thorough { 6 } else { 4 });
            let more = (0..lives)
                .map(|_| {
                    let mut ops: Vec<LOp> = (0..r.range(2, if thorough { 25 } else { 12 })).map(|_| lop(r, &cfg, &pool)).collect();
                    if r.pct(70) {
                        ops.push(LOp::Crash);
                    }
                    Life { key: r.u64(), ops, chop: if r.pct(40) { r.u64() >> 8 | 1 } else { 0 } }
                })
                .collect();
            encode(&CrashPlan { cfg, pool, more, seed: r.u64() >> 8 })
        },
        run: |v, rep| c03_run(&decode(v), rep),
        quick: 30_000,
        thorough: 1_500_000,
        rule: "one run = one seeded series of process lives on one simulated disk: updates written to a log and acknowledged when it is synced, checkpoints written to a temporary file, synced and renamed in any data format (whole, or basis, weights and optimiser apart), crashes between operations, inside calls (a panic of caller code) and at every stage of a checkpoint, torn writes; each life has other hash keys, loads the last durable checkpoint and replays the log; the recovered object is compared with a twin that never crashed, on weights, predictions and all later updates; non-trivial = a fault fired (crash, reload); distinct = distinct hash of everything observed",
        real: &["lfa serialisation (serde) of LFA, every basis, every optimiser, weights, Features", "lfa::LFA / Features / basis / optim", "bincode, serde_json, ciborium"],
        stub: &["disk (volatile and durable state, torn writes)", "log of updates", "the caller", "hash keys (getrandom)"],
        assumptions: &["rename is atomic and durable", "error callbacks depend on predictions only with plain or implicit SGD, whose rounding does not amplify", "values are finite (JSON has no others)"],
    }
}

fn lop(r: &mut Rng, cfg: &Config, pool: &[Vec<f64>]) -> LOp {
    match r.below(20) {
        0..=9 => loop {
            let mut call = Call::random(r, cfg.dim, cfg.outputs);
            if !call.updates() && r.pct(80) {
                continue;
            }
            if r.pct(70) {
                crate::props::learn::set_x(&mut call, r.pick(pool).clone());
            }
            if let Call::UpdateWith { style, .. } = &mut call {
                if *style == 0 && !cfg.opt.is_stateless() {
                    *style = 1;
                }
            }
            if r.pct(3) {
                call = Call::Reset;
            }
            return LOp::Do { call, fault: some_fault(r, 6, &[0, 1]) };
        },
        10..=12 => LOp::Sync,
        13 | 14 => LOp::Save { parts: r.pct(40), codecs: [Codec::random(r), Codec::random(r), Codec::random(r)], chunk: *r.pick(&[1000000, 100, 17]), crash: if r.pct(25) { Some((r.below(6) as u8, r.u32())) } else { None } },
        15 | 16 => LOp::Reload { codec: Codec::random(r) },
        17 => LOp::Swap { basis: r.pct(50), codec: Codec::random(r) },
        18 => LOp::Look { p: r.below(pool.len()) },
        _ => if r.pct(30) { LOp::Crash } else { LOp::Sync },
    }
}

/// What outlives a process: the disk, the caller's knowledge of what was
/// acknowledged, and the twin.
struct World {
    disk: Disk,
    twin: Fa,
    /// Updates in order; the twin has made the first `twin_at` of them.
    log: Vec<Call>,
    twin_at: usize,
    acked: usize,
    rng: Rng,
    /// The largest weight there has been.
    large: f64,
    /// The last approximator saved whole, and its bytes.
    saved: Option<(Fa, Codec, Vec<u8>)>,
}

fn checksum(b: &[u8]) -> u64 { b.iter().fold(0x1234, |h, x| mix(h ^ *x as u64)) }

fn record(seq: u64, call: &Call) -> Vec<u8> {
    let body = serde_json::to_vec(&(seq, call)).unwrap();
    let mut out = (body.len() as u32).to_le_bytes().to_vec();
    out.extend(checksum(&body).to_le_bytes());
    out.extend(body);
    out
}

/// The intact records of a log; a torn tail is dropped.
fn records(mut b: &[u8]) -> Vec<(u64, Call)> {
    let mut out = Vec::new();
    while b.len() >= 12 {
        let n = u32::from_le_bytes(b[..4].try_into().unwrap()) as usize;
        let c = u64::from_le_bytes(b[4..12].try_into().unwrap());
        if b.len() < 12 + n || checksum(&b[12..12 + n]) != c {
            break;
        }
        out.push(serde_json::from_slice(&b[12..12 + n]).unwrap());
        b = &b[12 + n..];
    }
    out
}

fn sealed(parts: &[Vec<u8>], head: &[u8]) -> Vec<u8> {
    let mut out = vec![head.len() as u8];
    out.extend(head);
    for p in parts {
        out.extend((p.len() as u32).to_le_bytes());
        out.extend(p);
    }
    let c = checksum(&out);
    out.extend(c.to_le_bytes());
    out
}

fn opened(b: &[u8]) -> Option<(Vec<u8>, Vec<Vec<u8>>)> {
    let (body, c) = b.split_at(b.len().checked_sub(8)?);
    if checksum(body) != u64::from_le_bytes(c.try_into().unwrap()) {
        return None;
    }
    let h = body[0] as usize;
    let head = body[1..1 + h].to_vec();
    let mut rest = &body[1 + h..];
    let mut parts = Vec::new();
    while !rest.is_empty() {
        let n = u32::from_le_bytes(rest[..4].try_into().unwrap()) as usize;
        parts.push(rest[4..4 + n].to_vec());
        rest = &rest[4 + n..];
    }
    Some((head, parts))
}

fn codec_no(c: Codec) -> u8 { crate::disk::CODECS.iter().position(|x| *x == c).unwrap() as u8 }

fn save<T: Serialize>(what: &str, c: Codec, v: &T) -> Result<Vec<u8>, Violation> {
    match seam::catch(|| c.to_vec(v)) {
        Ok(Ok(b)) => Ok(b),
        Ok(Err(e)) => violation(format!("save-failed:{what}:{c:?}"), e),
        Err(e) => violation(format!("save-panic:{what}:{c:?}"), format!("{e:?}")),
    }
}

fn load<T: DeserializeOwned>(what: &str, c: Codec, b: &[u8], chop: u64, rep: &mut Rep) -> Result<T, Violation> {
    let (mut s, fired) = Faulty::new(b, &StreamPlan { chop, fail_at: None, kind: 0 });
    let r = seam::catch(|| c.load::<T, _>(&mut s));
    let (short, intr, _) = fired.get();
    rep.probe_n("short read", short);
    rep.probe_n("interrupted read", intr);
    match r {
        Ok(Ok(v)) => Ok(v),
        Ok(Err(e)) => violation(format!("load-failed:{what}:{c:?}"), e),
        Err(e) => violation(format!("load-panic:{what}:{c:?}"), format!("{e:?}")),
    }
}

fn dump(fa: &Fa, seq: u64, parts: bool, codecs: &[Codec; 3]) -> Result<Vec<u8>, Violation> {
    let mut head = vec![parts as u8, fa.is_vector() as u8];
    head.extend(codecs.iter().map(|c| codec_no(*c)));
    head.extend(seq.to_le_bytes());
    let ps = if !parts {
        vec![save("approximator", codecs[0], fa)?]
    } else {
        match fa {
            Fa::S(f) => vec![save("basis", codecs[0], &f.basis)?, save("weights", codecs[1], &f.weights)?, save("optimiser", codecs[2], &f.optimiser)?],
            Fa::V(f) => vec![save("basis", codecs[0], &f.basis)?, save("weights", codecs[1], &f.weights)?, save("optimiser", codecs[2], &f.optimiser)?],
        }
    };
    Ok(sealed(&ps, &head))
}

fn restore(head: &[u8], parts: &[Vec<u8>], chop: u64, rep: &mut Rep) -> Result<(Fa, u64), Violation> {
    let codec = |i: usize| crate::disk::CODECS[head[2 + i] as usize];
    let seq = u64::from_le_bytes(head[5..13].try_into().unwrap());
    let fa = if head[0] == 0 {
        load("approximator", codec(0), &parts[0], chop, rep)?
    } else {
        let basis: Node = load("basis", codec(0), &parts[0], chop, rep)?;
        let opt: Opt = load("optimiser", codec(2), &parts[2], chop, rep)?;
        if head[1] == 0 {
            let w: Array1<f64> = load("weights", codec(1), &parts[1], chop, rep)?;
            Fa::S(LFA::new(basis, w, opt))
        } else {
            let w: Array2<f64> = load("weights", codec(1), &parts[1], chop, rep)?;
            Fa::V(LFA::new(basis, w, opt))
        }
    };
    Ok((fa, seq))
}

fn c03_run(p: &CrashPlan, rep: &mut Rep) -> Res {
    let mut w = World { disk: Disk::default(), twin: p.cfg.build(), log: Vec::new(), twin_at: 0, acked: 0, rng: Rng::new(p.seed), large: 1e-3, saved: None };
    for life in &p.more {
        let ((res, inner), steps) = rt::incarnation(life.key, STEPS, || {
            let mut rep = Rep::default();
            let res = c03_life(p, life, &mut w, &mut rep);
            (res, rep)
        });
        rep.absorb(&inner);
        rep.steps += steps;
        if !res? {
            break;
        }
    }
    if let Some((fa, codec, bytes)) = w.saved {
        if let Some(m) = elsewhere(p, &fa, codec, bytes, rep)? {
            return violation(format!("elsewhere:{codec:?}"), m);
        }
    }
    Ok(())
}

/// What a process that has called nothing yet makes of the bytes is what was
/// saved; how it differs, if it does.
fn elsewhere(p: &CrashPlan, fa: &Fa, codec: Codec, bytes: Vec<u8>, rep: &mut Rep) -> Result<Option<String>, Violation> {
    if !finite(fa) {
        return Ok(None);
    }
    let error = vec![0.7; p.cfg.outputs.max(1)];
    let told = match crate::abroad::ask(&crate::abroad::Ask::Saved { bytes, codec, pool: p.pool.clone(), error: error.clone(), key: mix(p.seed) }) {
        Ok(t) => t,
        Err(m) => return Ok(Some(format!("a process loading it ended: {m}"))),
    };
    if let Some(m) = told.failed {
        return Ok(Some(format!("another process cannot load it: {m}")));
    }
    let bits = crate::abroad::floats;
    let old = fa.weights();
    let new: Vec<Vec<f64>> = told.weights.iter().map(|v| bits(v)).collect();
    if old.len() != new.len() || old.iter().zip(&new).any(|(a, b)| a.len() != b.len() || a.iter().zip(b).any(|(a, b)| !near(*a, *b, 0.0, 1e-13))) {
        return Ok(Some(format!("weights {old:?} are {new:?} in another process")));
    }
    for (i, x) in p.pool.iter().enumerate() {
        let (f, g) = (fa.phi(x).ok(), told.phi(i));
        let size = match (&f, &g) {
            (None, None) => continue,
            (Some(f), Some(g)) if !f.finite() && f.n() == g.n() => continue,
            (Some(f), Some(g)) if f.dense == g.dense && f.on == g.on && f.v.iter().zip(&g.v).all(|(a, b)| near(*a, *b, f.max(), 1e-10)) => f.max(),
            _ => return Ok(Some(format!("input {x:?} gives {f:?}, {g:?} in another process"))),
        };
        let mut u = fa.clone();
        let r = u.call(&Call::Update { x: x.clone(), e: error.clone(), lazy: false }, None, false).ret;
        match (&r, told.learnt.get(i).cloned().flatten()) {
            (Ret::Unit, Some(v)) => {
                for ((x, y), w) in u.weights().iter().zip(&v).zip(&old) {
                    for (i, y) in bits(y).iter().enumerate() {
                        if !near(x[i], *y, w[i].abs() + size, 1e-10) {
                            return Ok(Some(format!("weight {i} goes from {:e} to {:e}, to {y:e} in another process", w[i], x[i])));
                        }
                    }
                }
            },
            (r, v) => return Ok(Some(format!("an update ended in {r:?}, in another process in {v:?}"))),
        }
    }
    rep.probe("loaded by another process of the operating system's");
    Ok(None)
}

fn kind(o: &OptRecipe) -> &'static str { crate::props::learn::kind(o) }

/// Bring the twin to the first `n` updates.
fn catch_up(w: &mut World, n: usize) {
    while w.twin_at < n {
        let call = w.log[w.twin_at].clone();
        let _ = w.twin.call(&call, None, false);
        w.twin_at += 1;
        w.large = w.twin.weights().iter().flatten().fold(w.large, |m, v| if v.is_finite() { m.max(v.abs()) } else { m });
    }
}

fn compare(p: &CrashPlan, when: &str, fa: &mut Fa, w: &mut World, rep: &mut Rep) -> Result<bool, Violation> {
    let (a, b) = (fa.weights(), w.twin.weights());
    if !finite(fa) || !finite(&w.twin) || a.iter().flatten().any(|x| x.abs() > 1e8) {
        rep.probe("history cut: weights diverged or not finite");
        return Ok(false);
    }
    let k = kind(&p.cfg.opt);
    ensure!(fa.shape() == w.twin.shape(), format!("shape:{k}"), "{when}: {:?} instead of {:?}", fa.shape(), w.twin.shape());
    for (j, (x, y)) in a.iter().zip(&b).enumerate() {
        let mag = x.iter().chain(y).fold(w.large, |m, v| m.max(v.abs()));
        for i in 0..x.len() {
            ensure!(near(x[i], y[i], mag, 1e-8), format!("diverged:{k}"), "{when}: weight {i} of output {j} is {:e}, {:e} without a crash", x[i], y[i]);
        }
    }
    for x in &p.pool {
        let (f, g) = (fa.phi(x), w.twin.phi(x));
        match (f, g) {
            (Ok(f), Ok(g)) => {
                let same = f.dense == g.dense && f.n() == g.n() && f.on == g.on && f.v.iter().zip(&g.v).all(|(a, b)| near(*a, *b, f.max(), 1e-10));
                ensure!(same, format!("basis-differs:{}", crate::props::shape::top(&p.cfg.basis)), "{when}: input {x:?} gives {f:?}, {g:?} without a crash");
                if f.finite() {
                    let (u, v) = (fa.call(&Call::Eval { x: x.clone() }, None, false).ret, w.twin.call(&Call::Eval { x: x.clone() }, None, false).ret);
                    match (&u, &v) {
                        (Ret::Vals(u), Ret::Vals(v)) => {
                            let mag = f.max() * a.iter().flatten().fold(w.large, |m, v| m.max(v.abs())) * f.n() as f64;
                            ensure!(u.len() == v.len() && u.iter().zip(v).all(|(a, b)| near(*a, *b, mag, 1e-8)), format!("prediction-differs:{k}"), "{when}: input {x:?} gives {u:?}, {v:?} without a crash");
                            rep.fs(u);
                        },
                        _ => return violation("prediction-fails", format!("{when}: {u:?} and {v:?}")),
                    }
                }
            },
            (f, g) => return violation("projection-fails", format!("{when}: {f:?} and {g:?}")),
        }
    }
    Ok(true)
}

/// What was loaded is what was saved, to all the digits a number has; features
/// are saved and loaded on the way.
fn just_loaded(p: &CrashPlan, old: &Fa, new: &Fa, codec: Codec, chop: u64, rep: &mut Rep) -> Res {
    if !finite(old) {
        return Ok(());
    }
    let k = kind(&p.cfg.opt);
    let (a, b) = (old.weights(), new.weights());
    for (j, (x, y)) in a.iter().zip(&b).enumerate() {
        ensure!(x.len() == y.len() && x.iter().zip(y).all(|(x, y)| near(*x, *y, 0.0, 1e-13)), format!("inexact:weights:{codec:?}"), "output {j}: {x:?} came back as {y:?}");
    }
    for x in &p.pool {
        let f = match (old.basis().project(In(x)), new.phi(x)) {
            (Ok(f), Ok(g)) => {
                let q = match crate::phi::Phi::of(&f) {
                    Ok(q) => q,
                    Err(m) => return violation("features", m),
                };
                if !q.finite() {
                    continue;
                }
                ensure!(q.on == g.on && q.v.iter().zip(&g.v).all(|(a, b)| near(*a, *b, q.max(), 1e-11)), format!("inexact:basis:{codec:?}"), "input {x:?} gave {:?}, {:?} after loading", q.v, g.v);
                let bytes = save("features", codec, &f)?;
                let back: lfa::Features = load("features", codec, &bytes, chop, rep)?;
                match crate::phi::Phi::of(&back) {
                    Ok(b) => ensure!(b.dense == q.dense && b.on == q.on && b.v.iter().zip(&q.v).all(|(a, b)| near(*a, *b, 0.0, 1e-13)), format!("inexact:features:{codec:?}"), "{q:?} came back as {b:?}"),
                    Err(m) => return violation("features", m),
                }
                q
            },
            (f, g) => return violation("projection-fails", format!("{f:?} and {g:?} after loading")),
        };
        // The next update, by both.
        let call = Call::Update { x: x.clone(), e: vec![0.7; p.cfg.outputs.max(1)], lazy: false };
        let (mut u, mut v) = (old.clone(), new.clone());
        let (r, s) = (u.call(&call, None, false).ret, v.call(&call, None, false).ret);
        ensure!(matches!((&r, &s), (Ret::Unit, Ret::Unit)), "update-fails", "{r:?} and {s:?} after loading");
        let size = f.max();
        for ((x, y), w) in u.weights().iter().zip(&v.weights()).zip(&a) {
            for i in 0..x.len() {
                ensure!(near(x[i], y[i], w[i].abs() + size, 1e-10), format!("inexact:update:{k}:{codec:?}"), "weight {i} goes from {:e} to {:e}, to {:e} after loading", w[i], x[i], y[i]);
            }
        }
    }
    rep.probe("compared right after loading");
    Ok(())
}

/// One process life; false when the run ends early.
fn c03_life(p: &CrashPlan, life: &Life, w: &mut World, rep: &mut Rep) -> Result<bool, Violation> {
    // Recovery.
    let (mut fa, from) = match w.disk.read("ckpt").cloned().and_then(|b| opened(&b)) {
        Some((head, parts)) => restore(&head, &parts, life.chop, rep)?,
        None => (p.cfg.build(), 0),
    };
    let mut done = from as usize;
    let log = w.disk.read("log").cloned().unwrap_or_default();
    let recs = records(&log);
    for (seq, call) in &recs {
        if *seq as usize == done + 1 {
            let o = fa.call(call, None, false);
            ensure!(!matches!(o.ret, Ret::RealPanic(_) | Ret::Err(_)), "replay-fails", "update {seq}: {:?}", o.ret);
            done += 1;
        }
    }
    if done < w.acked || done > w.log.len() {
        // The log or the disk of the simulator, not the code under test.
        return violation("harness:recovery", format!("{done} recovered, {} acknowledged, {} made", w.acked, w.log.len()));
    }
    w.log.truncate(done);
    catch_up(w, done);
    if done > 0 {
        rep.fault("recovery");
    }
    if !compare(p, "after recovery", &mut fa, w, rep)? {
        return Ok(false);
    }
    // The log continues behind its last intact record.
    let kept: Vec<u8> = recs.iter().filter(|(s, _)| *s as usize <= done).flat_map(|(s, c)| record(*s, c)).collect();
    w.disk.create("log.tmp");
    w.disk.append("log.tmp", &kept);
    w.disk.sync("log.tmp");
    w.disk.rename("log.tmp", "log");
    w.acked = done;

    for (k, op) in life.ops.iter().enumerate() {
        rep.ops += 1;
        match op {
            LOp::Do { call, fault } => {
                // Updates from features that are not finite would poison the run.
                if call.x().map_or(false, |x| !fa.phi(x).map_or(false, |f| f.finite())) {
                    continue;
                }
                let obs = fa.faulted(call, fault, false);
                note(rep, call, &obs, &fa);
                match &obs.ret {
                    Ret::SimPanic => {
                        rep.fault("crash inside a call");
                        let t = w.disk.crash(&mut w.rng);
                        rep.probe_n("torn write", t);
                        return Ok(true);
                    },
                    Ret::RealPanic(m) => {
                        if !(obs.seen.fired.is_some() && matches!(call, Call::Iter { .. })) {
                            return violation(format!("panic:{}", name(call)), format!("op {k}: {m}"));
                        }
                    },
                    Ret::Err(e) => ensure!(obs.seen.fired.is_some(), format!("error:{}", name(call)), "op {k}: {e:?}"),
                    _ if call.updates() || *call == Call::Reset => {
                        // A callback's errors are part of what happened.
                        w.log.push(call.clone());
                        w.disk.append("log", &record(w.log.len() as u64, call));
                    },
                    _ => {},
                }
                if !finite(&fa) {
                    rep.probe("history cut: weights diverged or not finite");
                    return Ok(false);
                }
            },
            LOp::Sync => {
                rep.shape_str("sync");
                w.disk.sync("log");
                w.acked = w.log.len();
                catch_up(w, w.acked);
                if !compare(p, &format!("op {k}"), &mut fa, w, rep)? {
                    return Ok(false);
                }
            },
            LOp::Save { parts, codecs, chunk, crash } => {
                rep.shape_str("save");
                let before = fa.weights();
                let bytes = dump(&fa, w.log.len() as u64, *parts, codecs)?;
                ensure!(before.iter().zip(&fa.weights()).all(|(a, b)| same_bits(a, b)), "saving-changed-it", "op {k}");
                let stage = crash.map(|c| c.0);
                let stop = |w: &mut World, rep: &mut Rep, at: &str| -> Result<bool, Violation> {
                    rep.fault(at);
                    let t = w.disk.crash(&mut w.rng);
                    rep.probe_n("torn write", t);
                    Ok(true)
                };
                w.disk.create("ckpt.tmp");
                let mut chunks: Vec<&[u8]> = bytes.chunks(*chunk).collect();
                if stage == Some(0) {
                    chunks.truncate(crash.unwrap().1 as usize % (chunks.len() + 1));
                }
                for c in chunks {
                    w.disk.append("ckpt.tmp", c);
                }
                match stage {
                    Some(0) => return stop(w, rep, "crash while a checkpoint is written"),
                    Some(1) => return stop(w, rep, "crash before a checkpoint is synced"),
                    _ => {},
                }
                // The log first: a checkpoint must not outrun it.
                w.disk.sync("log");
                w.acked = w.log.len();
                w.disk.sync("ckpt.tmp");
                if stage == Some(2) {
                    return stop(w, rep, "crash before a checkpoint is renamed");
                }
                w.disk.rename("ckpt.tmp", "ckpt");
                if stage == Some(3) {
                    return stop(w, rep, "crash before the log is cut");
                }
                w.disk.create("log.tmp");
                w.disk.sync("log.tmp");
                if stage == Some(4) {
                    return stop(w, rep, "crash while the log is cut");
                }
                w.disk.rename("log.tmp", "log");
                if stage == Some(5) {
                    return stop(w, rep, "crash after the log is cut");
                }
            },
            LOp::Reload { codec } => {
                let b = save("approximator", *codec, &fa)?;
                let old = std::mem::replace(&mut fa, load("approximator", *codec, &b, life.chop, rep)?);
                rep.fault("reload");
                if p.seed % 40 == 0 {
                    w.saved = Some((old.clone(), *codec, b));
                }
                just_loaded(p, &old, &fa, *codec, life.chop, rep)?;
            },
            LOp::Swap { basis, codec } => {
                rep.fault("reload of a part");
                let old = fa.clone();
                if *basis {
                    let b = save("basis", *codec, fa.basis())?;
                    let n: Node = load("basis", *codec, &b, life.chop, rep)?;
                    match &mut fa {
                        Fa::S(f) => f.basis = n,
                        Fa::V(f) => f.basis = n,
                    }
                } else {
                    let b = save("optimiser", *codec, fa.opt_mut())?;
                    *fa.opt_mut() = load("optimiser", *codec, &b, life.chop, rep)?;
                }
                just_loaded(p, &old, &fa, *codec, life.chop, rep)?;
            },
            LOp::Look { p: i } => {
                let x = &p.pool[i % p.pool.len()];
                let o = fa.call(&Call::Eval { x: x.clone() }, None, false);
                note(rep, &Call::Eval { x: x.clone() }, &o, &fa);
            },
            LOp::Crash => {
                rep.fault("crash");
                let t = w.disk.crash(&mut w.rng);
                rep.probe_n("torn write", t);
                return Ok(true);
            },
        }
    }
    // An orderly end.
    w.disk.sync("log");
    w.acked = w.log.len();
    catch_up(w, w.acked);
    let go = compare(p, "at the end of a life", &mut fa, w, rep)?;
    for n in NAMES {
        w.disk.sync(n);
    }
    Ok(go)
}

///////////////////////////////////////////////////////////////////////////////
// C04
///////////////////////////////////////////////////////////////////////////////
#[derive(Clone, Debug, Serialize, Deserialize)]
struct DamagePlan {
    key: u64,
    cfg: Config,
    /// Features instead of parts of an approximator.
    feats: FeatRecipe,
    /// Updates made before anything is saved.
    warm: Vec<Vec<f64>>,
    ops: Vec<DOp>,
}

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq)]
enum What {
    Approximator,
    Basis,
    Optimiser,
    Weights,
    Features,
    /// The library's types without the simulator's around them.
    Bare(u8),
}

#[derive(Clone, Debug, Serialize, Deserialize)]
struct DOp {
    what: What,
    codec: Codec,
    fault: DFault,
}

#[derive(Clone, Debug, Serialize, Deserialize)]
enum DFault {
    None,
    Save(StreamPlan),
    Load(StreamPlan),
    Truncate(u32),
    /// Bytes overwritten, dropped, doubled, swapped.
    Damage(Vec<(u8, u32, u32)>),
    /// Well-formed, with other contents: elements and fields lost, doubled,
    /// exchanged, numbers replaced, lists emptied.
    Restructure(Vec<(u8, u32, u32)>),
    /// Random bytes altogether.
    Noise(u64, u32),
}

fn stream(r: &mut Rng) -> StreamPlan {
    StreamPlan {
        chop: if r.pct(60) { r.u64() >> 8 | 1 } else { 0 },
        fail_at: if r.pct(70) { Some(if r.pct(30) { r.below(40) as u32 } else { r.u32() }) } else { None },
        kind: r.below(5) as u8,
    }
}

pub fn c04() -> Prop {
    Prop {
        id: "C04",
        gen: |r, thorough| {
            let opt = OptRecipe::any(r);
            let mut cfg = Config::random(r, opt, 40);
            if cfg.dim <= 3 && r.pct(15) {
                cfg.basis = Recipe::Cheb { order: r.range(1, 3) as u8, lo: -1.0, width: 2.0, zeroth: r.pct(50), space: false };
            }
            let n = r.range(0, 12);
            let ops = (0..r.range(1, if thorough { 30 } else { 12 }))
                .map(|_| {
                    let what = *r.pick(&[What::Approximator, What::Basis, What::Optimiser, What::Weights, What::Features, What::Bare(0), What::Bare(1), What::Bare(2), What::Bare(3)]);
                    let fault = match r.below(13) {
                        0 => DFault::None,
                        1 | 2 => DFault::Save(stream(r)),
                        3 | 4 => DFault::Load(stream(r)),
                        5 | 6 => DFault::Truncate(r.u32()),
                        9..=11 => DFault::Restructure((0..r.range(1, 3)).map(|_| (r.below(12) as u8, r.u32(), r.u32())).collect()),
                        7 | 8 => DFault::Damage((0..r.range(1, 3)).map(|_| (r.below(8) as u8, r.u32(), r.u32())).collect()),
                        _ => DFault::Noise(r.u64() >> 8, r.u32() % 80),
                    };
                    DOp { what, codec: Codec::random(r), fault }
                })
                .collect();
            let warm = (0..r.below(4)).map(|_| crate::basis::input(r, cfg.dim)).collect();
            encode(&DamagePlan { key: r.u64(), cfg, feats: FeatRecipe::random(r, n), warm, ops })
        },
        run: c04_run,
        quick: 30_000,
        thorough: 1_500_000,
        rule: "one run = one seeded history of saves and loads of approximators, bases, optimisers, weights and feature vectors in every data format through streams that make short transfers, are interrupted, fail hard at a seeded byte, or return truncated or damaged bytes; checked: never a panic or process death, hard errors and missing tails reported, short transfers and interruptions invisible, the saved object unchanged, the next save and load succeed, and what damaged bytes load as can be cloned, printed, saved again and dropped; non-trivial = a fault fired; distinct = distinct hash of everything observed",
        real: &["lfa serialisation (serde) of LFA, every basis, every optimiser, weights, Features", "bincode, serde_json, ciborium"],
        stub: &["streams", "hash keys (getrandom)"],
        assumptions: &["a bare number in JSON, whose prefix is a number, is not expected to notice truncation", "bincode is used with a size limit of 4 MiB, as it has to be on damaged input"],
    }
}

/// Something that can be saved and loaded.
trait Stored: Serialize + DeserializeOwned + Clone + std::fmt::Debug {}
impl<T: Serialize + DeserializeOwned + Clone + std::fmt::Debug> Stored for T {}

/// A form in which equal values look equal: hash sets are lists in no order.
fn canonical(v: &mut Value) {
    match v {
        Value::Array(a) => {
            a.iter_mut().for_each(canonical);
            if a.len() == 2 && a[0].is_u64() {
                // (dimension, set of indices)
                if let Value::Array(s) = &mut a[1] {
                    if s.iter().all(|x| x.is_u64()) {
                        s.sort_by_key(|x| x.as_u64());
                    }
                }
            }
        },
        Value::Object(o) => o.values_mut().for_each(canonical),
        _ => {},
    }
}

fn form<T: Serialize>(v: &T) -> Value {
    let mut v = serde_json::to_value(v).unwrap_or(Value::Null);
    canonical(&mut v);
    v
}

fn c04_run(v: &Value, rep: &mut Rep) -> Res {
    let p: DamagePlan = decode(v);
    let ((res, inner), steps) = rt::incarnation(p.key, STEPS, || {
        let mut rep = Rep::default();
        let res = c04_body(&p, &mut rep);
        (res, rep)
    });
    rep.absorb(&inner);
    rep.steps += steps;
    res
}

fn c04_body(p: &DamagePlan, rep: &mut Rep) -> Res {
    let mut fa = p.cfg.build();
    for x in &p.warm {
        if fa.phi(x).map_or(false, |f| f.finite()) {
            let e = vec![0.5; fa.cols()];
            let _ = fa.call(&Call::Update { x: x.clone(), e, lazy: false }, None, false);
        }
    }
    if !finite(&fa) {
        return Ok(());
    }
    let feats = p.feats.build();
    for (k, op) in p.ops.iter().enumerate() {
        rep.ops += 1;
        rep.shape_str(&format!("{:?}", op.codec));
        match op.what {
            What::Approximator => one(k, "approximator", &fa, op, rep)?,
            What::Basis => one(k, "basis", fa.basis(), op, rep)?,
            What::Optimiser => match &fa {
                Fa::S(f) => one(k, "optimiser", &f.optimiser, op, rep)?,
                Fa::V(f) => one(k, "optimiser", &f.optimiser, op, rep)?,
            },
            What::Weights => match &fa {
                Fa::S(f) => one(k, "weights", &f.weights, op, rep)?,
                Fa::V(f) => one(k, "weights", &f.weights, op, rep)?,
            },
            What::Features => one(k, "features", &feats, op, rep)?,
            What::Bare(i) => bare(k, i, p, &fa, op, rep)?,
        }
        let still = p.feats.build();
        ensure!(feats.is_dense() == still.is_dense(), "object-changed", "op {k}");
    }
    Ok(())
}

/// Values of the library's own types only.
fn bare(k: usize, i: u8, p: &DamagePlan, fa: &Fa, op: &DOp, rep: &mut Rep) -> Res {
    use crate::basis::Kind;
    use crate::optim::Inner;
    use lfa::basis::Stack;
    match i {
        0 => match &fa.basis().kind {
            Kind::Bias(b) => one(k, "Bias", b, op, rep),
            Kind::FixedD(b) => one(k, "Fixed", b, op, rep),
            Kind::FixedS(b) => one(k, "Fixed", b, op, rep),
            Kind::Fourier(b) => one(k, "Fourier", b, op, rep),
            Kind::Poly(b) => one(k, "Polynomial", b, op, rep),
            Kind::Cheb(b) => one(k, "Chebyshev", b, op, rep),
            Kind::Kernel(b) => one(k, "KernelBasis", b, op, rep),
            Kind::KEq(b) => one(k, "KernelBasis", b, op, rep),
            Kind::KM32(b) => one(k, "KernelBasis", b, op, rep),
            Kind::KM52(b) => one(k, "KernelBasis", b, op, rep),
            Kind::Tile(b) => one(k, "TileCoding", b, op, rep),
            Kind::Grid(b) => one(k, "UniformGrid", b, op, rep),
            Kind::Closure(_) => Ok(()),
            Kind::Stack(b) => one(k, "Stack", &**b, op, rep),
            Kind::Biased(b) => one(k, "Stack", &**b, op, rep),
            Kind::L0(b) => one(k, "L0Normaliser", &**b, op, rep),
            Kind::L1(b) => one(k, "L1Normaliser", &**b, op, rep),
            Kind::L2(b) => one(k, "L2Normaliser", &**b, op, rep),
            Kind::Linf(b) => one(k, "LinfNormaliser", &**b, op, rep),
        },
        1 => {
            let mut f = fa.clone();
            let o = &f.opt_mut().0;
            match o {
                Inner::Sgd(o) => one(k, "SGD", o, op, rep),
                Inner::Isgd(o) => one(k, "ISGD", o, op, rep),
                Inner::Mom(o) => one(k, "SGDMomentum", o, op, rep),
                Inner::Nag(o) => one(k, "NAG", o, op, rep),
                Inner::Adagrad(o) => one(k, "Adagrad", o, op, rep),
                Inner::Adam(o) => one(k, "Adam", o, op, rep),
                Inner::AdaMax(o) => one(k, "AdaMax", o, op, rep),
                Inner::Own(_) => Ok(()),
            }
        },
        2 => {
            // A whole approximator without any type of the simulator in it.
            let dim = p.cfg.dim.min(3);
            let b = Stack::new(lfa::basis::Polynomial::new(dim, 1).with_zeroth(), lfa::basis::Chebyshev::new(2, vec![(-1.0, 1.0); dim]));
            let n = Basis::<&[f64]>::n_features(&b);
            let mut f = LFA::vector(b, lfa::optim::Adam::new(n, 0.1, 0.9, 0.999), 2);
            for x in &p.warm {
                let _ = f.update(&x[..dim.min(x.len())], vec![0.5, -0.25]);
            }
            one(k, "LFA", &f, op, rep)
        },
        _ => {
            let f = fa.basis().project(In(&vec![0.3; p.cfg.dim]));
            match f {
                Ok(f) if Phi::of(&f).map_or(false, |p| p.finite()) => one(k, "Features", &f, op, rep),
                _ => Ok(()),
            }
        },
    }
}

fn io_panic(k: usize, how: &str, what: &str, c: Codec, e: Caught) -> Violation {
    Violation { class: format!("panic:{how}:{what}:{c:?}"), detail: format!("op {k}: {e:?}") }
}

fn one<T: Stored>(k: usize, what: &str, v: &T, op: &DOp, rep: &mut Rep) -> Res {
    let c = op.codec;
    let before = form(v);
    let good = match seam::catch(|| c.to_vec(v)) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return violation(format!("save-failed:{what}:{c:?}"), format!("op {k}: {e}")),
        Err(e) => return Err(io_panic(k, "save", what, c, e)),
    };
    let fits = |p: &StreamPlan| -> StreamPlan {
        // Fail somewhere the stream gets to.
        let mut p = p.clone();
        p.fail_at = p.fail_at.map(|f| f % (good.len() as u32 + 1));
        p
    };
    match &op.fault {
        DFault::None => {},
        DFault::Save(plan) => {
            let plan = fits(plan);
            let (mut s, fired) = Faulty::new(Vec::new(), &plan);
            let r = match seam::catch(|| c.save(v, &mut s)) {
                Ok(r) => r,
                Err(e) => return Err(io_panic(k, "save", what, c, e)),
            };
            let hard = count(&fired, "write", rep);
            ensure!(r.is_err() == hard, format!("save-report:{what}:{c:?}"), "op {k}: hard error hit: {hard}, reported: {r:?}");
            if !hard {
                ensure!(s.inner == good, format!("save-bytes:{what}:{c:?}"), "op {k}: short writes and interruptions changed what was written");
            }
            if let Err(e) = &r {
                rep.str(e);
            }
        },
        DFault::Load(plan) => {
            let plan = fits(plan);
            let (mut s, fired) = Faulty::new(&good[..], &plan);
            let r = match seam::catch(|| c.load::<T, _>(&mut s)) {
                Ok(r) => r,
                Err(e) => return Err(io_panic(k, "load", what, c, e)),
            };
            let hard = count(&fired, "read", rep);
            ensure!(r.is_err() == hard, format!("load-report:{what}:{c:?}"), "op {k}: hard error hit: {hard}, reported: {:?}", r.as_ref().map(|_| ()));
            if let Ok(w) = r {
                ensure!(form(&w) == before, format!("load-differs:{what}:{c:?}"), "op {k}: {} loaded as {}", before, form(&w));
            }
        },
        DFault::Truncate(at) => {
            let n = *at as usize % good.len().max(1);
            rep.fault("truncated");
            match seam::catch(|| c.from_slice::<T>(&good[..n])) {
                // Half a number is a number.
                Ok(_) if c == Codec::Json && before.is_number() => {},
                Ok(r) => ensure!(r.is_err(), format!("truncation-unnoticed:{what}:{c:?}"), "op {k}: the first {n} of {} bytes load", good.len()),
                Err(e) => return Err(io_panic(k, "load-truncated", what, c, e)),
            }
        },
        DFault::Damage(ds) => {
            let mut b = good.clone();
            for (how, at, x) in ds {
                if b.is_empty() {
                    break;
                }
                let i = *at as usize % b.len();
                let j = *x as usize % b.len();
                match how {
                    0 | 1 => b[i] ^= 1 << (x % 8),
                    2 => b[i] = *x as u8,
                    3 => b[i] = 0xff,
                    4 => b[i] = 0,
                    5 => {
                        b.remove(i);
                    },
                    6 => b.insert(i, *x as u8),
                    _ => {
                        // A block that ended up elsewhere.
                        let n = (*x as usize % 16).min(b.len() - i.max(j));
                        for d in 0..n {
                            b[i + d] = b[j + d];
                        }
                    },
                }
            }
            rep.fault("damaged");
            survive::<T>(k, what, c, &b, rep)?;
        },
        DFault::Restructure(ds) => {
            let mut b = good.clone();
            if c == Codec::Bin {
                ds.iter().for_each(|d| resize(&mut b, d));
            } else {
                let mut v = serde_json::to_value(v).unwrap_or(Value::Null);
                ds.iter().for_each(|d| restructure(&mut v, d));
                b = c.to_vec(&v).unwrap_or_default();
            }
            rep.fault("restructured");
            survive::<T>(k, what, c, &b, rep)?;
        },
        DFault::Noise(seed, n) => {
            let mut r = Rng::new(*seed);
            let b: Vec<u8> = (0..*n).map(|_| r.u32() as u8).collect();
            rep.fault("noise");
            survive::<T>(k, what, c, &b, rep)?;
        },
    }
    // The object is as before, and once faults stop it can be saved and loaded.
    ensure!(form(v) == before, format!("object-changed:{what}"), "op {k}");
    let again = match seam::catch(|| c.to_vec(v)) {
        Ok(Ok(b)) => b,
        Ok(Err(e)) => return violation(format!("save-failed:{what}:{c:?}"), format!("op {k}: {e}")),
        Err(e) => return Err(io_panic(k, "save", what, c, e)),
    };
    ensure!(again == good, format!("object-changed:{what}"), "op {k}: saves as other bytes than before");
    match seam::catch(|| c.from_slice::<T>(&again)) {
        Ok(Ok(w)) => ensure!(form(&w) == before, format!("load-differs:{what}:{c:?}"), "op {k}: {} loaded as {}", before, form(&w)),
        Ok(Err(e)) => return violation(format!("load-failed:{what}:{c:?}"), format!("op {k}: {e}")),
        Err(e) => return Err(io_panic(k, "load", what, c, e)),
    }
    rep.u(checksum(&again));
    Ok(())
}

/// A list in the binary format made longer or shorter, or a number in it
/// replaced, with the rest left in step.
fn resize(b: &mut Vec<u8>, (how, at, x): &(u8, u32, u32)) {
    if b.is_empty() {
        return;
    }
    let i = *at as usize % b.len();
    match how {
        0..=7 => {
            // A byte that may be a length, preferably.
            let may: Vec<usize> = (0..b.len()).filter(|i| (1..64).contains(&b[*i])).collect();
            let i = if may.is_empty() { i } else { may[*at as usize % may.len()] };
            let (old, new) = (b[i] as usize, if how % 2 == 0 { 0 } else { *x as usize % 9 });
            let width = [1, 8, 2, 9][*how as usize / 2];
            b[i] = new as u8;
            let tail = i + 1;
            if new <= old {
                let cut = ((old - new) * width).min(b.len() - tail);
                b.drain(tail..tail + cut);
            } else {
                let more: Vec<u8> = b[tail..].iter().copied().cycle().take(if tail < b.len() { (new - old) * width } else { 0 }).collect();
                b.splice(tail..tail, more);
            }
        },
        8 | 9 => {
            let n = [253u8, 252, 251][*x as usize % 3];
            b[i] = n;
            b.splice(i + 1..i + 1, vec![(*x >> 8) as u8; 1 << (n - 250)]);
        },
        _ => {
            if i + 8 <= b.len() {
                let v = WEIRD[*x as usize % WEIRD.len()];
                b[i..i + 8].copy_from_slice(&v.to_le_bytes());
            }
        },
    }
}

const WEIRD: [f64; 10] = [0.0, -0.0, 1.0, -1.0, f64::INFINITY, f64::NEG_INFINITY, f64::NAN, f64::MAX, 5e-324, 1e19];

fn nodes(v: &Value) -> usize {
    1 + match v {
        Value::Array(a) => a.iter().map(nodes).sum(),
        Value::Object(o) => o.values().map(nodes).sum(),
        _ => 0,
    }
}

fn node<'a>(v: &'a mut Value, n: &mut usize) -> Option<&'a mut Value> {
    if *n == 0 {
        return Some(v);
    }
    *n -= 1;
    match v {
        Value::Array(a) => a.iter_mut().find_map(|v| node(v, n)),
        Value::Object(o) => o.values_mut().find_map(|v| node(v, n)),
        _ => None,
    }
}

fn restructure(v: &mut Value, (how, at, x): &(u8, u32, u32)) {
    let total = nodes(v);
    let other = node(&mut v.clone(), &mut (*x as usize % total)).cloned();
    // Containers are few among the numbers in them.
    let mut i = *at as usize % total;
    if *how < 7 {
        for j in (i..total).chain(0..i) {
            if matches!(node(v, &mut j.clone()), Some(Value::Array(_) | Value::Object(_))) {
                i = j;
                break;
            }
        }
    }
    let Some(t) = node(v, &mut i) else { return };
    let x = *x as usize;
    match (how, t) {
        (0 | 1, Value::Array(a)) => a.clear(),
        (2 | 3, Value::Array(a)) if !a.is_empty() => {
            a.remove(x % a.len());
        },
        (4 | 5, Value::Array(a)) if !a.is_empty() => {
            let e = a[x % a.len()].clone();
            a.push(e);
        },
        (0..=2, Value::Object(o)) if !o.is_empty() => {
            let key = o.keys().nth(x % o.len()).unwrap().clone();
            o.remove(&key);
        },
        (3..=5, Value::Object(o)) if !o.is_empty() => {
            let key = o.keys().nth(x % o.len()).unwrap().clone();
            let e = o.remove(&key).unwrap();
            o.insert(if x % 2 == 0 { format!("{key}_") } else { "9".into() }, e);
        },
        (6, t) => *t = Value::Null,
        (7, t) => *t = Value::Array(vec![t.take()]),
        (8 | 9, t) => {
            *t = match x % 12 {
                0 => Value::from(u64::MAX),
                1 => Value::from(-1i64),
                2 => Value::from(1u64 << 40),
                3 => Value::from("x"),
                4 => Value::Bool(true),
                5 => Value::from(i64::MIN),
                6 => Value::from(12u64),
                7 => Value::from(255u64),
                8 => Value::from(0u64),
                n => serde_json::json!(WEIRD[n * 7 % WEIRD.len()]),
            }
        },
        (_, t) => {
            if let Some(o) = other {
                *t = o;
            }
        },
    }
}

/// Damaged bytes: an error, or something that can be used as a value.
fn survive<T: Stored>(k: usize, what: &str, c: Codec, b: &[u8], rep: &mut Rep) -> Res {
    let r = seam::catch(|| match c.from_slice::<T>(b) {
        Ok(w) => {
            let x = w.clone();
            let s = format!("{x:?}");
            drop(w);
            // JSON cannot hold every value another format can.
            let _ = c.to_vec(&x);
            s.len()
        },
        Err(e) => e.len(),
    });
    match r {
        Ok(n) => {
            rep.u(n as u64);
            Ok(())
        },
        Err(e) => Err(io_panic(k, "load-damaged", what, c, e)),
    }
}

/// Whether a hard error was hit.
fn count(fired: &crate::disk::Fired, dir: &str, rep: &mut Rep) -> bool {
    let (short, intr, hard) = fired.get();
    if short > 0 {
        rep.fault(&format!("short {dir}"));
    }
    if intr > 0 {
        rep.fault(&format!("interrupted {dir}"));
    }
    if hard > 0 {
        rep.fault(&format!("{dir} error"));
    }
    hard > 0
}
