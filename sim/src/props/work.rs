//! C18: every call ends, and its work depends on sizes alone.
use super::*;
use crate::alloc;
use crate::ensure;
use crate::harness::{decode, encode};
use crate::props::learn::{name, oddify, set_x};
use crate::props::memory::{fresh, round, Fired, MOp, MemPlan};
use serde_json::Value;

#[derive(Clone, Debug, Serialize, Deserialize)]
struct Plan {
    /// Sources of errors do not end.
    endless: bool,
    /// Extreme inputs and errors, to go through at the end.
    odd: Vec<Call>,
    /// Another approximator, larger by orders of magnitude, is used on the
    /// same thread.
    #[serde(default, skip_serializing_if = "std::ops::Not::not")]
    big: bool,
    mem: MemPlan,
}

/// A round is this often gone through in a batch.
const BATCH: u32 = 12;

pub fn c18() -> Prop {
    Prop {
        id: "C18",
        gen: |r, thorough| {
            let mut mem = MemPlan::random(r, if thorough { 4 * BATCH } else { BATCH });
            if r.pct(30) {
                // Inputs that recur, but many of them.
                mem.drift = *r.pick(&[1e-3, 0.0137, 0.25]);
            }
            let cfg = mem.cfg.clone();
            let odd = (0..r.range(1, 6))
                .map(|_| {
                    let mut c = Call::random(r, cfg.dim, cfg.outputs);
                    if r.pct(15) {
                        c = Call::Ith { x: vec![0.0; cfg.dim], i: r.below(6) };
                    }
                    if r.pct(80) {
                        set_x(&mut c, crate::basis::extreme(r, cfg.dim));
                    }
                    if r.pct(30) {
                        oddify(r, &mut c);
                    }
                    c
                })
                .collect();
            encode(&Plan { endless: r.pct(40), odd, big: r.pct(25), mem })
        },
        run: run_c18,
        quick: 9_000,
        thorough: 200_000,
        rule: "one run = a seeded round of operations on one approximator and two feature vectors, with failures and caught panics and error sources that never end, gone through again and again while basic blocks, loads and stores passed and bytes asked for are counted: batches may not keep getting dearer (followed to 1500 rounds when they do), afterwards no call may cost more than four times what it costs a new approximator, and no extreme input or error more than an ordinary one; a step limit ends calls that do not return; non-trivial = a fault fired; distinct = distinct hash of everything observed",
        real: REAL_LFA,
        stub: STUB_CALLER,
        assumptions: &["work is counted in instrumented code (lfa, and what it instantiates of other crates), memory at the global allocator", "work that stops growing within 1500 rounds counts as bounded"],
    }
}

fn run_c18(v: &Value, rep: &mut Rep) -> Res {
    let p: Plan = decode(v);
    let ((res, inner), steps) = rt::incarnation(p.mem.key, STEPS, || {
        let mut rep = Rep::default();
        crate::fa::endless(p.endless);
        let res = body(&p, &mut rep);
        crate::fa::endless(false);
        (res, rep)
    });
    rep.absorb(&inner);
    rep.steps += steps;
    res
}

#[derive(Clone, Copy, Debug)]
struct Cost {
    points: f64,
    bytes: f64,
}

fn cost(f: impl FnOnce()) -> Cost {
    let (p, b) = (rt::used(), alloc::taken());
    f();
    Cost { points: (rt::used() - p) as f64, bytes: (alloc::taken() - b) as f64 }
}

fn body(p: &Plan, rep: &mut Rep) -> Res {
    let m = &p.mem;
    let mut fired = Fired::new();
    let mut fa = m.cfg.build();
    let mut regs = fresh();
    let mut trace = Rep::default();
    let mut now = 0;
    let mut batches: Vec<Cost> = Vec::new();
    let mut go = |n: u32, fa: &mut Fa, fired: &mut Fired| {
        for _ in 0..n {
            rt::refill(STEPS);
            let c = cost(|| {
                for _ in 0..m.rounds {
                    round(m, false, &mut now, fa, &mut regs, fired, &mut trace);
                }
            });
            batches.push(c);
        }
        batches.clone()
    };
    let mut b = go(5, &mut fa, &mut fired);
    let mut grows = |c: &Cost, d: &Cost, by: f64| {
        let n = m.rounds as f64;
        if d.points > c.points * by + 40.0 * n {
            Some("work")
        } else if d.bytes > c.bytes * by + 64.0 * n {
            Some("memory asked for")
        } else {
            None
        }
    };
    let mut verdict = None;
    if grows(&b[2], &b[4], 1.02).is_some() {
        rep.probe("growth followed further");
        b = go(11, &mut fa, &mut fired);
        if grows(&b[4], &b[15], 1.1).is_some() {
            b = go(110, &mut fa, &mut fired);
            // Neither bounded by now nor about to be.
            verdict = grows(&b[15], &b[60], 1.2).and(grows(&b[60], &b[125], 1.2));
        }
    }
    rep.ops += b.len() as u64 * m.rounds as u64 * m.ops.len() as u64;
    rep.u(trace.trace);
    for c in &b {
        rep.u(c.points as u64);
        rep.u(c.bytes as u64);
    }
    for op in &m.ops {
        rep.shape_str(&format!("{op:?}").chars().take(6).collect::<String>());
    }
    for (k, n) in fired.iter().filter(|(_, n)| **n > 0) {
        *rep.faults.entry(k.clone()).or_insert(0) += n;
        rep.shape_str(k);
    }
    if let Some(what) = verdict {
        let at: Vec<String> = [0, 4, 15, 60, 125].iter().map(|i| format!("{:?}", b[*i])).collect();
        return crate::harness::violation("grows", format!("{what} of {} rounds of {} operations keeps growing: batches 0, 4, 15, 60 and 125 took {}", m.rounds, m.ops.len(), at.join(", ")));
    }

    // One by one, next to one that has no history.
    let w = fa.weights();
    let n = w.first().map_or(0, |c| c.len()) as f64;
    let size = n * (w.len() as f64 + 4.0);
    let lone = |call: &Call| {
        let mut new = m.cfg.build();
        new.set_weights(&w);
        let a = cost(|| drop(new.call(call, None, false)));
        let b = cost(|| drop(new.call(call, None, false)));
        Cost { points: a.points.max(b.points), bytes: a.bytes.max(b.bytes) }
    };
    let check = |what: &str, call: &Call, c: Cost, base: Cost| -> Res {
        ensure!(c.points <= 4.0 * base.points + 60.0 * size + 4000.0, format!("{what}:work:{}", name(call)), "{c:?} against {base:?} for {call:?}");
        ensure!(c.bytes <= 4.0 * base.bytes + 64.0 * size + 4096.0, format!("{what}:memory:{}", name(call)), "{c:?} against {base:?} for {call:?}");
        Ok(())
    };
    for op in &m.ops {
        if let MOp::Call { call, .. } = op {
            drop(fa.call(call, None, false));
            let old = cost(|| drop(fa.call(call, None, false)));
            check("history", call, old, lone(call))?;
            rep.u(old.points as u64);
        }
    }
    // One at the side of far larger ones.
    if p.big {
        let calls: Vec<&Call> = m.ops.iter().filter_map(|op| if let MOp::Call { call, .. } = op { Some(call) } else { None }).chain(&p.odd).filter(|c| !matches!(c, Call::Reset)).take(4).collect();
        let plain: Vec<Call> = calls
            .iter()
            .map(|c| {
                let mut c = (*c).clone();
                set_x(&mut c, vec![0.3; m.cfg.dim]);
                c
            })
            .collect();
        let before: Vec<Cost> = plain.iter().map(lone).collect();
        rt::refill(50 * STEPS);
        {
            let mut cfg = m.cfg.clone();
            cfg.basis = cfg.basis.inflated(cfg.dim);
            let mut giant = cfg.build();
            for c in &plain {
                drop(giant.call(c, None, false));
            }
        }
        rt::refill(STEPS);
        for (c, before) in plain.iter().zip(before) {
            let after = lone(c);
            ensure!(after.points <= 2.0 * before.points + 5.0 * size + 1000.0, format!("neighbour:work:{}", name(c)), "{before:?} before and {after:?} after a larger approximator was used, for {c:?}");
            ensure!(after.bytes <= 2.0 * before.bytes + 8.0 * size + 2048.0, format!("neighbour:memory:{}", name(c)), "{before:?} before and {after:?} after a larger approximator was used, for {c:?}");
            rep.u(after.points as u64);
        }
        rep.probe("a far larger one at the side");
    }
    // Values of any size.
    let mut r = Rng::new(m.key);
    for odd in &p.odd {
        let mut plain = odd.clone();
        let inside = (0..m.cfg.dim).map(|_| r.uniform(-0.9, 0.9)).collect();
        set_x(&mut plain, inside);
        let base = lone(&plain);
        let mut actual = odd.clone();
        if let Some(x) = odd.x() {
            set_x(&mut actual, crate::basis::actual(x));
        }
        // Not on the one with a history: what is no number stays in its weights.
        let c = {
            let mut new = m.cfg.build();
            let mut c = cost(|| drop(new.call(&actual, None, false)));
            let d = cost(|| drop(new.call(&actual, None, false)));
            c.points = c.points.max(d.points);
            c.bytes = c.bytes.max(d.bytes);
            c
        };
        rep.ops += 1;
        rep.u(c.points as u64);
        check("value", odd, c, base)?;
    }
    if p.endless {
        rep.probe("error sources without end");
    }
    Ok(())
}
