//! The search: workers over seeds, then minimisation and replay of what they find.
use crate::harness::{Prop, Rep, Violation};
use crate::rng::{seed_of, Rng};
use crate::{alloc, props, rt};
use serde_json::{json, Value};
use std::collections::HashSet;
use std::fs;
use std::io::Write;
use std::os::unix::fs::FileExt;
use std::os::unix::process::ExitStatusExt;
use std::path::{Path, PathBuf};
use std::process::{Child, Command, Stdio};
use std::time::{Duration, Instant};

fn arg<'a>(args: &'a [String], key: &str) -> Option<&'a str> { args.iter().position(|a| a == key).and_then(|i| args.get(i + 1)).map(|s| s.as_str()) }

fn num(args: &[String], key: &str, default: u64) -> u64 { arg(args, key).and_then(|s| s.parse().ok()).unwrap_or(default) }

fn prop(args: &[String]) -> Prop {
    let id = arg(args, "--property").unwrap_or("");
    props::all().into_iter().find(|p| p.id == id).unwrap_or_else(|| {
        eprintln!("no such property: {id}");
        std::process::exit(2)
    })
}

fn make_plan(p: &Prop, seed: u64, index: u64, thorough: bool) -> Value { (p.gen)(&mut Rng::new(seed_of(seed, p.id, index)), thorough) }

///////////////////////////////////////////////////////////////////////////////
// One plan in this process
///////////////////////////////////////////////////////////////////////////////
/// Exit 0: held. 1: violated, `CLASS <class>` and `DETAIL <detail>` on stdout.
/// 70: the harness failed. Anything else: the process died.
pub fn exec(args: &[String]) -> i32 {
    let file: Value = serde_json::from_str(&fs::read_to_string(&args[0]).expect("plan file")).expect("plan json");
    let id = file["property"].as_str().expect("property").to_string();
    let p = props::all().into_iter().find(|p| p.id == id).expect("property");
    // Runs that left something behind in the process.
    for plan in file["before"].as_array().into_iter().flatten() {
        let _ = crate::run_plan(&p, plan, &mut Rep::default());
    }
    let mut rep = Rep::default();
    match crate::run_plan(&p, &file["plan"], &mut rep) {
        Ok(Ok(())) => {
            println!("HELD trace={:016x} shape={:016x} steps={} faults={:?} probes={:?}", rep.trace, rep.shape, rep.steps, rep.faults, rep.probes);
            println!("REP {}", serde_json::to_string(&rep).unwrap());
            0
        },
        Ok(Err(v)) => {
            println!("CLASS {}", v.class);
            println!("DETAIL {}", v.detail.replace('\n', " "));
            println!("TRACE {:016x}", rep.trace);
            1
        },
        Err(m) => {
            println!("HARNESS {m}");
            70
        },
    }
}

enum Verdict {
    Held(Rep),
    Violated { class: String, detail: String },
    Harness(String),
}

fn died(st: std::process::ExitStatus, err: &str) -> Verdict {
    let err = err.trim().lines().last().unwrap_or("").to_string();
    let class = match (st.code(), st.signal()) {
        (Some(c), _) if c == rt::EXIT_DEADLOCK => "deadlock".to_string(),
        (Some(c), _) if c == rt::EXIT_STEPS => "no-progress".to_string(),
        (Some(c), _) if c == alloc::EXIT_MEMORY => "memory".to_string(),
        (_, Some(s)) if s == 9 || s == 15 => return Verdict::Harness(format!("killed by signal {s}")),
        (_, Some(s)) => format!("process-death-signal-{s}"),
        (Some(c), None) => return Verdict::Harness(format!("exit {c}: {err}")),
        _ => return Verdict::Harness("?".into()),
    };
    Verdict::Violated { class, detail: err }
}

fn exec_child(path: &Path) -> Verdict {
    let mut child = Command::new(std::env::current_exe().unwrap())
        .arg("exec")
        .arg(path)
        .stdout(Stdio::piped())
        .stderr(Stdio::piped())
        .spawn()
        .expect("spawn");
    let t = Instant::now();
    loop {
        match child.try_wait().expect("wait") {
            Some(_) => break,
            None if t.elapsed() > Duration::from_secs(120) => {
                let _ = child.kill();
                let _ = child.wait();
                return Verdict::Harness("a run took two minutes of real time".into());
            },
            None => std::thread::sleep(Duration::from_micros(500)),
        }
    }
    let out = child.wait_with_output().expect("output");
    let so = String::from_utf8_lossy(&out.stdout).to_string();
    match out.status.code() {
        Some(0) => match so.lines().find_map(|l| l.strip_prefix("REP ")).and_then(|l| serde_json::from_str(l).ok()) {
            Some(rep) => Verdict::Held(rep),
            None => Verdict::Harness(so),
        },
        Some(1) => Verdict::Violated {
            class: so.lines().find_map(|l| l.strip_prefix("CLASS ")).unwrap_or("?").to_string(),
            detail: so.lines().find_map(|l| l.strip_prefix("DETAIL ")).unwrap_or("").to_string(),
        },
        Some(70) => Verdict::Harness(so),
        _ => died(out.status, &String::from_utf8_lossy(&out.stderr)),
    }
}

pub fn replay(args: &[String]) -> i32 {
    let path = Path::new(&args[0]);
    let file: Value = serde_json::from_str(&fs::read_to_string(path).expect("replay file")).expect("json");
    let id = file["property"].as_str().unwrap_or("?");
    match exec_child(path) {
        Verdict::Held(_) => {
            println!("HELD property={id}");
            0
        },
        Verdict::Violated { class, detail } => {
            println!("class={class}");
            println!("{detail}");
            println!("VIOLATION property={id} replay={}", path.display());
            1
        },
        Verdict::Harness(m) => {
            eprintln!("harness error: {m}");
            2
        },
    }
}

pub fn show_plan(args: &[String]) -> i32 {
    let p = prop(args);
    let plan = make_plan(&p, num(args, "--seed", 1), num(args, "--index", 0), arg(args, "--tier") == Some("thorough"));
    println!("{}", serde_json::to_string_pretty(&json!({"property": p.id, "plan": plan})).unwrap());
    0
}

/// Trace hashes of a range of seeds, one line each: for determinism diffs.
pub fn trace(args: &[String]) -> i32 {
    let p = prop(args);
    let seed = num(args, "--seed", 1);
    for i in num(args, "--from", 0)..num(args, "--to", 100) {
        let plan = make_plan(&p, seed, i, arg(args, "--tier") == Some("thorough"));
        let mut rep = Rep::default();
        let r = crate::run_plan(&p, &plan, &mut rep);
        println!("{} {i} {:016x} {:016x} steps={} {}", p.id, rep.trace, rep.shape, rep.steps, match r {
            Ok(Ok(())) => "held".to_string(),
            Ok(Err(v)) => format!("violated {} {}", v.class, v.detail),
            Err(m) => format!("harness {m}"),
        });
    }
    0
}

///////////////////////////////////////////////////////////////////////////////
// Worker
///////////////////////////////////////////////////////////////////////////////
pub fn worker(args: &[String]) -> i32 {
    let p = prop(args);
    let seed = num(args, "--seed", 1);
    let (from, stride, count) = (num(args, "--from", 0), num(args, "--stride", 1), num(args, "--count", 0));
    let thorough = arg(args, "--tier") == Some("thorough");
    let budget = Duration::from_secs(num(args, "--seconds", 600));
    let dir = PathBuf::from(arg(args, "--dir").unwrap());
    let progress = fs::File::create(dir.join(format!("progress-{}", num(args, "--id", 0)))).unwrap();
    let stop = dir.join("stop");
    let t = Instant::now();

    let mut total = Rep::default();
    let mut runs = 0u64;
    let mut nontrivial = 0u64;
    let mut shapes: HashSet<u64> = HashSet::new();
    let mut traces: Vec<u64> = Vec::new();
    let mut found: Option<Value> = None;
    let mut i = from;
    while i < count {
        if runs % 32 == 0 {
            if t.elapsed() > budget {
                break;
            }
            if let Ok(s) = fs::read_to_string(&stop) {
                if s.trim().parse::<u64>().map_or(false, |k| i > k) {
                    break;
                }
            }
        }
        let _ = progress.write_at(&i.to_le_bytes(), 0);
        let plan = make_plan(&p, seed, i, thorough);
        let mut rep = Rep::default();
        let ran = if plan["cold"] == json!(true) {
            // In a process that has called nothing yet.
            let path = dir.join(format!("cold-{}", num(args, "--id", 0)));
            fs::write(&path, json!({"property": p.id, "plan": plan}).to_string()).unwrap();
            match exec_child(&path) {
                Verdict::Held(r) => {
                    rep = r;
                    rep.probe("runs in a fresh process");
                    Ok(Ok(()))
                },
                Verdict::Violated { class, detail } => Ok(Err(Violation { class, detail })),
                Verdict::Harness(m) => Err(m),
            }
        } else {
            crate::run_plan(&p, &plan, &mut rep)
        };
        match ran {
            Ok(Ok(())) => {},
            Ok(Err(v)) => {
                found = Some(json!({"index": i, "class": v.class, "detail": v.detail}));
                let _ = fs::write(&stop, i.to_string());
                break;
            },
            Err(m) => {
                println!("harness error at index {i}: {m}");
                return 70;
            },
        }
        runs += 1;
        let fired: u64 = rep.faults.values().sum();
        if fired > 0 {
            nontrivial += 1;
        }
        shapes.insert(rep.shape);
        traces.push(if fired > 0 { rep.trace } else { 0 });
        total.absorb(&rep);
        i += stride;
    }
    let stats = json!({
        "runs": runs, "nontrivial": nontrivial, "ops": total.ops, "steps": total.steps, "sim_time": total.sim_time,
        "faults": total.faults, "probes": total.probes, "found": found,
    });
    let id = num(args, "--id", 0);
    let dump = |name: &str, it: &mut dyn Iterator<Item = u64>| {
        let bytes: Vec<u8> = it.flat_map(|v| v.to_le_bytes()).collect();
        fs::write(dir.join(format!("{name}-{id}")), bytes).unwrap();
    };
    dump("shapes", &mut shapes.iter().copied());
    dump("traces", &mut traces.iter().copied().filter(|t| *t != 0));
    fs::write(dir.join(format!("stats-{id}")), stats.to_string()).unwrap();
    0
}

///////////////////////////////////////////////////////////////////////////////
// Parent
///////////////////////////////////////////////////////////////////////////////
struct Found {
    index: u64,
    class: String,
    detail: String,
}

fn verif() -> PathBuf { PathBuf::from(std::env::var("VERIF_DIR").unwrap_or_else(|_| env!("CARGO_MANIFEST_DIR").to_string() + "/..")) }

fn read_u64s(path: &Path) -> Vec<u64> { fs::read(path).unwrap_or_default().chunks_exact(8).map(|c| u64::from_le_bytes(c.try_into().unwrap())).collect() }

pub fn check(args: &[String]) -> i32 {
    let p = prop(args);
    let env = |k: &str| std::env::var(k).ok();
    let seed: u64 = env("VERIF_SEED").and_then(|s| s.parse().ok()).unwrap_or(1);
    let tier = if env("VERIF_TIER").as_deref() == Some("thorough") || arg(args, "--tier") == Some("thorough") { "thorough" } else { "quick" };
    let thorough = tier == "thorough";
    let workers = num(args, "--workers", std::thread::available_parallelism().map_or(8, |n| n.get() as u64).min(8));
    let count = num(args, "--runs", if thorough { p.thorough } else { p.quick });
    let seconds = num(args, "--seconds", if thorough { 1500 } else { 150 });
    let t0 = Instant::now();
    println!("property={} seed={seed} tier={tier} runs={count} workers={workers}", p.id);

    let dir = verif().join("sim/target/work").join(format!("{}-{}", p.id, std::process::id()));
    fs::create_dir_all(&dir).expect("work directory");

    let spawn = |id: u64, from: u64| -> Child {
        Command::new(std::env::current_exe().unwrap())
            .args(["worker", "--property", p.id, "--tier", tier, "--dir"])
            .arg(&dir)
            .args(["--seed", &seed.to_string(), "--id", &id.to_string(), "--from", &from.to_string()])
            .args(["--stride", &workers.to_string(), "--count", &count.to_string(), "--seconds", &seconds.to_string()])
            .stdout(Stdio::piped())
            .stderr(Stdio::piped())
            .spawn()
            .expect("worker")
    };
    let children: Vec<Child> = (0..workers).map(|w| spawn(w, w)).collect();
    // Watchdog: the simulator bounds runs by steps; real time is a backstop.
    let pids: Vec<u32> = children.iter().map(|c| c.id()).collect();
    let done = std::sync::Arc::new(std::sync::atomic::AtomicBool::new(false));
    {
        let done = done.clone();
        let limit = Duration::from_secs(seconds + 120);
        std::thread::spawn(move || {
            let t = Instant::now();
            while !done.load(std::sync::atomic::Ordering::Relaxed) {
                std::thread::sleep(Duration::from_millis(200));
                if t.elapsed() > limit {
                    for pid in &pids {
                        let _ = Command::new("kill").args(["-9", &pid.to_string()]).status();
                    }
                    return;
                }
            }
        });
    }

    let mut found: Vec<Found> = Vec::new();
    let mut errors: Vec<String> = Vec::new();
    let mut agg = Rep::default();
    let mut runs = 0;
    for (w, child) in children.into_iter().enumerate() {
        let out = child.wait_with_output().expect("worker output");
        if out.status.success() {
            let s: Value = serde_json::from_str(&fs::read_to_string(dir.join(format!("stats-{w}"))).expect("stats")).expect("stats");
            runs += s["runs"].as_u64().unwrap();
            agg.ops += s["ops"].as_u64().unwrap();
            agg.steps += s["steps"].as_u64().unwrap();
            agg.sim_time += s["sim_time"].as_u64().unwrap();
            for (from, to) in [(&s["faults"], &mut agg.faults), (&s["probes"], &mut agg.probes)] {
                for (k, n) in from.as_object().unwrap() {
                    *to.entry(k.clone()).or_insert(0) += n.as_u64().unwrap();
                }
            }
            if let Some(f) = s["found"].as_object() {
                found.push(Found {
                    index: f["index"].as_u64().unwrap(),
                    class: f["class"].as_str().unwrap().into(),
                    detail: f["detail"].as_str().unwrap().into(),
                });
            }
        } else {
            let index = read_u64s(&dir.join(format!("progress-{w}"))).first().copied().unwrap_or(0);
            if out.status.code() == Some(70) {
                errors.push(String::from_utf8_lossy(&out.stdout).to_string());
                continue;
            }
            match died(out.status, &String::from_utf8_lossy(&out.stderr)) {
                Verdict::Violated { class, detail } => {
                    runs += 1;
                    found.push(Found { index, class, detail })
                },
                Verdict::Harness(m) => errors.push(format!("worker {w} at index {index}: {m}")),
                Verdict::Held(_) => {},
            }
        }
    }
    done.store(true, std::sync::atomic::Ordering::Relaxed);

    let mut shapes: HashSet<u64> = HashSet::new();
    let mut traces: HashSet<u64> = HashSet::new();
    for w in 0..workers {
        shapes.extend(read_u64s(&dir.join(format!("shapes-{w}"))));
        traces.extend(read_u64s(&dir.join(format!("traces-{w}"))));
    }

    found.sort_by_key(|f| f.index);
    let mut violations = 0;
    let mut code = 0;
    if let Some(f) = found.first() {
        let plan = make_plan(&p, seed, f.index, thorough);
        println!("index {} breaks the property: {}: {}", f.index, f.class, f.detail);
        match report(&p, seed, f, plan, &|k| make_plan(&p, seed, k, thorough), workers, &dir) {
            Ok(path) => {
                violations = 1;
                println!("VIOLATION property={} replay={}", p.id, path.display());
                code = 1;
            },
            Err(e) => {
                errors.push(e);
            },
        }
    }
    let wall = t0.elapsed().as_secs_f64();
    if code == 0 && !errors.is_empty() {
        for e in &errors {
            eprintln!("harness error: {e}");
        }
        code = 2;
    }

    let samples: Vec<Value> = (0..2).map(|i| clip(json!({"index": i, "plan": make_plan(&p, seed, i, thorough)}))).collect();
    let evidence = json!({
        "property": p.id, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": violations,
        "coverage": {
            "evaluations": runs,
            "distinct_nontrivial": traces.len(),
            "rule": p.rule,
            "samples": samples,
            "distinct_fault_and_schedule_shapes": shapes.len(),
            "operations": agg.ops,
            "simulated_steps": agg.steps,
            "simulated_time": if agg.sim_time > 0 { json!(agg.sim_time) } else { json!("no clock in this property") },
            "runs_per_hour": (runs as f64 / wall.max(1e-3) * 3600.0) as u64,
            "faults_fired": agg.faults,
            "probes": agg.probes,
            "real_components": p.real,
            "stub_components": p.stub,
            "workers": workers,
        },
        "assumptions": p.assumptions,
    });
    let _ = fs::create_dir_all(verif().join("evidence"));
    fs::write(verif().join("evidence").join(format!("{}.json", p.id)), serde_json::to_string_pretty(&evidence).unwrap()).expect("evidence");
    let _ = fs::remove_dir_all(&dir);
    println!("runs={runs} distinct_nontrivial={} shapes={} faults={} wall={wall:.1}s", traces.len(), shapes.len(), agg.faults.values().sum::<u64>());
    code
}

fn clip(v: Value) -> Value {
    let s = v.to_string();
    if s.len() > 6000 {
        json!(format!("{}... ({} bytes)", s.chars().take(6000).collect::<String>(), s.len()))
    } else {
        v
    }
}

/// Confirm in a fresh process, minimise, write the replay file, and confirm that.
fn report(p: &Prop, seed: u64, f: &Found, plan: Value, plan_of: &dyn Fn(u64) -> Value, stride: u64, dir: &Path) -> Result<PathBuf, String> {
    let write = |path: &Path, file: &Value, extra: Value| {
        let mut v = file.clone();
        for (k, x) in [("property", json!(p.id)), ("seed", json!(seed)), ("index", json!(f.index)), ("found", extra)] {
            v[k] = x;
        }
        fs::write(path, serde_json::to_string_pretty(&v).unwrap()).expect("replay file");
    };
    let tmp = dir.join("candidate.json");
    // Alone, or else after the runs that went before it in its process: code
    // that keeps something in statics carries it from one to the next.
    let mut file = json!({"before": [], "plan": plan});
    let mut back = 0;
    let class = loop {
        write(&tmp, &file, json!(null));
        match exec_child(&tmp) {
            Verdict::Violated { class, .. } => break class,
            Verdict::Held(_) => {},
            Verdict::Harness(m) => return Err(m),
        }
        let all = f.index / stride;
        if back >= all {
            return Err(format!("index {} broke the property in a worker ({}) but neither alone nor after the same runs: the simulator is not deterministic", f.index, f.class));
        }
        back = (back * 4).max(1).min(all);
        file["before"] = (1..=back).rev().map(|k| plan_of(f.index - k * stride)).collect();
    };
    let small = shrink(p, file, &class, dir);
    let out = verif().join("replays");
    fs::create_dir_all(&out).map_err(|e| e.to_string())?;
    let path = out.join(format!("{}-seed{}-index{}.json", p.id, seed, f.index));
    write(&path, &small, json!(null));
    match exec_child(&path) {
        Verdict::Violated { class: c, detail } if c == class => {
            println!("class={c}");
            println!("{detail}");
            write(&path, &small, json!({"class": c, "detail": detail}));
            Ok(path)
        },
        _ => Err("the minimised plan does not reproduce".into()),
    }
}

///////////////////////////////////////////////////////////////////////////////
// Minimisation, on the JSON of the plan
///////////////////////////////////////////////////////////////////////////////
fn paths(v: &Value, at: &mut Vec<String>, out: &mut Vec<(Vec<String>, Value)>) {
    out.push((at.clone(), v.clone()));
    match v {
        Value::Array(a) => {
            for (i, x) in a.iter().enumerate() {
                at.push(i.to_string());
                paths(x, at, out);
                at.pop();
            }
        },
        Value::Object(o) => {
            for (k, x) in o {
                at.push(k.clone());
                paths(x, at, out);
                at.pop();
            }
        },
        _ => {},
    }
}

fn pointer(at: &[String]) -> String { at.iter().map(|k| format!("/{k}")).collect() }

fn with(plan: &Value, at: &[String], new: Value) -> Option<Value> {
    let mut p = plan.clone();
    *p.pointer_mut(&pointer(at))? = new;
    Some(p)
}

fn candidates(plan: &Value, round: usize) -> Vec<Value> {
    let mut all = Vec::new();
    paths(plan, &mut Vec::new(), &mut all);
    // Of runs that went before, only whether they are needed.
    all.retain(|(at, _)| at.len() < 2 || at[0] != "before");
    let mut out = Vec::new();
    let last = |at: &Vec<String>| at.last().cloned().unwrap_or_default();
    if round == 0 {
        // Fewer operations, shorter schedules, big pieces first.
        for (at, v) in &all {
            if let Value::Array(a) = v {
                if ["before", "ops", "sched", "more", "threads", "jobs"].contains(&last(at).as_str()) {
                    let mut size = a.len();
                    while size >= 1 {
                        let mut i = 0;
                        while i < a.len() {
                            let mut b = a.clone();
                            b.drain(i..(i + size).min(a.len()));
                            out.extend(with(plan, at, Value::Array(b)));
                            i += size;
                        }
                        size /= 2;
                    }
                }
            }
        }
    } else {
        for (at, v) in &all {
            let key = last(at);
            match v {
                Value::Object(o) if o.len() == 1 => {
                    let (k, inner) = o.iter().next().unwrap();
                    match (k.as_str(), inner) {
                        ("Stack", Value::Array(a)) if a.len() == 2 => {
                            out.extend(with(plan, at, a[0].clone()));
                            out.extend(with(plan, at, a[1].clone()));
                        },
                        ("Norm", Value::Array(a)) if a.len() == 2 => out.extend(with(plan, at, a[1].clone())),
                        ("Biased", a) => out.extend(with(plan, at, a.clone())),
                        _ => {},
                    }
                },
                _ => {},
            }
            if key == "fault" && !v.is_null() {
                out.extend(with(plan, at, Value::Null));
            }
            let numeric = at.iter().rev().take(2).any(|k| ["x", "e", "t", "v", "scale", "alpha", "take", "layout", "outputs", "w0", "form", "style", "quantum", "pick"].contains(&k.as_str()));
            if numeric {
                if let Some(u) = v.as_u64() {
                    for c in [0, 1, u / 2] {
                        if c < u {
                            out.extend(with(plan, at, json!(c)));
                        }
                    }
                } else if let Some(x) = v.as_f64() {
                    for c in [1.0, 0.5, 2.0, (x * 8.0).round() / 8.0] {
                        if c != x && x != 1.0 && (x != 0.5 || c == 1.0) && c != 0.0 {
                            out.extend(with(plan, at, json!(c)));
                        }
                    }
                }
            }
            if let (Value::Array(a), true) = (v, ["v", "e", "t"].contains(&key.as_str())) {
                if a.len() > 1 {
                    out.extend(with(plan, at, Value::Array(a[..a.len() - 1].to_vec())));
                    out.extend(with(plan, at, Value::Array(a[1..].to_vec())));
                }
            }
        }
    }
    out
}

fn shrink(p: &Prop, mut file: Value, class: &str, dir: &Path) -> Value {
    let t = Instant::now();
    let budget = Duration::from_secs(25);
    let lanes = 8;
    for _ in 0..400 {
        let mut better = None;
        'rounds: for round in 0..2 {
            let cs = candidates(&file, round);
            for chunk in cs.chunks(lanes) {
                if t.elapsed() > budget {
                    return file;
                }
                let hits: Vec<bool> = std::thread::scope(|s| {
                    let hs: Vec<_> = chunk
                        .iter()
                        .enumerate()
                        .map(|(i, c)| {
                            let path = dir.join(format!("shrink-{i}.json"));
                            fs::write(&path, json!({"property": p.id, "before": c["before"], "plan": c["plan"]}).to_string()).unwrap();
                            s.spawn(move || matches!(exec_child(&path), Verdict::Violated { class: c, .. } if c == class))
                        })
                        .collect();
                    hs.into_iter().map(|h| h.join().unwrap()).collect()
                });
                if let Some(i) = hits.iter().position(|h| *h) {
                    better = Some(chunk[i].clone());
                    break 'rounds;
                }
            }
        }
        match better {
            Some(b) => file = b,
            None => break,
        }
    }
    let _ = std::io::stdout().flush();
    file
}

