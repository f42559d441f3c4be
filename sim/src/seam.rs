//! Everything the library calls back into passes through here: bases, kernels,
//! hashers, input and error iterators, callbacks and optimisers. A seam event
//! is where a fault of the current operation may fire.
use serde::{Deserialize, Serialize};
use std::cell::{Cell, RefCell};
use std::collections::BTreeMap;
use std::rc::Rc;
use std::sync::{Arc, Mutex};

/// A fault injected into one operation. The places are given as a fraction of
/// what a dry run of the operation shows to be there, so that it always fires.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq)]
pub enum Fault {
    /// A node of the basis returns an error.
    NodeErr(u32),
    /// Caller code panics at some seam event.
    Panic(u32),
    /// The optimiser reports an error on these of its calls (bit mask).
    OptErr(u32),
    /// The optimiser reports an error on one of its calls.
    OptAt(u32),
    /// A node of the basis fails however often it is asked. Nothing is tried
    /// out first: whoever does not ask it does not see it fail.
    Down(u32),
}

#[derive(Clone, Copy, Debug, PartialEq, Eq, PartialOrd, Ord)]
pub enum Seam {
    Node,
    Input,
    Kernel,
    Hasher,
    Callback,
    ErrorIter,
    /// A function mapping, merging or folding activations, or an iterator of
    /// them.
    Function,
    OptBefore,
    OptAfter,
    /// A component being cloned.
    Clone,
    /// Something of the caller's that the library was given, being dropped.
    Gone,
}

thread_local! {
    static DROPS: std::cell::Cell<bool> = const { std::cell::Cell::new(true) };
}

pub fn drops_panic(on: bool) { DROPS.with(|d| d.set(on)) }

/// Part of what the caller hands over.
#[derive(Clone, Debug)]
pub struct Gone;

impl Drop for Gone {
    fn drop(&mut self) {
        // Two panics at once end the process, whoever is at fault.
        if !std::thread::panicking() && DROPS.try_with(|d| d.get()).unwrap_or(false) {
            event(Seam::Gone);
        }
    }
}

/// What actually fires, resolved from a `Fault` by a dry run.
#[derive(Clone, Debug, PartialEq)]
pub enum Armed {
    NodeErr(u64),
    /// At the n-th event of a kind.
    Panic(Seam, u64),
    OptErr(u32),
    OptAt(u64),
    /// Every visit to the node with this id.
    Down(u32),
}

#[derive(Clone, Debug)]
pub struct OptCall {
    pub before: Vec<f64>,
    pub scale: f64,
    pub failed: bool,
    pub err: Option<lfa::Error>,
}

#[derive(Default)]
struct Ctx {
    on: bool,
    armed: Option<Armed>,
    events: u64,
    nodes: u64,
    opts: u64,
    kinds: BTreeMap<Seam, u64>,
    fired: Option<String>,
    node_error: Option<lfa::Error>,
    opt_calls: Vec<OptCall>,
    log_opts: bool,
    nested: u32,
    /// Who asked whom for what, when that is of interest.
    asked: Option<Vec<Asked>>,
    open: Option<usize>,
}

#[derive(Clone, Debug)]
pub enum Answer {
    All(lfa::Features),
    One(f64),
}

/// A basis asked for its features, or one of them.
#[derive(Clone, Debug)]
pub struct Asked {
    pub id: u32,
    /// By which of the questions before it.
    pub by: Option<usize>,
    pub index: Option<usize>,
    pub x: Vec<f64>,
    pub answer: Option<Answer>,
    /// Kernels it asked: for which points, and what they said.
    pub kernels: Vec<(Vec<f64>, Vec<f64>, f64)>,
}

pub fn kernel_said(x: &[f64], y: &[f64], v: f64) {
    ctx(|c| {
        let mut c = c.borrow_mut();
        let Some(k) = c.open else { return };
        if let Some(asked) = c.asked.as_mut() {
            asked[k].kernels.push((x.to_vec(), y.to_vec(), v));
        }
    })
}

/// From `begin` to `end`, take down who asks whom.
pub fn take_down() { ctx(|c| c.borrow_mut().asked = Some(Vec::new())) }

pub fn ask(id: u32, index: Option<usize>, x: &[f64]) -> Option<usize> {
    ctx(|c| {
        let mut c = c.borrow_mut();
        let by = c.open;
        let asked = c.asked.as_mut()?;
        let k = asked.len();
        asked.push(Asked { id, by, index, x: x.to_vec(), answer: None, kernels: Vec::new() });
        c.open = Some(k);
        Some(k)
    })
}

pub fn answer(k: usize, a: Answer) {
    ctx(|c| {
        let mut c = c.borrow_mut();
        let Some(asked) = c.asked.as_mut() else { return };
        asked[k].answer = Some(a);
        let by = asked[k].by;
        c.open = by;
    })
}

/// Caller code that, called back in the middle of one operation, performs
/// others.
struct Guest {
    visit: Rc<dyn Fn()>,
    /// Which events it visits.
    seed: u64,
    every: u64,
}

thread_local! {
    static GUEST: RefCell<Option<Guest>> = const { RefCell::new(None) };
    static CTX: RefCell<Ctx> = RefCell::new(Ctx::default());
    static PANIC_MSG: RefCell<String> = const { RefCell::new(String::new()) };
}

/// What one operation did at its seams.
#[derive(Clone, Debug, Default)]
pub struct Seen {
    pub events: u64,
    pub nodes: u64,
    pub opts: u64,
    pub kinds: BTreeMap<Seam, u64>,
    pub fired: Option<String>,
    pub node_error: Option<lfa::Error>,
    pub opt_calls: Vec<OptCall>,
    /// Operations of a guest in the middle of this one.
    pub nested: u32,
    pub asked: Vec<Asked>,
}

pub struct SimPanic;

thread_local! {
    static INSTRUMENT: RefCell<Option<Arc<Mutex<()>>>> = const { RefCell::new(None) };
    static HOLDING: Cell<bool> = const { Cell::new(false) };
}

/// Caller code of this thread uses an instrument it shares with that of other
/// threads: for a moment whenever it is called back, unless it has it already.
pub fn instrument(m: Option<Arc<Mutex<()>>>) { INSTRUMENT.with(|i| *i.borrow_mut() = m) }

pub struct Holding<T>(#[allow(dead_code)] T);

impl<T> Drop for Holding<T> {
    fn drop(&mut self) { HOLDING.with(|h| h.set(false)) }
}

/// Do `f` with the instrument in hand throughout.
pub fn holding<T>(f: impl FnOnce() -> T) -> T {
    let Some(m) = INSTRUMENT.with(|i| i.borrow().clone()) else { return f() };
    let guard = m.lock().unwrap_or_else(|e| e.into_inner());
    HOLDING.with(|h| h.set(true));
    let _h = Holding(guard);
    f()
}

fn touch(kind: Seam) {
    if HOLDING.try_with(|h| h.get()).unwrap_or(true) || !matches!(kind, Seam::Node | Seam::Kernel | Seam::Hasher | Seam::Callback | Seam::Function) {
        return;
    }
    if let Some(m) = INSTRUMENT.with(|i| i.borrow().clone()) {
        drop(m.lock());
    }
}

/// Until the value returned goes away, `visit` is called at some events.
pub fn host(seed: u64, every: u64, visit: Rc<dyn Fn()>) -> Hosting {
    GUEST.with(|g| *g.borrow_mut() = Some(Guest { visit, seed, every: every.max(1) }));
    Hosting
}

pub struct Hosting;

impl Drop for Hosting {
    fn drop(&mut self) {
        let _ = GUEST.try_with(|g| g.borrow_mut().take());
    }
}

/// At most this many in one operation.
const VISITS: u32 = 3;

fn visit() {
    let guest = crate::rt::uncounted(|| {
        let g = GUEST.with(|g| g.borrow().as_ref().map(|g| (g.visit.clone(), g.seed, g.every)))?;
        CTX.with(|c| {
            let mut c = c.borrow_mut();
            if !c.on || c.nested >= VISITS || crate::rng::mix(g.1 ^ c.events) % g.2 != 0 {
                return None;
            }
            c.nested += 1;
            Some(g.0)
        })
    });
    if let Some(v) = guest {
        // The guest's own operations are no events of this one.
        let host = CTX.with(|c| std::mem::take(&mut *c.borrow_mut()));
        let guest = GUEST.with(|g| g.borrow_mut().take());
        v();
        GUEST.with(|g| *g.borrow_mut() = guest);
        CTX.with(|c| *c.borrow_mut() = host);
    }
}

/// Bookkeeping of the simulator takes no time and is never pre-empted.
fn ctx<T>(f: impl FnOnce(&RefCell<Ctx>) -> T) -> T { crate::rt::uncounted(|| CTX.with(f)) }

pub fn begin(armed: Option<Armed>, log_opts: bool) {
    ctx(|c| {
        *c.borrow_mut() = Ctx {
            on: true,
            armed,
            log_opts,
            ..Ctx::default()
        }
    })
}

pub fn end() -> Seen {
    ctx(|c| {
        let mut c = c.borrow_mut();
        c.on = false;
        let c = std::mem::take(&mut *c);
        Seen {
            events: c.events,
            nodes: c.nodes,
            opts: c.opts,
            kinds: c.kinds,
            fired: c.fired,
            node_error: c.node_error,
            opt_calls: c.opt_calls,
            nested: c.nested,
            asked: c.asked.unwrap_or_default(),
        }
    })
}

/// A seam event: counts, and panics if that is what the plan says.
pub fn event(kind: Seam) {
    let fire = ctx(|c| {
        let mut c = c.borrow_mut();
        if !c.on {
            return false;
        }
        c.events += 1;
        let n = c.kinds.entry(kind).or_insert(0);
        *n += 1;
        let n = *n - 1;
        if c.armed == Some(Armed::Panic(kind, n)) {
            c.fired = Some(format!("panic@{kind:?}"));
            true
        } else {
            false
        }
    });
    if fire {
        std::panic::resume_unwind(Box::new(SimPanic));
    }
    touch(kind);
    visit();
}

/// Errors of all kinds; those without a constructor come out of storage.
fn some_error(i: usize, n: usize) -> lfa::Error {
    let kind = match (i + 3 * n) % 5 {
        0 => "Basis",
        1 => "Evaluation",
        2 => "Optimisation",
        _ => return lfa::Error::index_error(i, n),
    };
    let message = if n % 4 == 3 { String::new() } else { format!("error {i} {n}") };
    serde_json::from_value(serde_json::json!({"kind": kind, "message": message})).unwrap_or_else(|_| lfa::Error::index_error(i, n))
}

/// A visit to a node of the basis: may return the error it shall report.
pub fn node(id: u32) -> Result<(), lfa::Error> {
    event(Seam::Node);
    ctx(|c| {
        let mut c = c.borrow_mut();
        if !c.on {
            return Ok(());
        }
        let n = c.nodes;
        c.nodes += 1;
        if c.armed == Some(Armed::NodeErr(n)) {
            c.fired = Some("node_err".to_string());
            let e = some_error(7_000_000 + id as usize, n as usize);
            c.node_error = Some(e.clone());
            return Err(e);
        }
        if c.armed == Some(Armed::Down(id)) {
            c.fired = Some("node_down".to_string());
            let e = some_error(6_000_000 + id as usize, id as usize);
            c.node_error = Some(e.clone());
            return Err(e);
        }
        Ok(())
    })
}

/// A call of the optimiser. `Err` when it shall fail.
pub fn opt_before(weights: impl FnOnce() -> Vec<f64>, scale: f64) -> Result<(), lfa::Error> {
    event(Seam::OptBefore);
    ctx(|c| {
        let mut c = c.borrow_mut();
        if !c.on {
            return Ok(());
        }
        let n = c.opts;
        c.opts += 1;
        let mut err = None;
        let fails = match c.armed {
            Some(Armed::OptErr(mask)) => n < 32 && mask >> n & 1 == 1,
            Some(Armed::OptAt(at)) => n == at,
            _ => false,
        };
        if fails {
            err = Some(some_error(8_000_000 + n as usize, n as usize));
            c.fired = Some("opt_err".to_string());
        }
        if c.log_opts {
            let call = OptCall { before: weights(), scale, failed: err.is_some(), err: err.clone() };
            c.opt_calls.push(call);
        }
        match err {
            Some(e) => Err(e),
            None => Ok(()),
        }
    })
}

pub fn opt_after() { event(Seam::OptAfter) }

/// How a call ended.
#[derive(Debug)]
pub enum Caught {
    /// By the injected panic.
    Sim,
    /// By a panic of the code under test.
    Real(String),
}

pub fn install_hook() {
    std::panic::set_hook(Box::new(|info| {
        let msg = if let Some(s) = info.payload().downcast_ref::<&str>() {
            s.to_string()
        } else if let Some(s) = info.payload().downcast_ref::<String>() {
            s.clone()
        } else {
            "?".to_string()
        };
        let at = info.location().map(|l| format!("{}:{}", l.file(), l.line())).unwrap_or_default();
        let _ = PANIC_MSG.try_with(|m| *m.borrow_mut() = format!("{msg} at {at}"));
    }));
}

pub fn last_panic() -> String { PANIC_MSG.with(|m| m.borrow().clone()) }

pub fn catch<T>(f: impl FnOnce() -> T) -> Result<T, Caught> {
    match std::panic::catch_unwind(std::panic::AssertUnwindSafe(f)) {
        Ok(v) => Ok(v),
        Err(p) if p.is::<SimPanic>() => Err(Caught::Sim),
        Err(_) => Err(Caught::Real(last_panic())),
    }
}

/// Resolve a fault against what a dry run saw.
pub fn resolve(f: &Fault, dry: &Seen) -> Option<Armed> {
    match f {
        Fault::NodeErr(r) if dry.nodes > 0 => Some(Armed::NodeErr(*r as u64 % dry.nodes)),
        Fault::Panic(r) if dry.events > 0 => {
            // The kind of seam first: rare kinds would drown otherwise.
            let k = dry.kinds.len() as u64;
            let (kind, n) = dry.kinds.iter().nth((*r as u64 % k) as usize).unwrap();
            Some(Armed::Panic(*kind, *r as u64 / k % n))
        },
        Fault::OptErr(m) if dry.opts > 0 => Some(Armed::OptErr(*m)),
        Fault::OptAt(r) if dry.opts > 0 => Some(Armed::OptAt(*r as u64 % dry.opts)),
        Fault::Down(id) => Some(Armed::Down(*id)),
        _ => None,
    }
}
