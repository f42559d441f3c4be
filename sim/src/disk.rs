//! Simulated storage: data formats, streams that fail, and a disk that loses
//! what was not made durable.
use crate::rng::Rng;
use serde::{de::DeserializeOwned, Deserialize, Serialize};
use std::cell::Cell;
use std::collections::BTreeMap;
use std::io::{self, Read, Write};
use std::rc::Rc;

#[derive(Clone, Copy, Debug, Serialize, Deserialize, PartialEq, Eq)]
pub enum Codec {
    Bin,
    Json,
    Cbor,
}

pub const CODECS: [Codec; 3] = [Codec::Bin, Codec::Json, Codec::Cbor];

const LIMIT: u64 = 1 << 22;

impl Codec {
    pub fn random(r: &mut Rng) -> Codec { *r.pick(&CODECS) }

    pub fn save<T: Serialize, W: Write>(self, v: &T, w: W) -> Result<(), String> {
        use bincode::Options;
        match self {
            Codec::Bin => bincode::DefaultOptions::new().with_limit(LIMIT).serialize_into(w, v).map_err(|e| e.to_string()),
            Codec::Json => serde_json::to_writer(w, v).map_err(|e| e.to_string()),
            Codec::Cbor => ciborium::into_writer(v, w).map_err(|e| e.to_string()),
        }
    }

    pub fn load<T: DeserializeOwned, R: Read>(self, r: R) -> Result<T, String> {
        use bincode::Options;
        match self {
            Codec::Bin => bincode::DefaultOptions::new().with_limit(LIMIT).deserialize_from(r).map_err(|e| e.to_string()),
            Codec::Json => serde_json::from_reader(r).map_err(|e| e.to_string()),
            Codec::Cbor => ciborium::from_reader(r).map_err(|e| e.to_string()),
        }
    }

    pub fn to_vec<T: Serialize>(self, v: &T) -> Result<Vec<u8>, String> {
        let mut out = Vec::new();
        self.save(v, &mut out)?;
        Ok(out)
    }

    pub fn from_slice<T: DeserializeOwned>(self, b: &[u8]) -> Result<T, String> { self.load(b) }
}

///////////////////////////////////////////////////////////////////////////////
// Streams
///////////////////////////////////////////////////////////////////////////////
/// How a stream misbehaves. Offsets are in bytes.
#[derive(Clone, Debug, Serialize, Deserialize, PartialEq, Default)]
pub struct StreamPlan {
    /// Seed of short transfers and interruptions; 0: none.
    pub chop: u64,
    /// A hard error once this many bytes went through.
    pub fail_at: Option<u32>,
    /// 0 EIO, 1 ENOSPC, 2 timed out, 3 connection reset, 4 would block.
    pub kind: u8,
}

fn hard(kind: u8) -> io::Error {
    match kind % 5 {
        0 => io::Error::from_raw_os_error(5),
        1 => io::Error::from_raw_os_error(28),
        2 => io::ErrorKind::TimedOut.into(),
        3 => io::ErrorKind::ConnectionReset.into(),
        _ => io::ErrorKind::WouldBlock.into(),
    }
}

/// What a stream did: fault kinds that fired.
#[derive(Clone, Default)]
pub struct Fired(pub Rc<Cell<(u64, u64, u64)>>);

impl Fired {
    fn short(&self) { let (a, b, c) = self.0.get(); self.0.set((a + 1, b, c)) }

    fn intr(&self) { let (a, b, c) = self.0.get(); self.0.set((a, b + 1, c)) }

    fn hard(&self) { let (a, b, c) = self.0.get(); self.0.set((a, b, c + 1)) }

    pub fn get(&self) -> (u64, u64, u64) { self.0.get() }
}

pub struct Faulty<S> {
    pub inner: S,
    plan: StreamPlan,
    rng: Rng,
    done: u64,
    intr: bool,
    fired: Fired,
}

impl<S> Faulty<S> {
    pub fn new(inner: S, plan: &StreamPlan) -> (Faulty<S>, Fired) {
        let fired = Fired::default();
        (Faulty { inner, plan: plan.clone(), rng: Rng::new(plan.chop), done: 0, intr: false, fired: fired.clone() }, fired)
    }

    /// How many bytes of `n` may pass now.
    fn allow(&mut self, n: usize) -> io::Result<usize> {
        if n == 0 {
            return Ok(0);
        }
        let mut k = n;
        if self.plan.chop != 0 {
            if !self.intr && self.rng.pct(15) {
                self.intr = true;
                self.fired.intr();
                return Err(io::ErrorKind::Interrupted.into());
            }
            self.intr = false;
            if self.rng.pct(50) {
                k = 1 + self.rng.below(n.min(9));
                if k < n {
                    self.fired.short();
                }
            }
        }
        if let Some(at) = self.plan.fail_at {
            let left = (at as u64).saturating_sub(self.done);
            if left == 0 {
                self.fired.hard();
                return Err(hard(self.plan.kind));
            }
            k = k.min(left as usize);
        }
        self.done += k as u64;
        Ok(k)
    }
}

impl<R: Read> Read for Faulty<R> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        let n = buf.len();
        let k = self.allow(n)?;
        self.inner.read(&mut buf[..k])
    }
}

impl<W: Write> Write for Faulty<W> {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let k = self.allow(buf.len())?;
        self.inner.write(&buf[..k])
    }

    fn flush(&mut self) -> io::Result<()> { self.inner.flush() }
}

///////////////////////////////////////////////////////////////////////////////
// Disk
///////////////////////////////////////////////////////////////////////////////
/// Files with a volatile and a durable state. A crash keeps the durable state,
/// plus a torn prefix of what was written since the last sync.
#[derive(Clone, Debug, Default)]
pub struct Disk {
    live: BTreeMap<String, Vec<u8>>,
    durable: BTreeMap<String, Vec<u8>>,
    /// Names renamed since the last directory sync: old content by name.
    pub writes: u64,
}

impl Disk {
    pub fn read(&self, name: &str) -> Option<&Vec<u8>> { self.live.get(name) }

    pub fn append(&mut self, name: &str, bytes: &[u8]) {
        self.writes += 1;
        self.live.entry(name.to_string()).or_default().extend_from_slice(bytes);
    }

    pub fn create(&mut self, name: &str) { self.live.insert(name.to_string(), Vec::new()); }

    pub fn sync(&mut self, name: &str) {
        if let Some(b) = self.live.get(name) {
            self.durable.insert(name.to_string(), b.clone());
        }
    }

    /// Atomic and durable, as rename followed by a directory sync is.
    pub fn rename(&mut self, from: &str, to: &str) {
        if let Some(b) = self.live.remove(from) {
            self.live.insert(to.to_string(), b);
        }
        if let Some(b) = self.durable.remove(from) {
            self.durable.insert(to.to_string(), b);
        }
    }

    pub fn truncate(&mut self, name: &str, len: usize) {
        if let Some(b) = self.live.get_mut(name) {
            b.truncate(len);
        }
    }

    /// Power is lost: unsynced bytes survive only up to a seeded tear.
    pub fn crash(&mut self, r: &mut Rng) -> u64 {
        let mut torn = 0;
        let names: Vec<String> = self.live.keys().chain(self.durable.keys()).cloned().collect();
        let mut after = BTreeMap::new();
        for n in names {
            let d = self.durable.get(&n);
            let l = self.live.get(&n);
            match (d, l) {
                (Some(d), Some(l)) if l.len() > d.len() && l.starts_with(d) => {
                    let keep = d.len() + r.below(l.len() - d.len() + 1);
                    if keep < l.len() {
                        torn += 1;
                    }
                    after.insert(n, l[..keep].to_vec());
                },
                (Some(d), _) => {
                    after.insert(n, d.clone());
                },
                (None, Some(l)) => {
                    // Never synced: may be missing, or there in part.
                    if r.pct(50) {
                        let keep = r.below(l.len() + 1);
                        if keep < l.len() {
                            torn += 1;
                        }
                        after.insert(n, l[..keep].to_vec());
                    } else {
                        torn += 1;
                    }
                },
                (None, None) => {},
            }
        }
        self.live = after.clone();
        self.durable = after;
        torn
    }
}
