//! A process of the operating system's, in which nothing has been called yet:
//! what it finds owes nothing to the runs before, which a process life of the
//! simulator's, a thread with other hash keys, cannot promise.
use crate::basis::Recipe;
use crate::disk::Codec;
use crate::fa::{Call, Fa};
use crate::phi::Phi;
use crate::{rt, seam};
use serde::{Deserialize, Serialize};
use std::io::{Read, Write};
use std::process::{Command, Stdio};

const STEPS: u64 = 400_000_000;

#[derive(Clone, Debug, Serialize, Deserialize)]
pub enum Ask {
    /// What a basis makes of inputs.
    Basis { dim: usize, basis: Recipe, pool: Vec<Vec<f64>> },
    /// What a saved approximator weighs, makes of inputs, and weighs once it has
    /// learnt from each of them, every time starting over.
    Saved { bytes: Vec<u8>, codec: Codec, pool: Vec<Vec<f64>>, error: Vec<f64>, key: u64 },
}

/// Numbers go as bits: not all of them can be spelt.
#[derive(Clone, Debug, Default, Serialize, Deserialize)]
pub struct Told {
    pub phis: Vec<Option<(bool, Vec<bool>, Vec<u64>)>>,
    pub weights: Vec<Vec<u64>>,
    pub learnt: Vec<Option<Vec<Vec<u64>>>>,
    pub failed: Option<String>,
}

fn bits(v: &[f64]) -> Vec<u64> { v.iter().map(|x| x.to_bits()).collect() }

fn table(v: &[Vec<f64>]) -> Vec<Vec<u64>> { v.iter().map(|v| bits(v)).collect() }

pub fn floats(v: &[u64]) -> Vec<f64> { v.iter().map(|b| f64::from_bits(*b)).collect() }

impl Told {
    pub fn phi(&self, i: usize) -> Option<Phi> { self.phis.get(i)?.as_ref().map(|(dense, on, v)| Phi { dense: *dense, on: on.clone(), v: floats(v) }) }
}

fn told(p: Phi) -> (bool, Vec<bool>, Vec<u64>) { (p.dense, p.on, bits(&p.v)) }

fn find(ask: &Ask) -> Told {
    match ask {
        Ask::Basis { dim, basis, pool } => {
            let phis = pool.iter().map(|x| rt::incarnation(0, STEPS, || crate::props::fresh_phi(basis, *dim, x)).0.map(told)).collect();
            Told { phis, ..Told::default() }
        },
        Ask::Saved { bytes, codec, pool, error, key } => rt::incarnation(*key, STEPS, || {
            let fa: Fa = match seam::catch(|| codec.from_slice(bytes)) {
                Ok(Ok(fa)) => fa,
                r => return Told { failed: Some(format!("{:?}", r.map(|r| r.map(|_| ())))), ..Told::default() },
            };
            let learn = |x: &Vec<f64>| {
                let mut fa = fa.clone();
                match fa.call(&Call::Update { x: x.clone(), e: error.clone(), lazy: false }, None, false).ret {
                    crate::fa::Ret::Unit => Some(table(&fa.weights())),
                    _ => None,
                }
            };
            Told {
                weights: table(&fa.weights()),
                phis: pool.iter().map(|x| fa.phi(x).ok().map(told)).collect(),
                learnt: pool.iter().map(learn).collect(),
                failed: None,
            }
        }).0,
    }
}

/// The other side of `ask`.
pub fn answer() -> i32 {
    let mut s = String::new();
    std::io::stdin().read_to_string(&mut s).expect("stdin");
    let ask: Ask = serde_json::from_str(&s).expect("question");
    println!("{}", serde_json::to_string(&rt::host(|| find(&ask))).unwrap());
    0
}

/// `Err` says how the other process ended without an answer.
pub fn ask(ask: &Ask) -> Result<Told, String> {
    let mut child = Command::new(std::env::current_exe().unwrap()).arg("abroad").stdin(Stdio::piped()).stdout(Stdio::piped()).stderr(Stdio::piped()).spawn().expect("spawn");
    child.stdin.take().unwrap().write_all(serde_json::to_string(ask).unwrap().as_bytes()).expect("stdin");
    let out = child.wait_with_output().expect("output");
    serde_json::from_slice(&out.stdout).map_err(|_| format!("{}: {}", out.status, String::from_utf8_lossy(&out.stderr).trim()))
}
