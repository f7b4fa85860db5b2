//! C23: programs built from the command line bindings (crate ../cli), driven through histories of
//! commands over files in a scratch directory, against a model of what each file holds.

use crate::engine::{guard, Prop, Sub};
use crate::ensure;
use crate::eth;
use crate::groth::*;
use crate::refmath::*;
use crate::tape::{CaseResult, Ctx};
use borsh::BorshDeserialize;
use fawkes_crypto::helpers::groth16::ethereum::generate_sol_data;
use fawkes_crypto::helpers::groth16::prover::{Proof, ProofData};
use fawkes_crypto::helpers::groth16::verifier::{verify, TruncatedVerifyingKey, TruncatedVerifyingKeyData};
use fawkes_crypto::native::poseidon::{poseidon_merkle_proof_root, MerkleProof, PoseidonParams};
use num::bigint::BigUint;
use num::Zero;
use serde_json::{json, Value};
use std::collections::BTreeMap;
use std::marker::PhantomData;
use std::os::unix::process::CommandExt;
use std::path::{Path, PathBuf};
use std::process::Command;
use std::sync::atomic::{AtomicU64, Ordering};
use typenum::U3;

#[derive(Clone, Copy, PartialEq, Debug)]
enum B {
    Ethereum,
    Waves,
    WavesBn,
    Near,
}
impl B {
    fn name(self) -> &'static str {
        match self {
            B::Ethereum => "ethereum",
            B::Waves => "waves",
            B::WavesBn => "waves_bn256",
            B::Near => "near",
        }
    }
    fn ext(self) -> &'static str {
        if self == B::Ethereum {
            "json"
        } else {
            "txt"
        }
    }
}

/// what the model knows about a file
#[derive(Clone, PartialEq, Debug)]
enum Is {
    Params(usize),
    Vk(usize),
    /// public inputs, and whether the statement holds
    Obj(Vec<BigUint>, bool),
    Proof(usize, Vec<BigUint>, bool),
    Inputs(Vec<BigUint>),
    Other,
}

struct Scratch(PathBuf);
impl Scratch {
    fn new() -> Scratch {
        static N: AtomicU64 = AtomicU64::new(0);
        let p = std::env::temp_dir().join(format!("fawkes-c23-{}-{}", std::process::id(), N.fetch_add(1, Ordering::SeqCst)));
        std::fs::create_dir_all(p.join("sub dir")).expect("cannot create scratch directory");
        Scratch(p)
    }
    fn list(&self) -> BTreeMap<String, Vec<u8>> {
        fn walk(d: &Path, root: &Path, out: &mut BTreeMap<String, Vec<u8>>) {
            for e in std::fs::read_dir(d).unwrap() {
                let p = e.unwrap().path();
                if p.is_dir() {
                    walk(&p, root, out);
                } else {
                    out.insert(p.strip_prefix(root).unwrap().to_string_lossy().into_owned(), std::fs::read(&p).unwrap());
                }
            }
        }
        let mut o = BTreeMap::new();
        walk(&self.0, &self.0, &mut o);
        o
    }
    fn read(&self, n: &str) -> Result<Vec<u8>, String> {
        std::fs::read(self.0.join(n)).map_err(|e| format!("{}: {}", n, e))
    }
    fn write(&self, n: &str, b: &[u8]) {
        std::fs::write(self.0.join(n), b).unwrap()
    }
}
impl Drop for Scratch {
    fn drop(&mut self) {
        let _ = std::fs::remove_dir_all(&self.0);
    }
}

fn cli() -> String {
    std::env::var("VERIF_CLI").expect("VERIF_CLI")
}

struct World<T: Eng> {
    b: B,
    circuit: &'static str,
    dir: Scratch,
    is: BTreeMap<String, Is>,
    setups: usize,
    log: Vec<String>,
    /// files cannot grow beyond this many bytes during the next command; whether the program
    /// is told by an error (true) or by a signal
    limit: Option<(u64, bool)>,
    _t: PhantomData<T>,
}

#[repr(C)]
struct RLimit {
    cur: u64,
    max: u64,
}
extern "C" {
    fn setrlimit(resource: i32, lim: *const RLimit) -> i32;
    fn signal(sig: i32, handler: usize) -> usize;
}
const RLIMIT_FSIZE: i32 = 1;
const RLIMIT_CORE: i32 = 4;
const SIGXFSZ: i32 = 25;
const SIG_IGN: usize = 1;

struct Out {
    ok: bool,
    text: String,
}

fn dec<F: fawkes_crypto::core::field::Field>(x: &Z<F>) -> Value {
    Value::String(x.big().to_str_radix(10))
}

/// one statement: its JSON object and its public inputs in the order of declaration
fn statement<T: Eng>(ctx: &mut Ctx, circuit: &str) -> (Value, Vec<Z<T::Fr>>) {
    match circuit {
        "line" => {
            let (mut x, mut s, t) = (gen_z::<T::Fr>(ctx), gen_z::<T::Fr>(ctx), gen_z::<T::Fr>(ctx));
            match ctx.below(8) {
                0 => x = Z::zero(),
                1 => s = Z::zero(),
                2 => x = -Z::one(),
                _ => {}
            }
            let (y, z) = (x * s, s * t);
            (json!([{"x": dec(&x), "y": dec(&y), "z": dec(&z)}, {"s": dec(&s), "t": dec(&t)}]), vec![x, y, z])
        }
        "mix" => {
            let (mut a, mut k) = (gen_z::<T::Fr>(ctx), gen_z::<T::Fr>(ctx));
            match ctx.below(8) {
                0 => a = Z::zero(),
                1 => k = Z::zero(),
                2 => k = -Z::one(),
                _ => {}
            }
            let (b, c, d) = (ctx.bool(), ctx.bool(), ctx.bool());
            let v = [a, a * k, if b { k } else { a }];
            let w0 = if c {
                v[0]
            } else if d {
                v[1]
            } else {
                v[2]
            };
            let w1 = k * k;
            (
                json!([{"v": [dec(&v[0]), dec(&v[1]), dec(&v[2])], "b": b, "w": {"first": dec(&w0), "second": dec(&w1)}}, {"k": dec(&k), "bits": [c, d]}]),
                vec![v[0], v[1], v[2], Z::u(b as u64), w0, w1],
            )
        }
        _ => {
            let leaf = gen_z::<T::Fr>(ctx);
            let sib: Vec<Z<T::Fr>> = (0..3).map(|_| gen_z(ctx)).collect();
            let path: Vec<bool> = (0..3).map(|_| ctx.bool()).collect();
            let pr = MerkleProof::<T::Fr, U3> {
                sibling: fawkes_crypto::core::sizedvec::SizedVec(sib.iter().map(|x| x.n()).collect(), PhantomData),
                path: fawkes_crypto::core::sizedvec::SizedVec(path.clone(), PhantomData),
            };
            let root = Z(poseidon_merkle_proof_root(leaf.n(), &pr, &PoseidonParams::<T::Fr>::new(3, 8, 53)).0);
            (
                json!([dec(&root), {"leaf": dec(&leaf), "proof": {"sibling": sib.iter().map(dec).collect::<Vec<_>>(), "path": path}}]),
                vec![root],
            )
        }
    }
}

fn b64(v: &[u8]) -> Option<Vec<u8>> {
    base64::decode(v).ok()
}
fn bes(b: &[u8]) -> BigUint {
    BigUint::from_bytes_be(b)
}

impl<T: Eng> World<T>
where
    TruncatedVerifyingKeyData<T::Q>: serde::de::DeserializeOwned + BorshDeserialize,
    ProofData<T::Q>: serde::de::DeserializeOwned + BorshDeserialize,
{
    fn run(&mut self, cmd: &str, opts: &[(&str, &str, &str)], ctx: &mut Ctx) -> Out {
        let mut args = vec![format!("{}/{}", self.b.name(), self.circuit), cmd.to_string()];
        for (short, long, v) in opts {
            let default = self.default(long);
            match ctx.below(4) {
                0 if *v == default => {}
                1 => {
                    args.push(format!("-{}", short));
                    args.push(v.to_string());
                }
                2 => args.push(format!("--{}={}", long, v)),
                _ => {
                    args.push(format!("--{}", long));
                    args.push(v.to_string());
                }
            }
        }
        self.log.push(args[1..].join(" "));
        let mut c = Command::new(cli());
        c.args(&args).current_dir(&self.dir.0);
        if let Some((n, ign)) = self.limit {
            self.log.push(format!("(files limited to {} bytes)", n));
            unsafe {
                c.pre_exec(move || {
                    setrlimit(RLIMIT_CORE, &RLimit { cur: 0, max: 0 });
                    if ign {
                        signal(SIGXFSZ, SIG_IGN);
                    }
                    if setrlimit(RLIMIT_FSIZE, &RLimit { cur: n, max: n }) != 0 {
                        return Err(std::io::Error::last_os_error());
                    }
                    Ok(())
                });
            }
        }
        let o = c.output().expect("cannot run the command line program");
        let text = String::from_utf8_lossy(&o.stdout).into_owned();
        if o.status.code() == Some(64) || o.status.code() == Some(65) {
            panic!("the program does not take {:?}: {}", args, String::from_utf8_lossy(&o.stderr));
        }
        Out { ok: o.status.success(), text }
    }
    fn default(&self, long: &str) -> String {
        match long {
            "params" => "params.bin".into(),
            "object" => "object.json".into(),
            "vk" => format!("verification_key.{}", self.b.ext()),
            "solidity" => "verifier.sol".into(),
            _ => format!("{}.{}", long, self.b.ext()),
        }
    }
    fn name(&self, ctx: &mut Ctx, long: &str) -> String {
        match ctx.below(6) {
            0..=2 => self.default(long),
            3 | 4 => format!("{}2", long),
            _ => format!("sub dir/{}.x", long),
        }
    }
    /// mostly a file there is
    fn have(&self, ctx: &mut Ctx, long: &str) -> String {
        let all = [self.default(long), format!("{}2", long), format!("sub dir/{}.x", long)];
        let there: Vec<&String> = all.iter().filter(|n| self.is.contains_key(*n)).collect();
        if there.is_empty() || ctx.chance(1, 12) {
            return self.name(ctx, long);
        }
        ctx.pick(&there).to_string()
    }
    fn get(&self, n: &str) -> Option<&Is> {
        self.is.get(n)
    }

    fn inputs_in(&self, raw: &[u8]) -> Option<Vec<BigUint>> {
        match self.b {
            B::Ethereum => serde_json::from_slice::<Vec<String>>(raw).ok().map(|v| v.iter().map(|s| big(s)).collect()),
            B::Waves | B::WavesBn => {
                let v = b64(raw)?;
                if v.len() % 32 != 0 {
                    return None;
                }
                Some(v.chunks(32).map(bes).collect())
            }
            B::Near => {
                let v = b64(raw)?;
                let n = u32::from_le_bytes([*v.get(0)?, *v.get(1)?, *v.get(2)?, *v.get(3)?]) as usize;
                if v.len() != 4 + 32 * n {
                    return None;
                }
                Some(v[4..].chunks(32).map(BigUint::from_bytes_le).collect())
            }
        }
    }
    fn inputs_out(&self, v: &[BigUint]) -> Vec<u8> {
        let pad = |x: &BigUint| {
            let b = if x.is_zero() { vec![] } else { x.to_bytes_be() };
            let mut o = vec![0u8; 32 - b.len()];
            o.extend(b);
            o
        };
        match self.b {
            B::Ethereum => serde_json::to_vec(&v.iter().map(|x| x.to_str_radix(10)).collect::<Vec<_>>()).unwrap(),
            B::Waves | B::WavesBn => base64::encode(&v.iter().flat_map(|x| pad(x)).collect::<Vec<_>>()).into_bytes(),
            B::Near => {
                let mut o = (v.len() as u32).to_le_bytes().to_vec();
                for x in v {
                    let mut p = pad(x);
                    p.reverse();
                    o.extend(p);
                }
                base64::encode(&o).into_bytes()
            }
        }
    }
    fn proof_in(&self, raw: &[u8]) -> Option<Proof<T::E>> {
        guard(|| match self.b {
            B::Ethereum => serde_json::from_slice::<ProofData<T::Q>>(raw).ok().map(|d| T::pfrom(&d)),
            B::Waves | B::WavesBn => T::pread(&b64(raw)?[..]).ok(),
            B::Near => ProofData::<T::Q>::try_from_slice(&b64(raw)?).ok().map(|d| T::pfrom(&d)),
        })
        .ok()?
    }
    fn vk_in(&self, raw: &[u8]) -> Option<TruncatedVerifyingKey<T::E>> {
        guard(|| match self.b {
            B::Ethereum => serde_json::from_slice::<TruncatedVerifyingKeyData<T::Q>>(raw).ok().map(|d| T::kfrom(&d)),
            B::Waves | B::WavesBn => TruncatedVerifyingKey::<T::E>::read(&b64(raw)?[..]).ok(),
            B::Near => TruncatedVerifyingKeyData::<T::Q>::try_from_slice(&b64(raw)?).ok().map(|d| T::kfrom(&d)),
        })
        .ok()?
    }

    /// only the named files may have changed
    fn only(&self, before: &BTreeMap<String, Vec<u8>>, outs: &[&str]) -> Result<(), String> {
        let after = self.dir.list();
        for (k, v) in &after {
            if before.get(k) != Some(v) && !outs.contains(&k.as_str()) {
                return Err(format!("the command wrote {} besides {:?}", k, outs));
            }
        }
        for k in before.keys() {
            ensure!(after.contains_key(k), "the command removed {}", k);
        }
        Ok(())
    }
    /// The command was not able to write its files and says so.
    fn starved(&mut self, o: &Out, before: &BTreeMap<String, Vec<u8>>, ctx: &mut Ctx) -> bool {
        let lim = self.limit.take();
        if lim.is_none() {
            return false;
        }
        ctx.label(if o.ok { "limited file size: command succeeds" } else { "limited file size: command fails" });
        if !o.ok {
            self.forget(before);
        }
        !o.ok
    }
    /// Limit the size of files for one command in a few, mostly around the sizes of its outputs.
    fn maybe_limit(&mut self, ctx: &mut Ctx, num: u64, den: u64) {
        if !ctx.chance(num, den) {
            return;
        }
        let sizes: Vec<u64> = self.dir.list().values().map(|v| v.len() as u64).collect();
        let n = match ctx.below(4) {
            0 if !sizes.is_empty() => {
                let s = *ctx.pick(&sizes);
                (s + ctx.below(3)).saturating_sub(1)
            }
            1 => ctx.below(400),
            2 => ctx.below(4000),
            _ => ctx.below(16000),
        };
        self.limit = Some((n, ctx.bool()));
    }
    /// outputs of a command that did not succeed hold nothing known
    fn forget(&mut self, before: &BTreeMap<String, Vec<u8>>) {
        let after = self.dir.list();
        for (k, v) in after {
            if before.get(&k) != Some(&v) {
                self.is.insert(k, Is::Other);
            }
        }
    }

    fn setup(&mut self, ctx: &mut Ctx, params: &str, vk: &str) -> CaseResult {
        let before = self.dir.list();
        let o = self.run("setup", &[("p", "params", params), ("v", "vk", vk)], ctx);
        self.only(&before, &[params, vk])?;
        if self.starved(&o, &before, ctx) {
            return Ok(());
        }
        ensure!(o.ok, "setup fails: {}", o.text);
        let id = self.setups;
        self.setups += 1;
        self.is.insert(params.into(), Is::Params(id));
        self.is.insert(vk.into(), Is::Vk(id));
        let k = self.vk_in(&self.dir.read(vk)?);
        ensure!(k.is_some(), "setup wrote a verifying key that does not decode");
        let n = match self.circuit {
            "line" => 3,
            "mix" => 6,
            _ => 1,
        };
        ensure!(k.unwrap().ic.len() == n + 1, "the verifying key is not for {} public inputs", n);
        Ok(())
    }

    fn test_data(&mut self, ctx: &mut Ctx, object: &str) -> CaseResult {
        let before = self.dir.list();
        let o = self.run("generate-test-data", &[("o", "object", object)], ctx);
        self.only(&before, &[object])?;
        if self.starved(&o, &before, ctx) {
            return Ok(());
        }
        ensure!(o.ok, "generate-test-data fails: {}", o.text);
        let got: Value = serde_json::from_slice(&self.dir.read(object)?).map_err(|e| format!("object file: {}", e))?;
        let n = |i: u64| Value::String(i.to_string());
        let (want, ins) = match self.circuit {
            "line" => (json!([{"x": n(5), "y": n(35), "z": n(77)}, {"s": n(7), "t": n(11)}]), vec![5u64, 35, 77]),
            "mix" => (json!([{"v": [n(3), n(39), n(13)], "b": true, "w": {"first": n(3), "second": n(169)}}, {"k": n(13), "bits": [true, true]}]), vec![3, 39, 13, 1, 3, 169]),
            _ => {
                let pr = MerkleProof::<T::Fr, U3> {
                    sibling: fawkes_crypto::core::sizedvec::SizedVec((20..23).map(|i| Z::u(i).n()).collect(), PhantomData),
                    path: fawkes_crypto::core::sizedvec::SizedVec(vec![true, false, true], PhantomData),
                };
                let root = Z(poseidon_merkle_proof_root(Z::<T::Fr>::u(17).n(), &pr, &PoseidonParams::<T::Fr>::new(3, 8, 53)).0);
                self.is.insert(object.into(), Is::Obj(vec![root.big()], true));
                (json!([dec(&root), {"leaf": n(17), "proof": {"sibling": [n(20), n(21), n(22)], "path": [true, false, true]}}]), vec![])
            }
        };
        ensure!(got == want, "the test data file holds {} instead of {}", got, want);
        if self.circuit != "tree" {
            self.is.insert(object.into(), Is::Obj(ins.into_iter().map(BigUint::from).collect(), true));
        }
        Ok(())
    }

    fn write_object(&mut self, ctx: &mut Ctx, object: &str) {
        let (mut j, ins) = statement::<T>(ctx, self.circuit);
        let mut ins: Vec<BigUint> = ins.iter().map(|x| x.big()).collect();
        let mut valid = true;
        if ctx.chance(1, 8) {
            // a false statement: one public number off by one
            let r = modulus::<T>();
            let (ptr, i) = match self.circuit {
                "line" => *ctx.pick(&[("/0/y", 1), ("/0/z", 2)]),
                "mix" => *ctx.pick(&[("/0/w/second", 5), ("/0/w/first", 4), ("/0/v/2", 2)]),
                _ => ("/0", 0),
            };
            ins[i] = (&ins[i] + 1u32) % &r;
            *j.pointer_mut(ptr).unwrap() = Value::String(ins[i].to_str_radix(10));
            valid = false;
        }
        self.log.push(format!("write {} ({})", object, if valid { "true statement" } else { "false statement" }));
        self.dir.write(object, &if ctx.bool() { serde_json::to_vec(&j).unwrap() } else { serde_json::to_vec_pretty(&j).unwrap() });
        self.is.insert(object.into(), Is::Obj(ins, valid));
    }

    fn prove(&mut self, ctx: &mut Ctx, params: &str, object: &str, proof: &str, inputs: &str) -> CaseResult {
        let before = self.dir.list();
        let (pm, ob) = (self.get(params).cloned(), self.get(object).cloned());
        let o = self.run("prove", &[("p", "params", params), ("o", "object", object), ("r", "proof", proof), ("i", "inputs", inputs)], ctx);
        self.only(&before, &[proof, inputs])?;
        if self.starved(&o, &before, ctx) {
            return Ok(());
        }
        match (pm, ob) {
            (Some(Is::Params(id)), Some(Is::Obj(ins, true))) => {
                ensure!(o.ok, "prove fails on a true statement: {}", o.text);
                ctx.label("proved");
                let raw = self.dir.read(inputs)?;
                let got = self.inputs_in(&raw);
                ensure!(got.as_ref() == Some(&ins), "the inputs file does not hold the public inputs in order: {} instead of {:?}", String::from_utf8_lossy(&raw), ins.iter().map(|x| x.to_str_radix(10)).collect::<Vec<_>>());
                let pr = self.dir.read(proof)?;
                ensure!(self.proof_in(&pr).is_some(), "prove wrote a proof that does not decode");
                ensure!(before.get(proof) != Some(&pr), "prove wrote the same proof as before");
                self.is.insert(proof.into(), Is::Proof(id, ins.clone(), true));
                self.is.insert(inputs.into(), Is::Inputs(ins));
            }
            (Some(Is::Params(id)), Some(Is::Obj(ins, false))) => {
                ctx.label("prove of a false statement");
                if o.ok {
                    self.is.insert(proof.into(), Is::Proof(id, ins.clone(), false));
                    self.is.insert(inputs.into(), Is::Inputs(ins));
                } else {
                    self.forget(&before);
                }
            }
            _ => {
                ctx.label("prove without its files");
                ensure!(!o.ok, "prove succeeds without its files");
                self.forget(&before);
            }
        }
        Ok(())
    }

    fn verify(&mut self, ctx: &mut Ctx, vk: &str, proof: &str, inputs: &str) -> CaseResult {
        let before = self.dir.list();
        let o = self.run("verify", &[("v", "vk", vk), ("r", "proof", proof), ("i", "inputs", inputs)], ctx);
        self.only(&before, &[])?;
        let said = o.text.contains("Verify result is true.");
        let want = match (self.get(vk), self.get(proof), self.get(inputs)) {
            (Some(Is::Vk(a)), Some(Is::Proof(b, i, true)), Some(Is::Inputs(j))) => a == b && i == j,
            _ => false,
        };
        ctx.label(if want { "verify, expecting true" } else { "verify, not expecting true" });
        if want {
            ensure!(o.ok && said, "verify does not report true for files of one proof: {}", o.text);
            // the files mean the same outside the program
            let native = (|| {
                let (k, p, i) = (self.vk_in(&self.dir.read(vk).ok()?)?, self.proof_in(&self.dir.read(proof).ok()?)?, self.inputs_in(&self.dir.read(inputs).ok()?)?);
                let ins: Vec<T::Fr> = i.iter().map(|x| Z::<T::Fr>::from_big(x).0).collect();
                guard(|| verify(&k, &p, &ins)).ok()?.ok()
            })();
            ensure!(native == Some(true), "the files decode to a key, proof and inputs that do not verify");
        } else {
            ensure!(!said, "verify reports true for a proof of something else ({:?}, {:?}, {:?})", self.get(vk), self.get(proof), self.get(inputs));
        }
        Ok(())
    }

    /// Many alterations of the inputs (and some of the proof and key bytes) of one good proof,
    /// each verified on its own.
    fn burst(&mut self, ctx: &mut Ctx, vk: &str, proof: &str) -> CaseResult {
        let v = match (self.get(vk), self.get(proof)) {
            (Some(Is::Vk(a)), Some(Is::Proof(b, i, true))) if a == b && !i.is_empty() => i.clone(),
            _ => return Ok(()),
        };
        let (r, top) = (modulus::<T>(), (BigUint::from(1u32) << 256) - 1u32);
        let n = format!("altered.{}", self.b.ext());
        let rounds = ctx.range(4, 12);
        for _ in 0..rounds {
            let mut w = v.clone();
            let k = ctx.below(w.len() as u64) as usize;
            let z = w.iter().position(|x| x.is_zero());
            let k = if ctx.bool() { z.unwrap_or(k) } else { k };
            let mut raw: Option<Vec<u8>> = None;
            let kind = match ctx.below(14) {
                0 => {
                    w[k] = (&w[k] + 1u32) % &r;
                    "one input + 1"
                }
                1 => {
                    w[k] = (&r - &w[k]) % &r;
                    "one input negated"
                }
                2 => {
                    w.pop();
                    "last input dropped"
                }
                3 => {
                    w.push(BigUint::zero());
                    "zero appended"
                }
                4 => {
                    let x = w[k].clone();
                    w.push(x);
                    "an input repeated at the end"
                }
                5 => {
                    let l = ctx.below(w.len() as u64) as usize;
                    w.swap(k, l);
                    "two inputs swapped"
                }
                6 | 7 => {
                    w[k] = &w[k] + &r * (1 + ctx.below(2)) as u32;
                    "one input + multiple of r"
                }
                8 => {
                    w[k] = top.clone();
                    "one input 2^256-1"
                }
                9 => {
                    w[k] = r.clone();
                    "one input r"
                }
                10 => {
                    w.remove(0);
                    "first input dropped"
                }
                11 => {
                    w.clear();
                    "no inputs"
                }
                12 => {
                    let mut b = self.inputs_out(&v);
                    if self.b == B::Ethereum {
                        let c = ctx.range(1, b.len() - 1);
                        b.truncate(c);
                    } else {
                        let mut d = b64(&b).unwrap();
                        let c = ctx.range(1, 31.min(d.len()));
                        if ctx.bool() {
                            d.truncate(d.len() - c);
                        } else {
                            let e = ctx.below(256) as u8;
                            d.extend(std::iter::repeat(e).take(c));
                        }
                        b = base64::encode(&d).into_bytes();
                    }
                    raw = Some(b);
                    "cut or lengthened by some bytes"
                }
                _ => {
                    w[k] = (&w[k] ^ (BigUint::from(1u32) << ctx.below(254) as usize)) % &r;
                    "one bit flipped"
                }
            };
            if raw.is_none() && w.iter().any(|x| x > &top) && self.b != B::Ethereum {
                continue;
            }
            ctx.label(format!("altered inputs: {}", kind));
            self.log.push(format!("altered copy: {} at {}", kind, k));
            let (bytes, is) = match raw {
                Some(b) => (b, Is::Other),
                None => (self.inputs_out(&w), Is::Inputs(w)),
            };
            self.dir.write(&n, &bytes);
            self.is.insert(n.clone(), is);
            self.verify(ctx, vk, proof, &n)?;
        }
        Ok(())
    }

    fn tamper(&mut self, ctx: &mut Ctx) -> CaseResult {
        let what = *ctx.pick(&["inputs", "inputs", "inputs", "proof", "vk"]);
        let n = self.have(ctx, what);
        let is = match self.get(&n) {
            Some(i) => i.clone(),
            None => return Ok(()),
        };
        let raw = self.dir.read(&n)?;
        let (q, r) = (big(T::QS), modulus::<T>());
        match is {
            Is::Inputs(mut v) => {
                let k = ctx.below(v.len() as u64) as usize;
                let kind = match ctx.below(7) {
                    0 => {
                        v[k] = (&v[k] + 1u32) % &r;
                        "one input + 1"
                    }
                    1 => {
                        v[k] = (&r - &v[k]) % &r;
                        "one input negated"
                    }
                    2 => {
                        v.pop();
                        "last input dropped"
                    }
                    3 => {
                        v.push(BigUint::zero());
                        "zero appended"
                    }
                    4 => {
                        let l = ctx.below(v.len() as u64) as usize;
                        v.swap(k, l);
                        "two inputs swapped"
                    }
                    5 => {
                        v[k] = &v[k] + &r;
                        "one input + r"
                    }
                    _ => {
                        v[k] = BigUint::zero();
                        "one input zero"
                    }
                };
                self.log.push(format!("alter {}: {}", n, kind));
                ctx.label(format!("altered inputs: {}", kind));
                self.dir.write(&n, &self.inputs_out(&v));
                self.is.insert(n, Is::Inputs(v));
            }
            Is::Proof(..) => {
                let p = match self.proof_in(&raw) {
                    Some(p) => p,
                    None => return Ok(()),
                };
                let mut w = T::pinto(&p);
                let mut v = serde_json::to_value(&w).unwrap();
                let ptr = *ctx.pick(&["/a/1", "/b/0/0", "/b/1/1", "/c/0", "/c/1", "/a/0"]);
                let old = big(v.pointer(ptr).unwrap().as_str().unwrap());
                let new = if ctx.bool() { (&q - &old) % &q } else { (&old + 1u32) % &q };
                if new == old {
                    return Ok(());
                }
                *v.pointer_mut(ptr).unwrap() = Value::String(new.to_str_radix(10));
                w = match serde_json::from_value(v.clone()) {
                    Ok(w) => w,
                    Err(_) => return Ok(()),
                };
                let out = match self.b {
                    B::Ethereum => serde_json::to_vec(&v).unwrap(),
                    B::Near => base64::encode(&borsh::BorshSerialize::try_to_vec(&w).unwrap()).into_bytes(),
                    _ => {
                        // uncompressed big-endian coordinates, or any byte flipped
                        let mut b = b64(&raw).unwrap();
                        let i = ctx.below(b.len() as u64) as usize;
                        b[i] ^= 1 << ctx.below(8);
                        base64::encode(&b).into_bytes()
                    }
                };
                self.log.push(format!("alter {}", n));
                ctx.label("altered proof");
                self.dir.write(&n, &out);
                self.is.insert(n, Is::Other);
            }
            Is::Vk(_) => {
                let other = format!("{}-copy", n);
                self.log.push(format!("truncate {}", n));
                let cut = ctx.range(0, raw.len() - 1);
                ctx.label("truncated key");
                let _ = other;
                self.dir.write(&n, &raw[..cut]);
                self.is.insert(n, Is::Other);
            }
            _ => {}
        }
        Ok(())
    }
}

fn modulus<T: Eng>() -> BigUint {
    (Z::<T::Fr>::zero() - Z::one()).big() + 1u32
}

fn history<T: Eng>(ctx: &mut Ctx, b: B) -> CaseResult
where
    TruncatedVerifyingKeyData<T::Q>: serde::de::DeserializeOwned + BorshDeserialize,
    ProofData<T::Q>: serde::de::DeserializeOwned + BorshDeserialize,
{
    let circuit = match ctx.below(16) {
        0..=6 => "line",
        7..=14 => "mix",
        _ => "tree",
    };
    ctx.label(b.name());
    ctx.label(circuit);
    let mut w = World::<T> { b, circuit, dir: Scratch::new(), is: BTreeMap::new(), setups: 0, log: vec![], limit: None, _t: PhantomData };
    let r = steps(&mut w, ctx);
    let log = w.log.join(" | ");
    ctx.note(|| format!("{} {}: {}", b.name(), circuit, log));
    r
}

fn steps<T: Eng>(w: &mut World<T>, ctx: &mut Ctx) -> CaseResult
where
    TruncatedVerifyingKeyData<T::Q>: serde::de::DeserializeOwned + BorshDeserialize,
    ProofData<T::Q>: serde::de::DeserializeOwned + BorshDeserialize,
{
    // a complete run first, so that histories reach verification
    if !ctx.chance(1, 10) {
        let (p, v, o, r, i) = (w.name(ctx, "params"), w.name(ctx, "vk"), w.name(ctx, "object"), w.name(ctx, "proof"), w.name(ctx, "inputs"));
        w.setup(ctx, &p, &v)?;
        if ctx.chance(1, 4) {
            w.test_data(ctx, &o)?;
        } else {
            w.write_object(ctx, &o);
        }
        w.prove(ctx, &p, &o, &r, &i)?;
        w.verify(ctx, &v, &r, &i)?;
        if w.b == B::Ethereum && ctx.chance(1, 2) {
            solidity(w, ctx, &v, &r, &i)?;
        }
        w.burst(ctx, &v, &r)?;
        ctx.nontrivial();
    }
    let extra = ctx.range(1, if w.circuit == "tree" { 4 } else { 9 });
    for _ in 0..extra {
        match ctx.below(12) {
            0 => {
                let (p, v) = (w.name(ctx, "params"), w.name(ctx, "vk"));
                w.maybe_limit(ctx, 1, 3);
                w.setup(ctx, &p, &v)?;
            }
            1 => {
                let o = w.name(ctx, "object");
                w.maybe_limit(ctx, 1, 2);
                w.test_data(ctx, &o)?;
            }
            2 | 3 => {
                let o = w.name(ctx, "object");
                w.write_object(ctx, &o);
            }
            4 | 5 => {
                let (p, o, r, i) = (w.have(ctx, "params"), w.have(ctx, "object"), w.name(ctx, "proof"), w.name(ctx, "inputs"));
                w.maybe_limit(ctx, 1, 3);
                w.prove(ctx, &p, &o, &r, &i)?;
            }
            6 | 7 => {
                w.tamper(ctx)?;
                let (v, r, i) = (w.have(ctx, "vk"), w.have(ctx, "proof"), w.have(ctx, "inputs"));
                w.verify(ctx, &v, &r, &i)?;
            }
            8 if w.b == B::Ethereum => {
                let (v, r, i) = (w.have(ctx, "vk"), w.have(ctx, "proof"), w.have(ctx, "inputs"));
                solidity(w, ctx, &v, &r, &i)?;
            }
            _ => {
                // every combination of what there is
                let (v, r, i) = (w.have(ctx, "vk"), w.have(ctx, "proof"), w.have(ctx, "inputs"));
                w.verify(ctx, &v, &r, &i)?;
            }
        }
    }
    Ok(())
}

fn solidity<T: Eng>(w: &mut World<T>, ctx: &mut Ctx, vk: &str, proof: &str, inputs: &str) -> CaseResult
where
    TruncatedVerifyingKeyData<T::Q>: serde::de::DeserializeOwned + BorshDeserialize,
    ProofData<T::Q>: serde::de::DeserializeOwned + BorshDeserialize,
{
    let sol = w.name(ctx, "solidity");
    if ctx.bool() {
        // an older, longer file in the way
        w.dir.write(&sol, &vec![b'x'; 20000]);
    }
    w.maybe_limit(ctx, 1, 4);
    let before = w.dir.list();
    let o = w.run("generate-verifier", &[("v", "vk", vk), ("s", "solidity", &sol)], ctx);
    w.only(&before, &[&sol])?;
    if w.starved(&o, &before, ctx) {
        return Ok(());
    }
    let known = match w.get(vk) {
        Some(Is::Vk(k)) => Some(*k),
        _ => None,
    };
    let k = match known {
        Some(k) => k,
        None => {
            ensure!(!o.ok, "generate-verifier succeeds without a verifying key");
            return Ok(());
        }
    };
    ensure!(o.ok, "generate-verifier fails: {}", o.text);
    let src = String::from_utf8(w.dir.read(&sol)?).map_err(|e| e.to_string())?;
    let data: TruncatedVerifyingKeyData<pairing::bn256::Fq> = serde_json::from_slice(&w.dir.read(vk)?).map_err(|e| e.to_string())?;
    ensure!(src == generate_sol_data(&data), "the contract file is not the contract of the key");
    ctx.label("contract generated");
    if let (Some(Is::Proof(b, i, true)), Some(Is::Inputs(j))) = (w.get(proof), w.get(inputs)) {
        let want = *b == k && i == j;
        let d: ProofData<pairing::bn256::Fq> = serde_json::from_slice(&w.dir.read(proof)?).map_err(|e| e.to_string())?;
        if let Some(got) = eth::decide(&src, &d, j) {
            ensure!(got == want, "the contract {} the proof in the files, unlike the model", if got { "accepts" } else { "does not accept" });
            ctx.label("contract executed");
        }
    }
    Ok(())
}

fn c23_history(ctx: &mut Ctx) -> CaseResult {
    let b = *ctx.pick(&[B::Ethereum, B::Waves, B::WavesBn, B::Near]);
    match b {
        B::Waves => history::<Bls>(ctx, b),
        _ => history::<Bn>(ctx, b),
    }
}

pub fn props() -> Vec<Prop> {
    vec![Prop {
        id: "C23",
        subs: vec![Sub {
            name: "history",
            rule: "a binding, a circuit and a history of commands (setup, generate-test-data, prove, verify, generate-verifier) with objects written and files altered in between, on files in a scratch directory. Non-trivial: contains a complete setup-prove-verify run",
            f: c23_history,
            tape: 260,
            quick: 480,
            thorough: 12000,
            shrink: 60,
        }],
        assumptions: vec![
            "command line parsing is a stand-in for clap 3 (not available here): options, defaults and subcommand names as the attributes state them",
            "three circuits are bound per platform",
        ],
    }]
}
