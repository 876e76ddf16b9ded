//! Replay of the sessions of `R1csSession.tla` on the real prover and verifier.
use crate::util::*;
use ark_ec::AffineRepr;
use ark_ff::{Field, One, UniformRand};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Arc, Mutex};

pub type Key = (String, usize, usize);
pub fn key(v: &Value) -> Key {
    (gets(v, "k").to_string(), getu(v, "i"), getu(v, "j"))
}
pub fn key_of<F: Field>(v: &Variable<F>) -> Key {
    match v {
        Variable::VectorCommit(j, i) => ("V".into(), *j, *i),
        Variable::Committed(i) => ("C".into(), *i, 0),
        Variable::MultiplierLeft(i) => ("L".into(), *i, 0),
        Variable::MultiplierRight(i) => ("R".into(), *i, 0),
        Variable::MultiplierOutput(i) => ("O".into(), *i, 0),
        Variable::One(_) => ("1".into(), 0, 0),
    }
}
pub type Vars<F> = HashMap<Key, Variable<F>>;

/// The same linear combination written in different ways through the public operators.
pub fn lc<F: Field>(t: &[(Variable<F>, i64)], c: i64, form: usize) -> LinearCombination<F> {
    match form % 5 {
        0 => {
            let mut l: LinearCombination<F> = LinearCombination::default();
            for (v, k) in t {
                l = l + *v * fi::<F>(*k);
            }
            l + fi::<F>(c)
        }
        1 => {
            let l: LinearCombination<F> = t.iter().map(|(v, k)| (*v, fi::<F>(*k))).collect();
            l - constant(fi::<F>(-c))
        }
        2 => {
            let mut l: LinearCombination<F> = constant::<F, F>(fi(-c));
            for (v, k) in t {
                l = l - LinearCombination::from(*v).scalar_mul(fi::<F>(*k));
            }
            -l
        }
        3 => {
            // (c' + sum -k v) * -2 / 2
            let mut l: LinearCombination<F> = fi::<F>(-c).into();
            for (v, k) in t {
                l = if *k == 1 { l - *v } else if *k == -1 { l + *v } else { l + (-*v) * fi::<F>(*k) };
            }
            let half = fi::<F>(2).inverse().unwrap();
            (l * fi::<F>(-2)).scalar_mul(half)
        }
        _ => {
            if t.len() == 2 {
                let r = t[1].0 * fi::<F>(-t[1].1);
                if t[0].1 == 1 {
                    t[0].0 - r + fi::<F>(c)
                } else {
                    (t[0].0 + t[0].0 * fi::<F>(t[0].1 - 1)) - r + constant(fi::<F>(c))
                }
            } else {
                let l: LinearCombination<F> = t.iter().map(|(v, k)| (*v, fi::<F>(*k))).collect::<Vec<_>>().iter().collect();
                l + fi::<F>(c)
            }
        }
    }
}
/// The handle a call returned for this wire; outputs of paired allocations are not returned by any call.
pub fn var<F: Field>(vars: &Vars<F>, v: &Value) -> Variable<F> {
    let k = key(v);
    match (vars.get(&k), k.0.as_str()) {
        (Some(x), _) => *x,
        (None, "O") => Variable::MultiplierOutput(k.1),
        _ => panic!("no handle {:?} was returned", k),
    }
}
pub fn var_opt<F: Field>(vars: &Vars<F>, v: &Value) -> Option<Variable<F>> {
    if gets(v, "k") == "N" {
        None
    } else {
        Some(var(vars, v))
    }
}
pub fn terms<F: Field>(v: &Value, vars: &Vars<F>) -> Vec<(Variable<F>, i64)> {
    v.as_array().unwrap().iter().map(|x| (var(vars, &x[0]), x[1].as_i64().unwrap())).collect()
}
/// Drop guard-free shared list of handles produced by second-phase closures.
pub type Seen = Arc<Mutex<Vec<Key>>>;

struct Closure<F: Field> {
    kind: String,
    a: Option<Variable<F>>,
    b: Option<Variable<F>>,
    k: i64,
}
fn closure<F: Field, CS: RandomizedConstraintSystem<F>>(cs: &mut CS, d: &Closure<F>, prover: bool, seen: &Seen) -> Result<(), R1CSError> {
    let see = |v: &[Variable<F>]| seen.lock().unwrap().extend(v.iter().map(key_of));
    match d.kind.as_str() {
        "zcon" => {
            let z = cs.challenge_scalar(b"z-con");
            cs.constrain(d.a.unwrap() * z - z * fi::<F>(d.k));
        }
        "zmul" => {
            let z = cs.challenge_scalar(b"z-mul");
            let (l, r, o) = cs.multiply(d.a.unwrap() * z, d.b.unwrap().into());
            see(&[l, r, o]);
            cs.constrain(o - z * fi::<F>(d.k));
        }
        "zalloc" => {
            let x = cs.allocate(if prover { Some(fi::<F>(d.k)) } else { None })?;
            see(&[x]);
            cs.constrain(x - fi::<F>(d.k));
        }
        "zgate" => {
            let (l, r, o) = cs.allocate_multiplier(if prover { Some((fi::<F>(d.k), fi::<F>(2))) } else { None })?;
            see(&[l, r, o]);
            cs.constrain(l + o - fi::<F>(3 * d.k));
        }
        "nop" => {}
        "err" => return Err(R1CSError::GadgetError { description: "closure".into() }),
        k => panic!("harness: closure {}", k),
    }
    Ok(())
}

/// Returned handles of one call: compared with the specification by the caller.
pub struct Trace<F: Field> {
    pub vars: Vars<F>,
    pub bad: Vec<String>,
}
impl<F: Field> Trace<F> {
    fn check(&mut self, side: &str, step: usize, got: &[Variable<F>], exp: &Value, extra: usize) {
        let want: Vec<Key> = exp["h"].as_array().unwrap().iter().map(key).collect();
        let have: Vec<Key> = got.iter().map(key_of).collect();
        if have.len() != want.len() + extra || have[..want.len()] != want[..] {
            self.bad.push(format!("{} step {}: returned {:?}, expected {:?}", side, step, have, want));
        }
        for (i, w) in want.iter().enumerate() {
            if let Some(v) = got.get(i) {
                self.vars.insert(w.clone(), *v);
            }
        }
    }
    fn obs(&mut self, side: &str, step: usize, m: Metrics, size: usize, exp: &Value, who: &str) {
        let e = &exp[who];
        let want = (getu(exp, "mult"), getu(e, "c1"), getu(e, "c2"), getu(e, "c1") + getu(e, "c2"), getu(e, "size"));
        let have = (m.multipliers, m.phase_one_constraints, m.phase_two_constraints, m.constraints, size);
        if want != have {
            self.bad.push(format!("{} step {}: (gates, phase 1, phase 2, all, size) = {:?}, expected {:?}", side, step, have, want));
        }
    }
}
pub struct ProverSide<'g, C: AffineRepr> {
    pub p: Prover<'g, Transcript, C>,
    pub comms: Vec<C>, // one per commit / commit_vec call, in order
    pub openings: Vec<(Vec<i64>, C::ScalarField)>,
    pub tr: Trace<C::ScalarField>,
    pub seen: Seen,
}
pub fn run_prover<'g, C: AffineRepr>(
    prog: &[Value],
    pc: &'g PedersenGens<C>,
    bp: &BulletproofGens<C>,
    transcript: Transcript,
    share_blinding: bool,
) -> ProverSide<'g, C> {
    let mut rng = rand::thread_rng();
    let mut s = ProverSide {
        p: Prover::new(pc, transcript),
        comms: vec![],
        openings: vec![],
        tr: Trace { vars: HashMap::new(), bad: vec![] },
        seen: Default::default(),
    };
    type F<C> = <C as AffineRepr>::ScalarField;
    for (i, o) in prog.iter().enumerate() {
        let (a, exp) = (&o["a"], &o["exp"]);
        let mut hs = vec![];
        let mut missing = false;
        match gets(o, "op") {
            "commit" => {
                let b = F::<C>::rand(&mut rng);
                let (c, v) = s.p.commit(fi(geti(a, "v")), b);
                s.comms.push(c);
                s.openings.push((vec![geti(a, "v")], b));
                hs.push(v);
            }
            "commit_vec" => {
                let vi: Vec<i64> = geta(a, "v").iter().map(|x| x.as_i64().unwrap()).collect();
                let v: Vec<F<C>> = vi.iter().map(|x| fi(*x)).collect();
                let b = if share_blinding && !s.openings.is_empty() { s.openings[0].1 } else { F::<C>::rand(&mut rng) };
                let (c, v) = s.p.commit_vec(&v, b, bp);
                s.comms.push(c);
                s.openings.push((vi, b));
                hs = v;
            }
            "alloc" => match s.p.allocate(Some(fi(geti(a, "v")))) {
                Ok(v) => hs.push(v),
                Err(e) => s.tr.bad.push(format!("prover step {}: allocate failed: {:?}", i, e)),
            },
            "alloc_missing" => {
                missing = true;
                match s.p.allocate(None) {
                    Err(R1CSError::MissingAssignment) => {}
                    r => s.tr.bad.push(format!("prover step {}: allocate(None) gave {:?}", i, r.map(|v| key_of(&v)))),
                }
            }
            "mul_missing" => {
                missing = true;
                match s.p.allocate_multiplier(None) {
                    Err(R1CSError::MissingAssignment) => {}
                    r => s.tr.bad.push(format!("prover step {}: allocate_multiplier(None) gave {:?}", i, r.is_ok())),
                }
            }
            "alloc_mul" => match s.p.allocate_multiplier(Some((fi(geti(a, "l")), fi(geti(a, "r"))))) {
                Ok((l, r, o)) => hs = vec![l, r, o],
                Err(e) => s.tr.bad.push(format!("prover step {}: allocate_multiplier failed: {:?}", i, e)),
            },
            "mul" => {
                let (x, y) = (var(&s.tr.vars, &a["a"]), var(&s.tr.vars, &a["b"]));
                let (l, r, o) = s.p.multiply(lc(&[(x, 1)], geti(a, "c"), i), lc(&[(y, geti(a, "k"))], 0, i + 1));
                hs = vec![l, r, o];
            }
            "cons" => {
                let t = terms(&a["t"], &s.tr.vars);
                let l = lc(&t, geti(a, "c"), i);
                if s.p.eval(&l) != fi::<F<C>>(exp["hv"][0].as_i64().unwrap()) {
                    s.tr.bad.push(format!("prover step {}: eval of the constraint is wrong", i));
                }
                s.p.constrain(l);
            }
            "defer" => {
                let d = Closure { kind: gets(a, "kind").into(), a: var_opt(&s.tr.vars, &a["a"]), b: var_opt(&s.tr.vars, &a["b"]), k: geti(a, "k") };
                let seen = s.seen.clone();
                if s.p.specify_randomized_constraints(move |cs| closure(cs, &d, true, &seen)).is_err() {
                    s.tr.bad.push(format!("prover step {}: specify_randomized_constraints failed", i));
                }
            }
            "finish" => continue,
            k => panic!("harness: op {}", k),
        }
        if !missing {
            s.tr.check("prover", i, &hs, exp, 0);
            if gets(o, "op") != "cons" {
                for (h, v) in hs.iter().zip(geta(exp, "hv")) {
                    if s.p.eval(&(*h).into()) != fi::<F<C>>(v.as_i64().unwrap()) {
                        s.tr.bad.push(format!("prover step {}: {:?} has the wrong value", i, key_of(h)));
                    }
                }
            }
        }
        let m = s.p.metrics();
        let sz = s.p.size();
        s.tr.obs("prover", i, m, sz, exp, "p");
    }
    s
}
pub struct VerifierSide<C: AffineRepr> {
    pub v: Verifier<Transcript, C>,
    pub tr: Trace<C::ScalarField>,
    pub seen: Seen,
}
/// Same calls on the verifier, with the deviations recorded in the program.
pub fn run_verifier<C: AffineRepr>(
    prog: &[Value],
    comms: &[C],
    openings: &[(Vec<i64>, C::ScalarField)],
    pc: &PedersenGens<C>,
    bp: &BulletproofGens<C>,
    transcript: Transcript,
) -> VerifierSide<C> {
    type F<C> = <C as AffineRepr>::ScalarField;
    let mut s = VerifierSide { v: Verifier::new(transcript), tr: Trace { vars: HashMap::new(), bad: vec![] }, seen: Default::default() };
    let mut ci = 0;
    let mut late = vec![];
    let recommit = |vals: &[i64], b: F<C>| -> C {
        let mut p = Prover::new(pc, Transcript::new(b"recommit"));
        let v: Vec<F<C>> = vals.iter().map(|x| fi(*x)).collect();
        p.commit_vec(&v, b, bp).0
    };
    for (i, o) in prog.iter().enumerate() {
        let (a, va, exp) = (&o["a"], &o["va"], &o["exp"]);
        let alt = gets(va, "alt");
        let mut hs = vec![];
        let mut extra = 0;
        let mut skip = false;
        match gets(o, "op") {
            "commit" => {
                let (v, b) = &openings[ci];
                let c = match alt {
                    "comm" => pc.commit(fi(v[0] + 1), *b),
                    "blind" => pc.commit(fi(v[0]), *b + F::<C>::one()),
                    _ => comms[ci],
                };
                ci += 1;
                hs.push(s.v.commit(c));
            }
            "commit_vec" => {
                let (v, b) = &openings[ci];
                let mut v2 = v.clone();
                let n = v2.len();
                let c = match alt {
                    "vfirst" => {
                        v2[0] += 1;
                        recommit(&v2, *b)
                    }
                    "vlast" => {
                        v2[n - 1] += 1;
                        recommit(&v2, *b)
                    }
                    "vblind" => recommit(&v2, *b + F::<C>::one()),
                    _ => comms[ci],
                };
                if alt == "vdim" {
                    extra = 1;
                }
                ci += 1;
                hs = s.v.commit_vec(n + extra, c);
            }
            "alloc" => match s.v.allocate(None) {
                Ok(v) => hs.push(v),
                Err(e) => s.tr.bad.push(format!("verifier step {}: allocate failed: {:?}", i, e)),
            },
            "alloc_missing" | "mul_missing" => skip = true,
            "alloc_mul" => match s.v.allocate_multiplier(None) {
                Ok((l, r, o)) => hs = vec![l, r, o],
                Err(e) => s.tr.bad.push(format!("verifier step {}: allocate_multiplier failed: {:?}", i, e)),
            },
            "mul" => {
                let (x, y) = (var(&s.tr.vars, &va["a"]), var(&s.tr.vars, &va["b"]));
                let (l, r, o) = s.v.multiply(lc(&[(x, 1)], geti(va, "c"), i + 2), lc(&[(y, geti(va, "k"))], 0, i + 3));
                hs = vec![l, r, o];
            }
            "cons" => {
                let t = terms(&va["t"], &s.tr.vars);
                let l = lc(&t, geti(va, "c"), i + 2);
                match alt {
                    "drop" => {}
                    "late" => late.push(l),
                    "dup" => {
                        s.v.constrain(l.clone());
                        s.v.constrain(l)
                    }
                    _ => s.v.constrain(l),
                }
            }
            "defer" => {
                if alt != "zdrop" {
                    let d = Closure { kind: gets(va, "kind").into(), a: var_opt(&s.tr.vars, &va["a"]), b: var_opt(&s.tr.vars, &va["b"]), k: geti(va, "k") };
                    let seen = s.seen.clone();
                    if s.v.specify_randomized_constraints(move |cs| closure(cs, &d, false, &seen)).is_err() {
                        s.tr.bad.push(format!("verifier step {}: specify_randomized_constraints failed", i));
                    }
                }
            }
            "finish" => {
                if alt == "vgate" {
                    let _ = s.v.allocate_multiplier(None);
                }
                for l in late.drain(..) {
                    s.v.constrain(l)
                }
                continue;
            }
            k => panic!("harness: op {}", k),
        }
        let _ = a;
        if !skip {
            s.tr.check("verifier", i, &hs, exp, extra);
        }
        let m = s.v.metrics();
        let sz = s.v.size();
        s.tr.obs("verifier", i, m, sz, exp, "v");
    }
    s
}
pub fn label(alt: &str) -> Transcript {
    if alt == "label" {
        Transcript::new(b"Session")
    } else {
        Transcript::new(b"session")
    }
}
/// How a real run can end, in the specification's vocabulary.
pub fn ending<T>(r: &Result<Result<T, R1CSError>, String>) -> String {
    match r {
        Ok(Ok(_)) => "ok".into(),
        Ok(Err(R1CSError::InvalidGeneratorsLength)) => "gens".into(),
        Ok(Err(R1CSError::GadgetError { .. })) => "gadget_error".into(),
        Ok(Err(e)) => format!("error {:?}", e),
        Err(p) => format!("panic {}", p),
    }
}
/// Replays one behaviour. Returns (class, message) of every disagreement.
pub fn session<C: AffineRepr>(prog: &[Value], idx: usize, pc: &PedersenGens<C>, bp_for: &dyn Fn(usize) -> Arc<BulletproofGens<C>>) -> Vec<(String, String)> {
    let mut out = vec![];
    let fin = prog.last().unwrap();
    assert_eq!(gets(fin, "op"), "finish");
    let alt = gets(&fin["va"], "alt");
    let exp = &fin["exp"];
    let bp = bp_for(getu(&fin["a"], "cap"));
    let vbp = bp_for(getu(&fin["a"], "vcap"));
    let big = bp_for(64);
    let ps = match guarded(|| run_prover(prog, pc, &bp, label(""), idx % 3 == 0)) {
        Ok(p) => p,
        Err(e) => return vec![("complete".into(), format!("building the prover panicked: {}", e))],
    };
    for b in &ps.tr.bad {
        out.push(("observe".into(), b.clone()));
    }
    let (comms, openings, seen) = (ps.comms, ps.openings, ps.seen);
    let r = guarded(|| ps.p.prove(&bp));
    let got = ending(&r);
    let want = gets(exp, "p");
    let h2: Vec<Key> = geta(exp, "h2").iter().map(key).collect();
    if want == "unsupported" {
        if got != "ok" {
            return out;
        }
    } else if got != want {
        let class = if want == "ok" { "complete" } else { "error" };
        out.push((class.into(), format!("prove: {}, expected {}", got, want)));
    }
    let proof = match r {
        Ok(Ok(p)) => p,
        _ => return out,
    };
    if want == "ok" && *seen.lock().unwrap() != h2 {
        out.push(("observe".into(), format!("second-phase handles of the prover {:?}, expected {:?}", seen.lock().unwrap(), h2)));
    }
    if want != "ok" && want != "unsupported" {
        return out;
    }
    let vs = match guarded(|| run_verifier(prog, &comms, &openings, pc, &big, label(alt))) {
        Ok(v) => v,
        Err(e) => return vec![("complete".into(), format!("building the verifier panicked: {}", e))],
    };
    for b in &vs.tr.bad {
        out.push(("observe".into(), b.clone()));
    }
    let vseen = vs.seen.clone();
    let r = guarded(|| vs.v.verify(&proof, pc, &vbp));
    let got = ending(&r);
    let w = gets(exp, "v");
    let accepted = got == "ok";
    match w {
        "accept" => {
            if !accepted {
                out.push(("complete".into(), format!("verify: {}, expected acceptance", got)));
            } else if want == "ok" && *vseen.lock().unwrap() != h2 {
                out.push(("observe".into(), format!("second-phase handles of the verifier {:?}, expected {:?}", vseen.lock().unwrap(), h2)));
            }
        }
        "reject" => {
            if accepted {
                out.push(("sound".into(), format!("verify accepted, expected rejection (deviation {})", gets(&fin["va"], "dev"))));
            }
        }
        _ => {
            if got != w {
                out.push((if accepted { "sound" } else { "error" }.into(), format!("verify: {}, expected {}", got, w)));
            }
        }
    }
    out
}
/// Generators for any capacity, created on demand.
pub struct GensCache<C: AffineRepr>(Mutex<HashMap<usize, Arc<BulletproofGens<C>>>>);
impl<C: AffineRepr> GensCache<C> {
    pub fn new() -> Self {
        GensCache(Mutex::new(HashMap::new()))
    }
    pub fn get(&self, n: usize) -> Arc<BulletproofGens<C>> {
        self.0.lock().unwrap().entry(n).or_insert_with(|| Arc::new(BulletproofGens::new(n, 1))).clone()
    }
}
fn run_all<C: AffineRepr>(items: &[(usize, Value)]) -> Vec<Value> {
    let pc = PedersenGens::<C>::default();
    let gens = GensCache::<C>::new();
    pmap(items, |_, (i, v)| {
        let prog = v.as_array().unwrap();
        let r = guarded(|| session::<C>(prog, *i, &pc, &|n| gens.get(n)));
        match r {
            Ok(bad) => json!({"i": i, "bad": bad}),
            Err(e) => json!({"i": i, "tool": e}),
        }
    })
}
/// `cth r1cs <in> <out>`: behaviours are spread over the four curves.
pub fn main(input: &str, output: &str) {
    let all = read_lines(input);
    let part = |k: usize| -> Vec<(usize, Value)> { all.iter().enumerate().filter(|(i, _)| i % 4 == k).map(|(i, v)| (i, v.clone())).collect() };
    let mut out = vec![];
    out.extend(run_all::<ark_pallas::Affine>(&part(0)));
    out.extend(run_all::<ark_secp256k1::Affine>(&part(1)));
    out.extend(run_all::<ark_vesta::Affine>(&part(2)));
    out.extend(run_all::<ark_secq256k1::Affine>(&part(3)));
    out.retain(|v| v["tool"].is_string() || !v["bad"].as_array().unwrap().is_empty());
    out.sort_by_key(|v| v["i"].as_u64());
    write_lines(output, &out);
    println!("replayed {}", all.len());
}
