//! Batches of verification equations (`Batch.tla`).
use crate::toy;
use crate::util::*;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::UniformRand;
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;
use serde_json::{json, Value};
use std::collections::HashMap;

type Tup<C> = (Vec<C>, Vec<<C as AffineRepr>::ScalarField>, Vec<<C as AffineRepr>::ScalarField>);
fn copy<C: AffineRepr>(t: &Tup<C>) -> VerificationTuple<C> {
    VerificationTuple { proof_dependent_points: t.0.clone(), proof_dependent_scalars: t.1.clone(), proof_independent_scalars: t.2.clone() }
}
/// A statement with n generators: gates, commitments of the given kind, and a last constraint that holds or not.
fn build<C: AffineRepr, CS: ConstraintSystem<C::ScalarField>>(cs: &mut CS, vars: &[Variable<C::ScalarField>], n: usize, good: bool, prover: bool) {
    let f = |v: i64| fi::<C::ScalarField>(v);
    for i in 0..n {
        let (l, r, o) = cs.allocate_multiplier(if prover { Some((f(2 + i as i64), f(3))) } else { None }).unwrap();
        cs.constrain(o - l * f(3));
        cs.constrain(r - f(3));
    }
    for (i, v) in vars.iter().enumerate() {
        cs.constrain(*v - f(5 + i as i64 + if good || i > 0 { 0 } else { 1 }));
    }
}
fn tuple<C: AffineRepr>(n: usize, kind: &str, good: bool, pc: &PedersenGens<C>, bp: &BulletproofGens<C>) -> Result<Tup<C>, String> {
    let f = |v: i64| fi::<C::ScalarField>(v);
    let mut rng = rand::thread_rng();
    let mut r = || C::ScalarField::rand(&mut rng);
    let mut p = Prover::<_, C>::new(pc, Transcript::new(b"batch"));
    let (mut pv, mut cs) = (vec![], vec![]);
    let second = kind == "phase2" && n > 1;
    // a gate less than the padded size, to exercise padding
    let gates = if n > 2 { n - 1 } else { n } - second as usize;
    match kind {
        "vec" => {
            let (c, v) = p.commit_vec(&[f(5), f(6)][..n.min(2)], r(), bp);
            cs.push(c);
            pv = v;
        }
        "mixed" => {
            let (c, v) = p.commit(f(5), r());
            cs.push(c);
            pv.push(v);
            let (c, v) = p.commit_vec(&[f(6)], r(), bp);
            cs.push(c);
            pv.extend(v);
        }
        _ => {
            for i in 0..2 {
                let (c, v) = p.commit(f(5 + i), r());
                cs.push(c);
                pv.push(v);
            }
        }
    }
    let late = |cs: &mut dyn FnMut(C::ScalarField)| cs(f(1));
    let _ = late;
    build::<C, _>(&mut p, &pv, gates, good, true);
    if second {
        let x = pv[0];
        p.specify_randomized_constraints(move |cs| {
            let z = cs.challenge_scalar(b"z");
            cs.multiply(x * z, x.into());
            Ok(())
        })
        .unwrap();
    }
    let proof = p.prove(bp).map_err(|e| format!("{:?}", e))?;
    let mk = || {
        let mut v = Verifier::<_, C>::new(Transcript::new(b"batch"));
        let vv = match kind {
            "vec" => v.commit_vec(n.min(2), cs[0]),
            "mixed" => {
                let mut a = vec![v.commit(cs[0])];
                a.extend(v.commit_vec(1, cs[1]));
                a
            }
            _ => cs.iter().map(|c| v.commit(*c)).collect(),
        };
        build::<C, _>(&mut v, &vv, gates, good, false);
        if second {
            let x = vv[0];
            v.specify_randomized_constraints(move |cs| {
                let z = cs.challenge_scalar(b"z");
                cs.multiply(x * z, x.into());
                Ok(())
            })
            .unwrap();
        }
        v
    };
    let alone = mk().verify(&proof, pc, bp).is_ok();
    if alone != good {
        return Err(format!("a member alone is {}", if alone { "accepted although its statement is false" } else { "rejected although its statement is true" }));
    }
    let t = mk().verification_scalars_and_points(&proof).map_err(|e| format!("{:?}", e))?;
    if t.proof_independent_scalars.len() != 2 + 2 * n {
        return Err(format!("equation of a circuit of {} gates has {} fixed scalars", gates, t.proof_independent_scalars.len()));
    }
    Ok((t.proof_dependent_points, t.proof_dependent_scalars, t.proof_independent_scalars))
}
fn with_error<C: AffineRepr>(t: &Tup<C>, n: usize, d: &str, c: i64, extra: C) -> VerificationTuple<C> {
    let mut v = copy(t);
    let k = fi::<C::ScalarField>(c);
    match d {
        "0" => {}
        "X" => {
            v.proof_dependent_points.push(extra);
            v.proof_dependent_scalars.push(k)
        }
        "B" => v.proof_independent_scalars[0] += k,
        "Bb" => v.proof_independent_scalars[1] += k,
        "G0" => v.proof_independent_scalars[2] += k,
        "Gl" => v.proof_independent_scalars[1 + n] += k,
        "H0" => v.proof_independent_scalars[2 + n] += k,
        "Hl" => v.proof_independent_scalars[1 + 2 * n] += k,
        "bad" => {
            for s in v.proof_dependent_scalars.iter_mut().chain(v.proof_independent_scalars.iter_mut()) {
                *s *= k
            }
        }
        _ => panic!("harness: direction {}", d),
    }
    v
}
fn run<C: AffineRepr>(items: &[(usize, Value)]) -> Vec<Value> {
    let pc = PedersenGens::<C>::default();
    let gens: HashMap<usize, BulletproofGens<C>> = [1, 2, 3, 4, 7, 8, 15, 16, 32].into_iter().map(|n| (n, BulletproofGens::new(n, 1))).collect();
    let extra = (C::generator().into_group() + C::generator() + pc.B_blinding).into_affine();
    let mut base: HashMap<(usize, String, bool), Tup<C>> = HashMap::new();
    let mut out = vec![];
    for n in [1, 2, 4, 8, 16] {
        for kind in ["scalar", "vec", "mixed", "phase2"] {
            for good in [true, false] {
                match guarded(|| tuple::<C>(n, kind, good, &pc, &gens[&32])) {
                    Ok(Ok(t)) => {
                        base.insert((n, kind.to_string(), good), t);
                    }
                    Ok(Err(e)) | Err(e) => out.push(json!({"member": [n, kind, good], "verdict": e})),
                }
            }
        }
    }
    if !out.is_empty() {
        return out;
    }
    let res = pmap(items, |_, (i, v)| {
        let ms = geta(v, "m");
        let vts: Vec<_> = ms
            .iter()
            .map(|m| {
                let (d, c) = (gets(&m["e"], "d"), geti(&m["e"], "c"));
                let n = getu(m, "n");
                with_error(&base[&(n, gets(m, "kind").to_string(), d != "bad")], n, d, c, extra)
            })
            .collect();
        let n = getu(v, "n");
        // capacity: exactly enough, plenty, or one too few
        let (cap, short) = match i % 5 {
            0 => (n, false),
            4 if n > 1 => (n - 1, true),
            _ => (32, false),
        };
        let r = guarded(|| batch_verify(vts, &pc, &gens[&cap]));
        let got = match r {
            Ok(Ok(())) => "ok".to_string(),
            Ok(Err(R1CSError::VerificationError)) => "no".into(),
            Ok(Err(R1CSError::InvalidGeneratorsLength)) => "gens".into(),
            Ok(Err(e)) => format!("{:?}", e),
            Err(p) => format!("panic {}", p),
        };
        let want = if short { "gens" } else { gets(v, "exp") };
        (*i, got.clone(), want.to_string(), got == want)
    });
    out.extend(res.into_iter().filter(|r| !r.3).map(|(i, g, w, _)| json!({"i": i, "verdict": g, "expected": w})));
    out
}
/// `cth batch <in> <out>`
pub fn main(input: &str, output: &str) {
    let all = read_lines(input);
    let part = |k: usize| -> Vec<(usize, Value)> { all.iter().enumerate().filter(|(i, _)| i % 3 == k).map(|(i, v)| (i, v.clone())).collect() };
    let mut out = vec![];
    out.extend(run::<ark_pallas::Affine>(&part(0)));
    out.extend(run::<ark_secp256k1::Affine>(&part(1)));
    out.extend(run::<ark_vesta::Affine>(&part(2)));
    write_lines(output, &out);
}
/// `cth batch-weights <patterns> <runs> <out>`: on a curve of 43 points, how often each pattern of errors
/// along one base is accepted.
pub fn weights(input: &str, runs: &str, output: &str) {
    let runs: usize = runs.parse().unwrap();
    let pc = PedersenGens::<toy::A31>::default();
    let bp = BulletproofGens::<toy::A31>::new(1, 1);
    let out = pmap(&read_lines(input), |i, v| {
        let cs: Vec<toy::F43> = geta(v, "c").iter().map(|x| fi(x.as_i64().unwrap())).collect();
        let mut hits = 0;
        for _ in 0..runs {
            let vts = cs
                .iter()
                .map(|c| VerificationTuple { proof_dependent_points: vec![pc.B], proof_dependent_scalars: vec![*c], proof_independent_scalars: vec![fi(0); 4] })
                .collect();
            if guarded(|| batch_verify(vts, &pc, &bp).is_ok()).unwrap_or(false) {
                hits += 1
            }
        }
        json!({"i": i, "hits": hits, "runs": runs})
    });
    write_lines(output, &out);
}
