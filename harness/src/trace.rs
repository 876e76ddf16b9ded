//! Recordings of real runs: verification equations (`VerifEq.tla`) and transcripts (`Transcript.tla`).
use crate::own::scalar_of_challenge;
use crate::r1cs::*;
use crate::toy;
use crate::util::*;
use crate::wire::{tokens_of, Tok};
use ark_ec::AffineRepr;
use ark_ff::{BigInteger, One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use serde_json::{json, Value};

pub fn int<F: PrimeField>(x: &F) -> u64 {
    let b = x.into_bigint().to_bytes_le();
    b.iter().take(8).enumerate().map(|(i, v)| (*v as u64) << (8 * i)).sum()
}
/// The elements of an encoded proof in order, with their roles.
pub fn roles(toks: &[Tok]) -> Vec<(String, usize, Vec<u8>)> {
    let mut out = vec![];
    let mut pos = 0;
    let mut one = |r: &str, i: usize, pos: &mut usize| {
        out.push((r.to_string(), i, toks[*pos].b.clone()));
        *pos += 1;
    };
    for r in ["AI1", "AO1", "S1"] {
        one(r, 0, &mut pos);
    }
    let two = toks[pos].b[0] == 1;
    pos += 1;
    if two {
        for r in ["AI2", "AO2", "S2"] {
            one(r, 0, &mut pos);
        }
    }
    for (k, r) in ["T", "L", "R"].iter().enumerate() {
        if k == 1 {
            for r in ["tx", "txb", "eb"] {
                one(r, 0, &mut pos);
            }
        }
        let n = u64::from_le_bytes(toks[pos].b.clone().try_into().unwrap()) as usize;
        pos += 1;
        for i in 0..n {
            one(r, i, &mut pos);
        }
    }
    one("a", 0, &mut pos);
    one("b", 0, &mut pos);
    out
}
struct Recorded<C: AffineRepr> {
    comms: Vec<(bool, C)>,
    roles: Vec<(String, usize, Vec<u8>)>,
    pev: Vec<merlin::rec::Event>,
    vev: Vec<merlin::rec::Event>,
    vt: VerificationTuple<C>,
}
/// One honest session with both transcripts recorded; None if it fails (that is C01's business).
fn record<C: AffineRepr>(prog: &[Value], pc: &PedersenGens<C>, bp: &BulletproofGens<C>) -> Option<Recorded<C>> {
    merlin::rec::set_recording(true);
    merlin::rec::take();
    let ps = guarded(|| run_prover(prog, pc, bp, label(""), false)).ok()?;
    let (comms, openings) = (ps.comms, ps.openings);
    let proof = guarded(|| ps.p.prove(bp)).ok()?.ok()?;
    let pev = merlin::rec::take();
    let vs = guarded(|| run_verifier(prog, &comms, &openings, pc, bp, label(""))).ok()?;
    let vt = guarded(|| vs.v.verification_scalars_and_points(&proof)).ok()?.ok()?;
    let vev = merlin::rec::take();
    merlin::rec::set_recording(false);
    let kinds = prog.iter().filter(|o| ["commit", "commit_vec"].contains(&gets(o, "op"))).map(|o| gets(o, "op") == "commit_vec");
    let psz = C::zero().serialized_size(Compress::Yes);
    let ssz = C::ScalarField::zero().serialized_size(Compress::Yes);
    let toks = tokens_of(&proof.to_bytes(), psz, ssz)?;
    Some(Recorded { comms: kinds.zip(comms).collect(), roles: roles(&toks), pev, vev, vt })
}
/// Every element of statement and proof, in the order of the protocol.
fn elements<C: AffineRepr>(r: &Recorded<C>) -> Vec<(String, usize, Vec<u8>)> {
    let (mut nv, mut nc) = (0, 0);
    let mut out = vec![];
    for (vec, c) in &r.comms {
        if *vec {
            out.push(("C".to_string(), nc, ser(c)));
            nc += 1
        } else {
            out.push(("V".to_string(), nv, ser(c)));
            nv += 1
        }
    }
    out.extend(r.roles.iter().cloned());
    if !r.roles.iter().any(|x| x.0 == "AI2") {
        for k in ["AI2", "AO2", "S2"] {
            out.push((k.to_string(), 0, ser(&C::zero())));
        }
    }
    out
}
fn closure_challenges(prog: &[Value]) -> usize {
    prog.iter().filter(|o| gets(o, "op") == "defer" && ["zcon", "zmul"].contains(&gets(&o["va"], "kind"))).count()
}

fn equation<C: AffineRepr>(prog: &[Value], q: u64, pc: &PedersenGens<C>, bp: &BulletproofGens<C>) -> Option<Value> {
    for _ in 0..12 {
        let r = match record(prog, pc, bp) {
            Some(r) => r,
            None => continue,
        };
        let ch: Vec<C::ScalarField> = r.vev.iter().filter(|e| e.challenge).map(|e| scalar_of_challenge::<C>(&e.data)).collect();
        let zc = closure_challenges(prog);
        if ch.len() < zc + 5 {
            return Some(json!({"prog": prog, "problem": format!("{} challenges drawn", ch.len())}));
        }
        let sc = |n: &str| -> C::ScalarField {
            let b = &r.roles.iter().find(|x| x.0 == n).unwrap().2;
            C::ScalarField::deserialize_compressed(&b[..]).unwrap()
        };
        // name every point
        let mut names: Vec<(String, usize, C)> = elements(&r)
            .into_iter()
            .filter(|(n, _, _)| !["tx", "txb", "eb", "a", "b"].contains(&n.as_str()))
            .map(|(n, i, b)| (n, i, C::deserialize_compressed(&b[..]).unwrap()))
            .collect();
        let padded = (r.vt.proof_independent_scalars.len().max(2) - 2) / 2;
        names.push(("B".into(), 0, pc.B));
        names.push(("Bb".into(), 0, pc.B_blinding));
        let share = bp.share(0);
        for (i, g) in share.G(padded).enumerate() {
            names.push(("G".into(), i, *g));
        }
        for (i, h) in share.hook_H(padded).enumerate() {
            names.push(("H".into(), i, *h));
        }
        names.retain(|x| !x.2.is_zero());
        let mut bytes: Vec<Vec<u8>> = names.iter().map(|x| ser(&x.2)).collect();
        bytes.sort();
        if bytes.windows(2).any(|w| w[0] == w[1]) {
            continue; // two elements coincide on this small curve: take another run
        }
        let x = ch[zc + 3];
        let mut pw = vec![C::ScalarField::one()];
        for i in 0..90 {
            pw.push(pw[i] * x)
        }
        if (0..90).any(|i| (0..i).any(|j| pw[i] == pw[j])) || x.is_zero() {
            continue;
        }
        let mut coef = vec![C::ScalarField::zero(); names.len()];
        let mut unknown = C::ScalarField::zero();
        let fixed: Vec<C> = [pc.B, pc.B_blinding].into_iter().chain(share.G(padded).copied()).chain(share.hook_H(padded).copied()).collect();
        if fixed.len() != r.vt.proof_independent_scalars.len() || r.vt.proof_dependent_points.len() != r.vt.proof_dependent_scalars.len() {
            return Some(json!({"prog": prog, "problem": "points and scalars of the equation differ in number"}));
        }
        for (p, s) in r.vt.proof_dependent_points.iter().zip(&r.vt.proof_dependent_scalars).chain(fixed.iter().zip(&r.vt.proof_independent_scalars)) {
            if p.is_zero() {
                continue;
            }
            match names.iter().position(|n| n.2 == *p) {
                Some(i) => coef[i] += s,
                None => unknown += s,
            }
        }
        let chal = &ch[zc..];
        return Some(json!({
            "prog": prog, "q": q, "zs": ch[..zc].iter().map(int).collect::<Vec<_>>(),
            "y": int(&chal[0]), "z": int(&chal[1]), "u": int(&chal[2]), "x": int(&chal[3]), "w": int(&chal[4]),
            "cs": chal[5..].iter().map(int).collect::<Vec<_>>(),
            "tx": int(&sc("tx")), "txb": int(&sc("txb")), "eb": int(&sc("eb")), "ia": int(&sc("a")), "ib": int(&sc("b")),
            "padded": padded, "unknown": int(&unknown), "problem": "",
            "el": names.iter().zip(&coef).map(|(n, c)| json!([n.0, n.1, int(c)])).collect::<Vec<_>>(),
        }));
    }
    None
}
/// `cth equation <sessions> <out>`
pub fn equations(input: &str, output: &str) {
    let mut out = vec![];
    let (pa, pb) = (PedersenGens::<toy::AffA>::default(), PedersenGens::<toy::AffB>::default());
    let (ga, gb) = (BulletproofGens::<toy::AffA>::new(64, 1), BulletproofGens::<toy::AffB>::new(64, 1));
    let mut skipped = 0;
    for (i, v) in read_lines(input).iter().enumerate() {
        let p = v.as_array().unwrap();
        // generators may coincide on one of these small curves, so the other one is tried next
        let (a, b) = (|| equation(p, 46027, &pa, &ga), || equation(p, 46183, &pb, &gb));
        let e = if i % 2 == 0 { a().or_else(b) } else { b().or_else(a) };
        match e {
            Some(mut e) => {
                e["k"] = json!(i);
                out.push(e)
            }
            None => skipped += 1,
        }
    }
    write_lines(output, &out);
    println!("{}", skipped);
}

fn transcript<C: AffineRepr>(prog: &[Value], pc: &PedersenGens<C>, bp: &BulletproofGens<C>) -> Option<Value> {
    let r = record(prog, pc, bp)?;
    let mut els = elements(&r);
    // the unused polynomial commitment is never sent
    els.retain(|e| !(e.0 == "T" && e.2 == ser(&C::zero())));
    let side = |evs: &[merlin::rec::Event]| -> Vec<Value> {
        let mut used = vec![false; els.len()];
        // transcripts in order of appearance
        let mut ids: Vec<u64> = vec![];
        let mut id = |x: u64| match ids.iter().position(|y| *y == x) {
            Some(p) => p,
            None => {
                ids.push(x);
                ids.len() - 1
            }
        };
        evs.iter()
            .map(|e| {
                if let Some(of) = e.fork_of {
                    let f = id(of);
                    return json!({"t": id(e.transcript), "e": "fork", "of": f, "el": [], "num": -1, "raw": ""});
                }
                let mut found = vec![];
                if !e.challenge {
                    for (i, (n, k, b)) in els.iter().enumerate() {
                        // equal encodings (identities) are taken in protocol order, one per event
                        let dup_before = found.iter().any(|f: &usize| els[*f].2 == *b);
                        if !used[i] && !dup_before && e.data.windows(b.len()).any(|w| w == &b[..]) {
                            used[i] = true;
                            found.push(i);
                        }
                        let _ = (n, k);
                    }
                }
                let num = if !e.challenge && e.data.len() == 8 { u64::from_le_bytes(e.data.clone().try_into().unwrap()).min(1 << 20) as i64 } else { -1 };
                let raw = if e.challenge { hex(&e.data) } else { format!("{}:{}", String::from_utf8_lossy(e.label), hex(&e.data)) };
                json!({"t": id(e.transcript), "e": if e.challenge { "chal" } else { "abs" }, "of": 0,
                    "el": found.iter().map(|i| json!([els[*i].0, els[*i].1])).collect::<Vec<_>>(), "num": num, "raw": raw})
            })
            .collect()
    };
    let (p, v) = (side(&r.pev), side(&r.vev));
    let scal: Vec<String> = r.vev.iter().filter(|e| e.challenge).map(|e| hex(&ser(&scalar_of_challenge::<C>(&e.data)))).collect();
    let nv = r.comms.iter().filter(|c| !c.0).count();
    let id = ser(&C::zero());
    let dt: Vec<usize> = r.roles.iter().filter(|x| x.0 == "T" && x.2 != id).map(|x| x.1).collect();
    Some(json!({"nv": nv, "nc": r.comms.len() - nv, "zc": closure_challenges(prog), "rounds": r.roles.iter().filter(|x| x.0 == "L").count(),
        "t": dt, "p": p, "v": v, "scal": scal, "prog": prog}))
}
/// `cth transcript <sessions> <out>`
pub fn transcripts(input: &str, output: &str) {
    let mut out = vec![];
    let (pa, pb) = (PedersenGens::<ark_pallas::Affine>::default(), PedersenGens::<ark_secp256k1::Affine>::default());
    let (ga, gb) = (BulletproofGens::<ark_pallas::Affine>::new(64, 1), BulletproofGens::<ark_secp256k1::Affine>::new(64, 1));
    for (i, v) in read_lines(input).iter().enumerate() {
        let p = v.as_array().unwrap();
        let e = if i % 2 == 0 { transcript(p, &pa, &ga) } else { transcript(p, &pb, &gb) };
        if let Some(mut e) = e {
            e["k"] = json!(i);
            out.push(e)
        }
    }
    write_lines(output, &out);
}
