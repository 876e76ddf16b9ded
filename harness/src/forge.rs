//! Attempts to prove a false statement with the deviating prover of `own`.
use crate::own::*;
use ark_ec::AffineRepr;
use ark_ff::{Field, UniformRand, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;

pub struct Layout {
    pub op_degree: usize,
    pub ai: usize,
    pub ao: usize,
    pub comms: Vec<usize>,
}
/// The degree of every commitment, read off the verification equation of an arbitrary proof.
pub fn layout<C: AffineRepr>(ncomm: usize, tdeg_hint: usize) -> Option<Layout> {
    // a syntactically fine proof with random points, evaluated by the verifier
    let mut rng = rand::thread_rng();
    let pc = PedersenGens::<C>::default();
    let bp = BulletproofGens::<C>::new(4, 1);
    let f = |v: u64| C::ScalarField::from(v);
    let mut p = Prover::<_, C>::new(&pc, Transcript::new(b"layout"));
    let mut cs = vec![];
    for j in 0..ncomm {
        let (c, _) = p.commit_vec(&[f(j as u64 + 3)], C::ScalarField::rand(&mut rng), &bp);
        cs.push(c);
    }
    p.allocate_multiplier(Some((f(2), f(3)))).ok()?;
    merlin::rec::take();
    let proof = p.prove(&bp).ok()?;
    let mut v = Verifier::<_, C>::new(Transcript::new(b"layout"));
    for c in &cs {
        v.commit_vec(1, *c);
    }
    v.allocate_multiplier(None).ok()?;
    merlin::rec::set_recording(true);
    merlin::rec::take();
    let vt = v.verification_scalars_and_points(&proof).ok()?;
    let ev = merlin::rec::take();
    merlin::rec::set_recording(false);
    let x = ev.iter().filter(|e| e.challenge).map(|e| scalar_of_challenge::<C>(&e.data)).nth(3)?;
    let bytes = proof.to_bytes();
    let psz = crate::util::ser(&cs.get(0).copied().unwrap_or(pc.B)).len();
    let a_i = C::deserialize_compressed(&bytes[..psz]).ok()?;
    let a_o = C::deserialize_compressed(&bytes[psz..2 * psz]).ok()?;
    let s1 = C::deserialize_compressed(&bytes[2 * psz..3 * psz]).ok()?;
    let deg = |pt: &C| -> Option<usize> {
        let s: C::ScalarField = vt.proof_dependent_points.iter().zip(&vt.proof_dependent_scalars).filter(|(q, _)| *q == pt).map(|(_, s)| *s).sum();
        (0..tdeg_hint).find(|d| x.pow([*d as u64]) == s)
    };
    let s_deg = deg(&s1)?;
    Some(Layout { op_degree: s_deg - 1, ai: deg(&a_i)?, ao: deg(&a_o)?, comms: cs.iter().map(|c| deg(c)).collect::<Option<_>>()? })
}

/// One false gate 2*3 = 7, and one vector commitment of dimension 1 per entry of the layout.
/// `carrier`: which commitment carries the compensating component along H (0 = A_O, j = j-th commitment),
/// `target`: the commitment whose contents it is multiplied with (-1 = A_I).
/// With `honest` the gate is a true one and nothing is compensated (sanity of this prover).
pub fn forge<C: AffineRepr>(lay: &Layout, carrier: i64, target: i64, honest: bool) -> bool {
    use ark_serialize::CanonicalSerialize;
    let mut rng = rand::thread_rng();
    let pc = PedersenGens::<C>::default();
    let bp = BulletproofGens::<C>::new(4, 1);
    let f = |v: u64| C::ScalarField::from(v);
    let z = C::ScalarField::zero();
    let mut r = || C::ScalarField::rand(&mut rng);
    let ai = VC { g: vec![f(2)], h: vec![f(3)], b: r(), deg: lay.ai };
    let out = f(if honest { 6 } else { 7 });
    let mut ao = VC { g: vec![out], h: vec![z], b: r(), deg: lay.ao };
    let mut comms: Vec<_> = lay.comms.iter().map(|d| VC { g: vec![f(5)], h: vec![z], b: r(), deg: *d }).collect();
    // gate check: aL*aR - aO + target*h = 0
    let tv = if target == -1 { f(2) } else if target == 0 { f(7) } else { f(5) };
    let h = (f(7) - f(6)) * tv.inverse().unwrap();
    if !honest {
        if carrier == 0 {
            ao.h[0] = h
        } else {
            comms[carrier as usize - 1].h[0] = h
        }
    }
    let mut t = Transcript::new(b"forge");
    t.append_message(b"dom-sep", b"r1cs v1");
    let pts: Vec<C> = comms.iter().map(|c| c.point(&pc, &bp)).collect();
    for p in &pts {
        let mut b = vec![];
        p.serialize_compressed(&mut b).unwrap();
        t.append_message(b"V", &b);
    }
    // constraints: L = 2, R = 3, O = 7
    let nc = comms.len();
    let weights = move |zc: C::ScalarField| Weights { wl: vec![zc], wr: vec![zc * zc], wo: vec![zc * zc * zc], wc: vec![vec![z]; nc] };
    let bytes = prove::<C>(t, &pc, &bp, 1, lay.op_degree, &ai, &ao, &comms, weights);
    let proof = match R1CSProof::<C>::from_bytes(&bytes) {
        Ok(p) => p,
        Err(_) => return false,
    };
    let mut v = Verifier::<_, C>::new(Transcript::new(b"forge"));
    for p in &pts {
        v.commit_vec(1, *p);
    }
    let (l, rr, o) = v.allocate_multiplier(None).unwrap();
    v.constrain(l - f(2));
    v.constrain(rr - f(3));
    v.constrain(o - out);
    v.verify(&proof, &pc, &bp).is_ok()
}

/// `cth layout <out>`: the layout for 0..17 vector commitments, and whether this prover can follow it.
pub fn layouts(output: &str) {
    use serde_json::json;
    let mut out = vec![];
    for n in 0..=17usize {
        match crate::util::guarded(|| layout::<ark_pallas::Affine>(n, 90)) {
            Ok(Some(l)) => {
                let honest = crate::util::guarded(|| forge::<ark_pallas::Affine>(&l, 0, 0, true)).unwrap_or(false);
                out.push(json!({"n": n, "op": l.op_degree, "ai": l.ai, "ao": l.ao, "comms": l.comms, "honest": honest}))
            }
            _ => {}
        }
    }
    crate::util::write_lines(output, &out);
}
/// `cth forge <layouts> <attempts> <out>`
pub fn attempts(layouts: &str, input: &str, output: &str) {
    use crate::util::*;
    use serde_json::json;
    let lays = read_lines(layouts);
    let out: Vec<_> = read_lines(input)
        .iter()
        .map(|a| {
            let l = lays.iter().find(|l| l["n"] == a["n"]).unwrap();
            let lay = Layout { op_degree: getu(l, "op"), ai: getu(l, "ai"), ao: getu(l, "ao"), comms: geta(l, "comms").iter().map(|x| x.as_u64().unwrap() as usize).collect() };
            let acc = guarded(|| forge::<ark_pallas::Affine>(&lay, geti(a, "carrier"), geti(a, "target"), false)).unwrap_or(false);
            json!({"n": a["n"], "carrier": a["carrier"], "target": a["target"], "accepted": acc})
        })
        .collect();
    write_lines(output, &out);
}
