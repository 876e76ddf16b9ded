//! The standard re-randomization tables: discrete logarithms on small curves for Windows.tla, and the
//! circuit's behaviour on boundary scalars of the real curves (C11).
use crate::gadgets::Rec;
use crate::toy::*;
use crate::trees::*;
use crate::util::*;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, One, PrimeField, Zero};
use ark_std::UniformRand;
use rand::SeedableRng;
use bulletproofs::r1cs::*;
use relations::curve::*;
use relations::rerandomize::*;
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use serde_json::{json, Value};
use std::collections::HashMap;

fn logs<P: SWCurveConfig>(name: &str, h: Affine<P>, t: &[relations::lookup::Lookup3Bit<2, P::BaseField>], from: u64) -> Value
where
    P::BaseField: PrimeField,
{
    let mut m: HashMap<(P::BaseField, P::BaseField), u64> = HashMap::new();
    let (mut a, mut q) = (h, 1u64);
    while !a.infinity {
        m.insert((a.x, a.y), q);
        a = (a + h).into_affine();
        q += 1;
    }
    let l: Vec<Vec<i64>> = t.iter().map(|t| (0..8).map(|i| m.get(&(t.elems[0][i], t.elems[1][i])).map_or(-1, |x| *x as i64)).collect()).collect();
    json!({"curve": name, "q": q, "from": from, "logs": l})
}
fn some<P: SWCurveConfig>(name: &str, out: &mut Vec<Value>, rng: &mut rand_chacha::ChaChaRng, n: usize)
where
    P::BaseField: PrimeField,
{
    for _ in 0..n {
        let h = Affine::<P>::rand(rng);
        if let Ok(t) = guarded(|| build_tables(h)) {
            out.push(logs(name, h, &t, out.len() as u64));
        }
    }
}
/// `cth tables <out>`
pub fn main(output: &str) {
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let mut rng = rand_chacha::ChaChaRng::seed_from_u64(seed);
    let mut out = vec![];
    let p = Toy::params();
    out.push(logs("toy even", p.even_parameters.pc_gens.B_blinding, &p.even_parameters.tables, seed));
    out.push(logs("toy odd", p.odd_parameters.pc_gens.B_blinding, &p.odd_parameters.tables, seed));
    some::<EL>("linear", &mut out, &mut rng, 1);
    some::<E199>("199", &mut out, &mut rng, 2);
    some::<E211>("211", &mut out, &mut rng, 2);
    write_lines(output, &out);
}
/// One scalar on one real curve.
fn scalar<P: SWCurveConfig + Copy>(p: &SingleLayerParameters<P>, c: &Value, seed: u64) -> Value
where
    P::BaseField: PrimeField,
{
    let mut rng = rand_chacha::ChaChaRng::seed_from_u64(seed);
    let mut r = P::ScalarField::from(2u64).pow([getu(c, "k") as u64]) + fi::<P::ScalarField>(geti(c, "a"));
    if geti(c, "s") == 0 {
        r = -r;
    }
    if r.is_zero() {
        return json!({"zero": true});
    }
    let bits = { let b: <P::ScalarField as PrimeField>::BigInt = r.into(); b.to_bits_le() };
    let h = p.pc_gens.B_blinding;
    let mut sum = Affine::<P>::identity().into_group();
    for (i, t) in p.tables.iter().enumerate() {
        let d: usize = (0..3).map(|j| usize::from(bits.get(3 * i + j).copied().unwrap_or(false)) << j).sum();
        sum += Affine::<P>::new_unchecked(t.elems[0][d], t.elems[1][d]);
    }
    let target = (h * r).into_affine();
    let child = Affine::<P>::rand(&mut rng);
    let out = (child + target).into_affine();
    let circuit = |out: (P::BaseField, P::BaseField)| {
        guarded(|| {
            let mut cs = Rec::new(vec![]);
            let w = PointRepresentation { x: constant(child.x), y: constant(child.y), witness: Some(child) };
            re_randomize(&mut cs, &p.tables, w, constant(out.0), constant(out.1), Some(r));
            cs.finish();
            cs.holds()
        })
        .unwrap_or(false)
    };
    let one = P::BaseField::one();
    json!({"sum": sum.into_affine() == target, "holds": circuit((out.x, out.y)), "opposite": circuit((out.x, -out.y)), "x": circuit((out.x + one, out.y)), "child": circuit((child.x, child.y))})
}
/// `cth scalars <in> <out>`
pub fn scalars(input: &str, output: &str) {
    let cs = read_lines(input);
    let (a, s) = (Pasta::params(), Secp::params());
    let out = pmap(&cs, |i, c| {
        let i = i as u64;
        json!({"case": c, "got": {
            "pallas": scalar(&a.even_parameters, c, i), "vesta": scalar(&a.odd_parameters, c, i),
            "secp256k1": scalar(&s.even_parameters, c, i), "secq256k1": scalar(&s.odd_parameters, c, i)}})
    });
    write_lines(output, &out);
}
