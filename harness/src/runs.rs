//! Runs of the gadgets with the real prover and verifier, as GadgetRuns.tla prescribes (C10).
use crate::trees::*;
use crate::util::*;
use ark_ec::short_weierstrass::Affine;
use ark_ec::CurveGroup;
use ark_ff::{Field, One, PrimeField, Zero};
use ark_std::UniformRand;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use rand::{Rng, SeedableRng};
use relations::curve::*;
use relations::lookup::*;
use relations::range_proof::range_proof;
use relations::select::select;
use serde_json::{json, Value};

type R = rand_chacha::ChaChaRng;
/// What a run commits to and which gadget it builds; the witness is absent on the verifier's side.
struct Case<'a, F: PrimeField> {
    c: &'a Value,
    single: Vec<F>,
    vector: Vec<F>,
    consts: Vec<F>,
    wit: Vec<F>,
    index: usize,
    claim: u64,
}
fn build<F: PrimeField, Cs: ConstraintSystem<F>>(cs: &mut Cs, k: &Case<F>, s: Vec<Variable<F>>, v: Vec<Variable<F>>, prover: bool) -> Result<(), R1CSError> {
    let lc = |v: &Variable<F>| LinearCombination::<F>::from(*v);
    let c = k.c;
    match gets(c, "g") {
        "range" => range_proof(cs, lc(&s[0]), if prover { Some(k.claim) } else { None }, getu(c, "n"))?,
        "select" => select(cs, lc(&s[0]), v.iter().map(lc)),
        "lookup" => {
            let t = Lookup3Bit { elems: [std::array::from_fn(|i| k.consts[i]), std::array::from_fn(|i| k.consts[8 + i])] };
            let [x, y] = lookup(cs, &t, if prover { Some(k.index) } else { None })?;
            cs.constrain(x - s[0]);
            cs.constrain(y - s[1]);
        }
        "curve" => curve_check(cs, lc(&s[0]), lc(&s[1]), k.consts[0], k.consts[1]),
        "addition" => {
            let w = |i: usize| if prover { Some(k.wit[i]) } else { None };
            let p = CurveAddition { x_l: lc(&s[0]), y_l: lc(&s[1]), x_r: lc(&s[2]), y_r: lc(&s[3]), x_o: lc(&s[4]), y_o: lc(&s[5]), delta: w(0) };
            if c["checked"].as_bool().unwrap() {
                checked_curve_addition(cs, &p, w(1));
            } else {
                incomplete_curve_addition(cs, &p);
            }
        }
        g => panic!("harness: gadget {}", g),
    }
    Ok(())
}
fn case<'a, P, Q, Y>(c: &'a Value, r: &mut R) -> Case<'a, Q::ScalarField>
where
    Y: Cycle,
    P: ark_ec::short_weierstrass::SWCurveConfig + Copy,
    P::BaseField: PrimeField,
    Q: ark_ec::short_weierstrass::SWCurveConfig<ScalarField = P::BaseField, BaseField = P::ScalarField> + Copy,
{
    type F<P> = <P as ark_ec::CurveConfig>::BaseField;
    let one = F::<P>::one();
    let mut k = Case { c, single: vec![], vector: vec![], consts: vec![], wit: vec![], index: 0, claim: 0 };
    match gets(c, "g") {
        "range" => {
            let v = &c["v"];
            let x = fi::<F<P>>(geti(v, "s")) * F::<P>::from(2u64).pow([geti(v, "k") as u64]) + fi::<F<P>>(geti(v, "a"));
            let low = { let b: <F<P> as PrimeField>::BigInt = x.into(); b.as_ref()[0] };
            let n = getu(c, "n");
            k.claim = match gets(c, "claim") {
                "value" => low,
                "low" => if n >= 64 { low } else { low & ((1u64 << n) - 1) },
                _ => 0,
            };
            k.single = vec![x];
        }
        "select" => {
            let (n, at) = (getu(c, "n"), getu(c, "at"));
            let mut xs: Vec<F<P>> = (0..n).map(|_| F::<P>::rand(r)).collect();
            let x = match gets(c, "kind") {
                "member" => xs[at],
                "twice" => {
                    let v = xs[at];
                    xs[r.gen_range(0..n)] = v;
                    v
                }
                "zeropad" => {
                    xs[at] = F::<P>::zero();
                    F::<P>::zero()
                }
                "absent" => F::<P>::rand(r),
                "negated" => -xs[at],
                "offbyone" => xs[at] + one,
                _ => F::<P>::zero(),
            };
            k.vector = xs;
            k.single = vec![x];
        }
        "lookup" => {
            let (i, j) = (getu(c, "at"), getu(c, "j"));
            let t: Vec<F<P>> = (0..16).map(|_| F::<P>::rand(r)).collect();
            k.single = if gets(c, "kind") == "pair" { vec![t[j], t[8 + j]] } else { vec![t[i], t[8 + j]] };
            k.consts = t;
            k.index = i;
        }
        "curve" => {
            let (a, b) = if gets(c, "field") == "linear" { (F::<P>::rand(r), F::<P>::rand(r)) } else { (P::COEFF_A, P::COEFF_B) };
            let rhs = |x: F<P>| x * x * x + a * x + b;
            let (x, y) = some_point(r, a, if gets(c, "kind") == "othercurve" { b + one } else { b });
            let (x, y) = match gets(c, "kind") {
                "point" | "othercurve" => (x, y),
                "opposite" => (x, -y),
                "xoff" => (x + one, y),
                "yoff" => (x, y + one),
                "swapped" => (y, x),
                _ => (F::<P>::zero(), F::<P>::zero()),
            };
            let good = matches!(gets(c, "kind"), "point" | "opposite");
            assert!((rhs(x) == y * y) == good, "harness: curve case");
            k.single = vec![x, y];
            k.consts = vec![a, b];
        }
        "addition" => {
            let (mut l, mut q) = (Affine::<P>::rand(r), Affine::<P>::rand(r));
            let kind = gets(c, "kind");
            if kind == "opposite summands" {
                l = -l;
                q = -q;
            }
            match kind {
                "same point" | "tangent" => q = l,
                "inverse points" => q = -l,
                _ => {}
            }
            let o = (l + q).into_affine();
            let mut out = (o.x, o.y);
            let mut d = if l.x == q.x { F::<P>::rand(r) } else { (q.y - l.y) / (q.x - l.x) };
            let inv = if l.x == q.x { F::<P>::rand(r) } else { one / (l.x - q.x) };
            match kind {
                "wrong x" => out.0 += one,
                "wrong y" => out.1 += one,
                "negated sum" => out.1 = -out.1,
                "left" => out = (l.x, l.y),
                "difference" => {
                    let o = (l - q).into_affine();
                    out = (o.x, o.y);
                    d = (-q.y - l.y) / (q.x - l.x);
                }
                "same point" => d = (l.x * l.x * F::<P>::from(3u64) + P::COEFF_A) / (l.y + l.y),
                "tangent" | "inverse points" => {
                    out.0 = d * d - l.x - q.x;
                    out.1 = -(d * (out.0 - l.x)) - l.y;
                }
                _ => {}
            }
            k.single = vec![l.x, l.y, q.x, q.y, out.0, out.1];
            k.wit = vec![d, inv];
        }
        g => panic!("harness: gadget {}", g),
    }
    k
}
fn some_point<F: PrimeField>(r: &mut R, a: F, b: F) -> (F, F) {
    loop {
        let x = F::rand(r);
        if let Some(y) = (x * x * x + a * x + b).sqrt() {
            if !y.is_zero() {
                return (x, y);
            }
        }
    }
}
fn run<P, Q, Y>(c: &Value, seed: u64, q: &relations::single_level_select_and_rerandomize::SingleLayerParameters<Q>) -> Value
where
    Y: Cycle,
    P: ark_ec::short_weierstrass::SWCurveConfig + Copy,
    P::BaseField: PrimeField,
    Q: ark_ec::short_weierstrass::SWCurveConfig<ScalarField = P::BaseField, BaseField = P::ScalarField> + Copy,
{
    let mut r = R::seed_from_u64(seed);
    let k = case::<P, Q, Y>(c, &mut r);
    let out = guarded(|| -> Result<bool, R1CSError> {
        let mut p: Prover<Transcript, Affine<Q>> = Prover::new(&q.pc_gens, Transcript::new(b"run"));
        let s: Vec<_> = k.single.iter().map(|x| p.commit(*x, Q::ScalarField::rand(&mut r))).collect();
        let v = if k.vector.is_empty() { None } else { Some(p.commit_vec(&k.vector, Q::ScalarField::rand(&mut r), &q.bp_gens)) };
        build(&mut p, &k, s.iter().map(|x| x.1).collect(), v.clone().map_or(vec![], |v| v.1), true)?;
        let proof = p.prove(&q.bp_gens)?;
        let mut w: Verifier<Transcript, Affine<Q>> = Verifier::new(Transcript::new(b"run"));
        let s2 = s.iter().map(|x| w.commit(x.0)).collect();
        let v2 = v.map_or(vec![], |v| w.commit_vec(k.vector.len(), v.0));
        build(&mut w, &k, s2, v2, false)?;
        Ok(w.verify(&proof, &q.pc_gens, &q.bp_gens).is_ok())
    });
    match out {
        Ok(Ok(b)) => json!({"ok": b}),
        Ok(Err(e)) => json!({"ok": false, "err": format!("{:?}", e)}),
        Err(e) => json!({"ok": false, "panic": e}),
    }
}
/// `cth gadget-runs <in> <out>`
pub fn main(input: &str, output: &str) {
    let cases = read_lines(input);
    let seed: u64 = std::env::var("VERIF_SEED").ok().and_then(|x| x.parse().ok()).unwrap_or(1);
    let (a, s) = (Pasta::params(), Secp::params());
    let out = pmap(&cases, |i, c| {
        let seed = seed.wrapping_mul(1_000_003) + i as u64;
        let f = c["field"].as_str().unwrap_or(["pallas", "vesta", "secp256k1", "secq256k1"][(i / 3) % 4]);
        match f {
            "pallas" | "linear" => run::<ark_pallas::PallasConfig, ark_vesta::VestaConfig, Pasta>(c, seed, &a.odd_parameters),
            "vesta" => run::<ark_vesta::VestaConfig, ark_pallas::PallasConfig, Pasta>(c, seed, &a.even_parameters),
            "secp256k1" => run::<ark_secp256k1::Config, ark_secq256k1::Config, Secp>(c, seed, &s.odd_parameters),
            _ => run::<ark_secq256k1::Config, ark_secp256k1::Config, Secp>(c, seed, &s.even_parameters),
        }
    });
    let lines: Vec<Value> = cases.iter().zip(out).map(|(c, o)| json!({"case": c, "got": o})).collect();
    write_lines(output, &lines);
}
