//! Dishonest provers of the re-randomization circuit on real curves (C11): the accumulator starts, or is
//! continued, from a point of the prover's choosing, so that the published point is unrelated to the child.
use crate::trees::*;
use crate::util::*;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, One, PrimeField};
use ark_std::UniformRand;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use relations::curve::*;
use relations::lookup::*;
use relations::select::select;
use relations::single_level_select_and_rerandomize::*;
use serde_json::{json, Value};

/// The library's circuit, with `jump` added to the accumulator at window `at` without justification.
fn re_randomize_jump<P: SWCurveConfig + Copy>(
    cs: &mut Prover<Transcript, Affine<impl SWCurveConfig<ScalarField = P::BaseField> + Copy>>,
    tables: &[Lookup3Bit<2, P::BaseField>],
    child: (LinearCombination<P::BaseField>, LinearCombination<P::BaseField>, Affine<P>),
    out: Affine<P>,
    r: P::ScalarField,
    at: usize,
    jump: Affine<P>,
    tied: bool,
) where
    P::BaseField: PrimeField,
{
    let m = tables.len();
    let bits = { let b: <P::ScalarField as PrimeField>::BigInt = r.into(); b.to_bits_le() };
    let mut acc = Affine::<P>::identity();
    let mut lc: Option<(LinearCombination<P::BaseField>, LinearCombination<P::BaseField>)> = None;
    for i in 1..=m {
        let idx: usize = (0..3).map(|j| usize::from(bits.get(3 * (i - 1) + j).copied().unwrap_or(false)) << j).sum();
        let t = Affine::<P>::new(tables[i - 1].elems[0][idx], tables[i - 1].elems[1][idx]);
        let left = acc;
        acc = (acc + t).into_affine();
        if i == at {
            acc = (acc + jump).into_affine();
        }
        let [xt, yt] = lookup(cs, &tables[i - 1], Some(idx)).unwrap();
        let x: LinearCombination<P::BaseField> = cs.allocate(Some(acc.x)).unwrap().into();
        let y: LinearCombination<P::BaseField> = cs.allocate(Some(acc.y)).unwrap().into();
        if i == 1 && tied {
            cs.constrain(x.clone() - xt);
            cs.constrain(y.clone() - yt);
        } else if i > 1 {
            let (xl, yl) = lc.clone().unwrap();
            let prms = CurveAddition { x_l: xl, y_l: yl, x_r: xt, y_r: yt, x_o: x.clone(), y_o: y.clone(), delta: Some((t.y - left.y) / (t.x - left.x)) };
            if i == m {
                checked_curve_addition(cs, &prms, Some(P::BaseField::one() / (left.x - t.x)));
            } else {
                incomplete_curve_addition(cs, &prms);
            }
        }
        lc = Some((x, y));
    }
    let (xr, yr) = lc.unwrap();
    let w = child.2;
    let prms = CurveAddition { x_l: child.0, y_l: child.1, x_r: xr, y_r: yr, x_o: constant(out.x), y_o: constant(out.y), delta: Some((acc.y - w.y) / (acc.x - w.x)) };
    checked_curve_addition(cs, &prms, Some(P::BaseField::one() / (w.x - acc.x)));
}
/// Publishes a commitment outside the list of children. True when the verifier accepts.
fn single<P, Q>(p: &SingleLayerParameters<P>, q: &SingleLayerParameters<Q>, at: usize, tied: bool) -> bool
where
    P: SWCurveConfig + Copy,
    P::BaseField: PrimeField,
    Q: SWCurveConfig<ScalarField = P::BaseField, BaseField = P::ScalarField> + Copy,
{
    let mut rng = rand::thread_rng();
    let child = Affine::<P>::rand(&mut rng);
    let shifted = (child + p.delta).into_affine();
    let r = P::ScalarField::rand(&mut rng);
    let jump = if at == 0 { Affine::<P>::identity() } else { Affine::<P>::rand(&mut rng) };
    let public = (child + p.pc_gens.B_blinding * r + jump).into_affine();
    let xs = vec![shifted.x, P::BaseField::from(5u64), P::BaseField::from(9u64)];
    let blind = P::BaseField::rand(&mut rng);
    guarded(|| {
        let mut prover: Prover<Transcript, Affine<Q>> = Prover::new(&q.pc_gens, Transcript::new(b"attack"));
        let (com, vars) = prover.commit_vec(&xs, blind, &q.bp_gens);
        prover.transcript().append_message(b"rerandomized_child", &ser(&public));
        let x = prover.allocate(Some(shifted.x)).unwrap();
        select(&mut prover, x.into(), vars.into_iter().map(|v| v.into()));
        let y = prover.allocate(Some(shifted.y)).unwrap();
        curve_check(&mut prover, x.into(), y.into(), p.coeff_a, p.coeff_b);
        re_randomize_jump(&mut prover, &p.tables, (x.into(), y.into(), shifted), (public + p.delta).into_affine(), r, at, jump, tied);
        let proof = prover.prove(&q.bp_gens).unwrap();
        let mut v: Verifier<Transcript, Affine<Q>> = Verifier::new(Transcript::new(b"attack"));
        let vars = v.commit_vec(xs.len(), com);
        single_level_select_and_rerandomize(&mut v, p, &public, vars.into_iter().map(|x| x.into()).collect(), None::<Affine<P>>, None);
        v.verify(&proof, &q.pc_gens, &q.bp_gens).is_ok()
    })
    .unwrap_or(false)
}
fn cycle<Y: Cycle>(out: &std::sync::Mutex<Vec<Value>>) {
    let p = Y::params();
    let m = p.even_parameters.tables.len();
    let cases: Vec<(usize, bool)> = [0, 1, 2, m - 1, m].into_iter().flat_map(|a| [(a, true), (a, false)]).collect();
    let r = pmap(&cases, |_, (at, tied)| (*at, *tied, single(&p.even_parameters, &p.odd_parameters, *at, *tied), single(&p.odd_parameters, &p.even_parameters, *at, *tied)));
    for (at, tied, a, b) in r {
        out.lock().unwrap().push(json!({"cycle": Y::NAME, "at": at, "tied": tied, "even": a, "odd": b}));
    }
}
/// `cth jump <out>`
pub fn main(output: &str) {
    let out = std::sync::Mutex::new(vec![]);
    std::thread::scope(|s| {
        s.spawn(|| cycle::<Pasta>(&out));
        s.spawn(|| cycle::<Secp>(&out));
    });
    write_lines(output, &out.into_inner().unwrap());
}
