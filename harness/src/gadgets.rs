//! Records the constraint systems that the gadgets emit over small fields, with the assignments the
//! gadgets themselves produce, for Gadget.tla (C10, C11).
use crate::toy::*;
use crate::util::*;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, Field, PrimeField, Zero};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;
use relations::curve::*;
use relations::lookup::*;
use relations::range_proof::range_proof;
use relations::rerandomize::*;
use relations::select::select;
use relations::single_level_select_and_rerandomize::*;
use serde_json::{json, Value};
use std::marker::PhantomData;

/// A constraint system that writes everything down. Values are known on the prover's side only.
pub struct Rec<F: Field> {
    t: Transcript,
    pub ins: Vec<Option<F>>,
    pub gates: Vec<[Option<F>; 3]>,
    /// Constraints and gates in the order in which they appear.
    pub items: Vec<Result<LinearCombination<F>, usize>>,
    pending: Option<usize>,
}
impl<F: Field> Rec<F> {
    pub fn new(ins: Vec<Option<F>>) -> Self {
        Rec { t: Transcript::new(b"rec"), ins, gates: vec![], items: vec![], pending: None }
    }
    pub fn val(&self, v: &Variable<F>) -> Option<F> {
        match v {
            Variable::One(_) => Some(F::one()),
            Variable::Committed(i) => self.ins[*i],
            Variable::MultiplierLeft(i) => self.gates[*i][0],
            Variable::MultiplierRight(i) => self.gates[*i][1],
            Variable::MultiplierOutput(i) => self.gates[*i][2],
            Variable::VectorCommit(..) => panic!("harness: vector commitment"),
        }
    }
    pub fn eval(&self, lc: &LinearCombination<F>) -> Option<F> {
        lc.hook_terms().iter().try_fold(F::zero(), |a, (v, c)| Some(a + self.val(v)? * c))
    }
    fn gate(&mut self, l: Option<F>, r: Option<F>) -> usize {
        let o = l.and_then(|l| r.map(|r| l * r));
        self.gates.push([l, r, o]);
        self.gates.len() - 1
    }
    /// Whether the known values satisfy everything.
    pub fn holds(&self) -> bool {
        self.gates.iter().all(|g| matches!(g, [Some(l), Some(r), Some(o)] if *l * r == *o))
            && self.items.iter().all(|i| match i {
                Ok(lc) => self.eval(lc).map_or(false, |x| x.is_zero()),
                Err(_) => true,
            })
    }
    pub fn finish(&mut self) {
        // a half-used gate is completed with zero, as the prover does
        if let Some(i) = self.pending.take() {
            if self.gates[i][0].is_some() {
                self.gates[i][1] = Some(F::zero());
                self.gates[i][2] = Some(F::zero());
            }
        }
    }
}
impl<F: Field> ConstraintSystem<F> for Rec<F> {
    fn transcript(&mut self) -> &mut Transcript {
        &mut self.t
    }
    fn multiply(&mut self, left: LinearCombination<F>, right: LinearCombination<F>) -> (Variable<F>, Variable<F>, Variable<F>) {
        let (l, r) = (self.eval(&left), self.eval(&right));
        let i = self.gate(l, r);
        let v = (Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i));
        self.items.push(Ok(left - v.0));
        self.items.push(Ok(right - v.1));
        self.items.push(Err(i));
        v
    }
    fn allocate(&mut self, assignment: Option<F>) -> Result<Variable<F>, R1CSError> {
        match self.pending.take() {
            None => {
                let i = self.gate(assignment, None);
                self.pending = Some(i);
                Ok(Variable::MultiplierLeft(i))
            }
            Some(i) => {
                self.gates[i][1] = assignment;
                self.gates[i][2] = assignment.and_then(|r| self.gates[i][0].map(|l| l * r));
                self.items.push(Err(i));
                Ok(Variable::MultiplierRight(i))
            }
        }
    }
    fn allocate_multiplier(&mut self, a: Option<(F, F)>) -> Result<(Variable<F>, Variable<F>, Variable<F>), R1CSError> {
        let i = self.gate(a.map(|x| x.0), a.map(|x| x.1));
        self.items.push(Err(i));
        Ok((Variable::MultiplierLeft(i), Variable::MultiplierRight(i), Variable::MultiplierOutput(i)))
    }
    fn metrics(&self) -> Metrics {
        Metrics { multipliers: self.gates.len(), constraints: self.items.len(), phase_one_constraints: self.items.len(), phase_two_constraints: 0 }
    }
    fn constrain(&mut self, lc: LinearCombination<F>) {
        self.items.push(Ok(lc));
    }
}
fn small<F: PrimeField>(x: &F) -> u64 {
    let b: F::BigInt = (*x).into();
    b.as_ref()[0]
}
/// Items as JSON: variable 0 is the constant, inputs follow, then l, r, o of every gate.
fn system<F: PrimeField>(r: &Rec<F>) -> Vec<Value> {
    let k = r.ins.len();
    let num = |v: &Variable<F>| match v {
        Variable::One(_) => 0,
        Variable::Committed(i) => 1 + i,
        Variable::MultiplierLeft(i) => 1 + k + 3 * i,
        Variable::MultiplierRight(i) => 2 + k + 3 * i,
        Variable::MultiplierOutput(i) => 3 + k + 3 * i,
        _ => panic!("harness"),
    };
    let mut out: Vec<Value> = r
        .items
        .iter()
        .map(|it| match it {
            Err(i) => json!({"g": [1 + k + 3 * i, 2 + k + 3 * i, 3 + k + 3 * i]}),
            Ok(lc) => {
                let mut m = std::collections::BTreeMap::new();
                for (v, c) in lc.hook_terms() {
                    *m.entry(num(&v)).or_insert(F::zero()) += c;
                }
                let c = m.remove(&0).unwrap_or(F::zero());
                let t: Vec<Value> = m.iter().filter(|(_, c)| !c.is_zero()).map(|(v, c)| json!([v, small(c)])).collect();
                json!({"c": small(&c), "t": t})
            }
        })
        .collect();
    // gates never finished still constrain their wires
    let seen: std::collections::HashSet<usize> = r.items.iter().filter_map(|i| i.as_ref().err().copied()).collect();
    for i in 0..r.gates.len() {
        if !seen.contains(&i) {
            out.push(json!({"g": [1 + k + 3 * i, 2 + k + 3 * i, 3 + k + 3 * i]}));
        }
    }
    out
}
fn vin<F: Field>(i: usize) -> LinearCombination<F> {
    Variable::Committed(i).into()
}
fn el<F: PrimeField>(v: &Value) -> F {
    F::from(v.as_u64().unwrap())
}
fn els<F: PrimeField>(v: &Value) -> Vec<F> {
    v.as_array().unwrap().iter().map(el).collect()
}
fn pt<P: SWCurveConfig>(v: &Value) -> Affine<P>
where
    P::BaseField: PrimeField,
{
    let c = els::<P::BaseField>(v);
    if c.is_empty() {
        Affine::identity()
    } else {
        Affine::new_unchecked(c[0], c[1])
    }
}
fn jpt<P: SWCurveConfig>(p: &Affine<P>) -> Value
where
    P::BaseField: PrimeField,
{
    if p.infinity {
        json!([])
    } else {
        json!([small(&p.x), small(&p.y)])
    }
}
fn tables<F: PrimeField>(v: &Value) -> Vec<Lookup3Bit<2, F>> {
    v.as_array()
        .unwrap()
        .iter()
        .map(|t| {
            let p: Vec<Vec<F>> = t.as_array().unwrap().iter().map(els).collect();
            Lookup3Bit { elems: [std::array::from_fn(|i| p[i][0]), std::array::from_fn(|i| p[i][1])] }
        })
        .collect()
}
/// Every nonzero point of a small curve.
fn points<P: SWCurveConfig>() -> Vec<Affine<P>> {
    let g = Affine::<P>::generator();
    let mut out = vec![g];
    loop {
        let n = (*out.last().unwrap() + g).into_affine();
        if n.infinity {
            return out;
        }
        out.push(n);
    }
}
fn tie<F: Field>(cs: &mut Rec<F>, lc: LinearCombination<F>, i: usize) {
    cs.constrain(lc - vin(i));
}
/// Runs the gadget. `w` is the witness (prover) or none (verifier); `ins` the values of the inputs.
fn gadget<P: SWCurveConfig + Copy>(c: &Value, ins: Vec<Option<P::BaseField>>, w: Option<&Value>) -> Rec<P::BaseField>
where
    P::BaseField: PrimeField,
{
    type F<P> = <P as ark_ec::CurveConfig>::BaseField;
    let mut cs = Rec::new(ins);
    let s = &mut cs;
    match gets(c, "g") {
        "select" => {
            let k = getu(c, "k");
            let xs: Vec<LinearCombination<F<P>>> = if c["const"].is_null() { (0..k).map(|i| vin(i + 1)).collect() } else { els::<F<P>>(&c["const"]).into_iter().map(constant).collect() };
            select(s, vin(0), xs.into_iter());
        }
        "isbit" => is_bit(s, vin(0)),
        "lookup" => {
            let t = &tables::<F<P>>(&json!([c["table"]]))[0];
            let [x, y] = lookup(s, t, w.map(|w| w.as_u64().unwrap() as usize)).unwrap();
            tie(s, x, 0);
            tie(s, y, 1);
        }
        "range" => range_proof(s, vin(0), w.map(|w| w.as_u64().unwrap()), getu(c, "n")).unwrap(),
        "curve" => curve_check(s, vin(0), vin(1), el(&c["a"]), el(&c["b"])),
        "add" | "cadd" => {
            let l = els::<F<P>>(&c["l"]);
            let wv = w.map(els::<F<P>>);
            let prms = CurveAddition { x_l: constant(l[0]), y_l: constant(l[1]), x_r: vin(0), y_r: vin(1), x_o: vin(2), y_o: vin(3), delta: wv.as_ref().map(|w| w[0]) };
            if gets(c, "g") == "add" {
                incomplete_curve_addition(s, &prms);
            } else {
                checked_curve_addition(s, &prms, wv.as_ref().map(|w| w[1]));
            }
        }
        "addh" | "caddh" => {
            let l = pt::<P>(&c["l"]);
            let left = PointRepresentation { x: constant(l.x), y: constant(l.y), witness: w.map(|_| l) };
            let right = PointRepresentation { x: vin(0), y: vin(1), witness: w.map(pt::<P>) };
            let o = if gets(c, "g") == "addh" { incomplete_curve_addition_helper(s, left, right) } else { checked_curve_addition_helper(s, left, right) };
            tie(s, o.x, 2);
            tie(s, o.y, 3);
        }
        "rerand" => {
            let l = pt::<P>(&c["in"]);
            re_randomize(s, &tables::<F<P>>(&c["tables"]), PointRepresentation { x: constant(l.x), y: constant(l.y), witness: w.map(|_| l) }, vin(0), vin(1), w.map(el::<P::ScalarField>));
        }
        "single" | "batch" => {
            let pc = PedersenGens { B: Affine::<P>::generator(), B_blinding: Affine::<P>::generator() };
            let prms = SingleLayerParameters::<P> { bp_gens: BulletproofGens::new(1, 1), pc_gens: pc, delta: pt::<P>(&c["delta"]), coeff_a: P::COEFF_A, coeff_b: P::COEFF_B, tables: tables(&c["tables"]) };
            let k = getu(c, "k");
            let xs: Vec<LinearCombination<F<P>>> = if c["const"].is_null() { (0..k).map(|i| vin(i)).collect() } else { els::<F<P>>(&c["const"]).into_iter().map(constant).collect() };
            let r = w.map(|w| el::<P::ScalarField>(&w["r"]));
            let out = pt::<P>(&c["out"]);
            if gets(c, "g") == "single" {
                single_level_select_and_rerandomize(s, &prms, &out, xs, w.map(|w| pt::<P>(&w["c"][0])), r);
            } else {
                let ch: Option<[Affine<P>; 2]> = w.map(|w| [pt::<P>(&w["c"][0]), pt::<P>(&w["c"][1])]);
                single_level_batched_select_and_rerandomize(s, &prms, &out, xs, ch.as_ref(), r);
            }
        }
        g => panic!("harness: gadget {}", g),
    }
    cs.finish();
    cs
}
/// Digits of a scalar in windows of three bits.
fn digits<S: PrimeField>(r: S, m: usize) -> Vec<usize> {
    let b = { let b: S::BigInt = r.into(); b.to_bits_le() };
    (0..m).map(|i| (0..3).map(|j| usize::from(b.get(3 * i + j).copied().unwrap_or(false)) << j).sum()).collect()
}
fn fsmall<F: PrimeField>(p: u64) -> Vec<F> {
    (0..p).map(F::from).collect()
}
/// Inputs and witnesses to try on the prover's side: (values of the inputs, witness, description).
fn attempts<P: SWCurveConfig + Copy>(c: &Value, p: u64) -> Vec<(Vec<P::BaseField>, Value)>
where
    P::BaseField: PrimeField,
{
    type F<P> = <P as ark_ec::CurveConfig>::BaseField;
    let f = fsmall::<F<P>>(p);
    let mut out: Vec<(Vec<F<P>>, Value)> = vec![];
    let sumt = |t: &Vec<Lookup3Bit<2, F<P>>>, ds: &[usize]| -> Affine<P> {
        ds.iter().zip(t).fold(Affine::<P>::identity(), |a, (d, t)| (a + Affine::<P>::new_unchecked(t.elems[0][*d], t.elems[1][*d])).into_affine())
    };
    let q = small(&(-P::ScalarField::from(1u64))) + 1;
    match gets(c, "g") {
        "select" => {
            let k = if c["const"].is_null() { getu(c, "k") + 1 } else { 1 };
            let total = (p as usize).pow(k as u32);
            let step = (total / 60).max(1);
            for n in (0..total).step_by(step) {
                let mut n = n;
                let mut v: Vec<F<P>> = vec![];
                for _ in 0..k {
                    v.push(f[n % p as usize]);
                    n /= p as usize;
                }
                // make it a member half the time
                if k > 1 && n % 2 == 0 {
                    let j = 1 + out.len() % (k - 1);
                    v[0] = v[j];
                }
                out.push((v, json!(0)));
            }
        }
        "isbit" => out.extend(f.iter().map(|x| (vec![*x], json!(0)))),
        "lookup" => {
            let t = &tables::<F<P>>(&json!([c["table"]]))[0];
            out.extend((0..8).map(|i| (vec![t.elems[0][i], t.elems[1][i]], json!(i))));
        }
        "range" => out.extend((0..p).map(|v| (vec![F::<P>::from(v)], json!(v)))),
        "curve" => out.extend((0..p * p).map(|n| (vec![f[(n % p) as usize], f[(n / p) as usize]], json!(0)))),
        "add" | "cadd" => {
            let l = els::<F<P>>(&c["l"]);
            for n in (0..p * p).step_by(3) {
                let (x, y) = (f[(n % p) as usize], f[(n / p) as usize]);
                if x != l[0] {
                    let d = (y - l[1]) / (x - l[0]);
                    let xo = d * d - x - l[0];
                    let yo = -(d * (xo - l[0])) - l[1];
                    out.push((vec![x, y, xo, yo], json!([small(&d), small(&(F::<P>::from(1u64) / (l[0] - x)))])));
                }
            }
        }
        "addh" | "caddh" => {
            let l = pt::<P>(&c["l"]);
            for r in points::<P>() {
                let o = (l + r).into_affine();
                if !o.infinity {
                    out.push((vec![r.x, r.y, o.x, o.y], jpt(&r)));
                }
            }
        }
        "rerand" => {
            let t = tables::<F<P>>(&c["tables"]);
            for r in 0..q {
                let o = (pt::<P>(&c["in"]) + sumt(&t, &digits(P::ScalarField::from(r), t.len()))).into_affine();
                if !o.infinity {
                    out.push((vec![o.x, o.y], json!(r)));
                }
            }
        }
        "single" | "batch" => {
            let t = tables::<F<P>>(&c["tables"]);
            let xs = if c["const"].is_null() { els::<F<P>>(&c["try"]) } else { els(&c["const"]) };
            let ins = if c["const"].is_null() { xs.clone() } else { vec![] };
            let n = if gets(c, "g") == "single" { 1 } else { 2 };
            let delta = pt::<P>(&c["delta"]);
            let all = points::<P>();
            let of = |h: usize| -> Vec<Affine<P>> { all.iter().filter(|a| xs[h * xs.len() / n..(h + 1) * xs.len() / n].contains(&a.x)).copied().collect() };
            let mut cands: Vec<Vec<Affine<P>>> = of(0).into_iter().map(|a| vec![a]).collect();
            if n == 2 {
                cands = cands.into_iter().flat_map(|a| of(1).into_iter().map(move |b| vec![a[0], b])).collect();
            }
            let target = (0..n).fold(pt::<P>(&c["out"]), |a, _| (a + delta).into_affine());
            for cand in cands {
                for r in 0..q {
                    let sum = cand.iter().fold(sumt(&t, &digits(P::ScalarField::from(r), t.len())), |a, b| (a + *b).into_affine());
                    if sum == target {
                        out.push((ins.clone(), json!({"c": cand.iter().map(jpt).collect::<Vec<_>>(), "r": r})));
                    }
                }
            }
        }
        _ => {}
    }
    out
}
fn record<P: SWCurveConfig + Copy>(c: &Value, p: u64) -> Value
where
    P::BaseField: PrimeField,
{
    let k = getu(c, "nin");
    let plain = gadget::<P>(c, vec![None; k], None);
    let sys = system(&plain);
    let mut honest = vec![];
    let m = c["tables"].as_array().map_or(0, |t| t.len());
    for (ins, w) in attempts::<P>(c, p) {
        let r = w["r"].as_u64().or(w.as_u64());
        let ds: Vec<usize> = r.map_or(vec![], |r| digits(P::ScalarField::from(r), m));
        let vals: Vec<u64> = ins.iter().map(small).collect();
        match guarded(|| gadget::<P>(c, ins.iter().map(|x| Some(*x)).collect(), Some(&w))) {
            Ok(h) => {
                let a: Vec<Value> = h.ins.iter().map(|x| x.as_ref().map(small)).chain(h.gates.iter().flatten().map(|x| x.as_ref().map(small))).map(|x| json!(x.map_or(-1, |x| x as i64))).collect();
                honest.push(json!({"in": vals, "w": w, "d": ds, "a": a, "same": system(&h) == sys}));
            }
            Err(_) => honest.push(json!({"in": vals, "w": w, "d": ds, "a": [], "same": true})),
        }
    }
    json!({"case": c, "p": p, "q": small(&(-P::ScalarField::from(1u64))) + 1, "nin": k, "ng": plain.gates.len(), "items": sys, "honest": honest})
}
/// `cth gadgets <cases> <out>`
pub fn main(input: &str, output: &str) {
    let cases = read_lines(input);
    let out = pmap(&cases, |_, c| match getu(c, "f") {
        7 => record::<E7>(c, 7),
        11 => record::<E11>(c, 11),
        13 => record::<E13>(c, 13),
        31 => record::<E31>(c, 31),
        43 => record::<E43>(c, 43),
        f => panic!("harness: field {}", f),
    });
    write_lines(output, &out);
    let _ = PhantomData::<F7>;
}
/// `cth curve-points <out>`: the points of the small curves, and their standard tables where they exist.
pub fn curves(output: &str) {
    fn one<P: SWCurveConfig>(p: u64) -> Value
    where
        P::BaseField: PrimeField,
    {
        let pts = points::<P>();
        let m = P::ScalarField::MODULUS_BIT_SIZE as usize / 3 + 1;
        let std: Vec<Value> = pts
            .iter()
            .filter_map(|h| {
                let t = guarded(|| build_tables(*h)).ok()?;
                Some(json!({"h": jpt(h), "t": t.iter().map(|t| (0..8).map(|i| json!([small(&t.elems[0][i]), small(&t.elems[1][i])])).collect::<Vec<_>>()).collect::<Vec<_>>()}))
            })
            .collect();
        json!({"p": p, "q": pts.len() + 1, "m": m, "a": small(&P::COEFF_A), "b": small(&P::COEFF_B), "points": pts.iter().map(jpt).collect::<Vec<_>>(), "std": std})
    }
    write_lines(output, &[one::<E7>(7), one::<E11>(11), one::<E13>(13), one::<E31>(31), one::<E43>(43)]);
    let _ = F13::zero();
}
