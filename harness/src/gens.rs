//! C15: generator sets against the specification's names.
use crate::util::*;
use ark_ec::AffineRepr;
use bulletproofs::{affine_from_bytes_tai, BulletproofGens, PedersenGens};
use serde_json::{json, Value};
use std::collections::{BTreeMap, HashMap};
use std::sync::Mutex;

type Name = (char, usize, usize);
/// Names bound to the encodings of the points seen under them, in both directions.
#[derive(Default)]
struct Binding {
    fwd: BTreeMap<Name, Vec<u8>>,
    back: HashMap<Vec<u8>, Name>,
}
impl Binding {
    fn see<C: AffineRepr>(&mut self, name: Name, p: &C, bad: &mut Vec<String>) {
        let b = ser(p);
        match self.fwd.get(&name) {
            Some(old) => {
                if *old != b {
                    bad.push(format!("generator {:?} is not always the same point", name));
                }
                return;
            }
            None => {}
        }
        if p.is_zero() {
            bad.push(format!("generator {:?} is the identity", name));
        }
        // decoding with validation checks the curve equation and the subgroup
        if C::deserialize_compressed(&b[..]).ok() != Some(*p) {
            bad.push(format!("generator {:?} is not in the group", name));
        }
        if let Some(o) = self.back.get(&b) {
            bad.push(format!("generators {:?} and {:?} are the same point", o, name));
        }
        let neg = ser(&(-p.into_group()).into());
        if let Some(o) = self.back.get(&neg) {
            bad.push(format!("generators {:?} and {:?} are opposite points", o, name));
        }
        self.back.insert(b.clone(), name);
        self.fwd.insert(name, b);
    }
}

fn ask<C: AffineRepr>(g: &BulletproofGens<C>, j: usize, n: usize, exp: usize, b: &Mutex<Binding>, bad: &mut Vec<String>) {
    let gs: Vec<C> = g.share(j).G(n).copied().collect();
    let hs: Vec<C> = g.share(j).hook_H(n).copied().collect();
    if gs.len() != exp || hs.len() != exp {
        bad.push(format!("party {} of {}: asked for {} generators, got {} and {}, expected {}", j, g.party_capacity, n, gs.len(), hs.len(), exp));
    }
    let mut b = b.lock().unwrap();
    for (k, v) in [('G', gs), ('H', hs)] {
        for (i, p) in v.iter().enumerate() {
            b.see((k, j, i), p, bad);
        }
    }
}
fn history<C: AffineRepr>(log: &[Value], b: &Mutex<Binding>) -> Vec<String> {
    let mut bad = vec![];
    let mut sets: Vec<BulletproofGens<C>> = vec![];
    for o in log {
        let s = o["s"].as_u64().unwrap_or(0) as usize;
        match gets(o, "op") {
            "new" => sets.push(BulletproofGens::new(getu(o, "cap"), getu(o, "parties"))),
            "grow" => sets[s].increase_capacity(getu(o, "cap")),
            "clone" => {
                let c = sets[0].clone();
                sets.push(c)
            }
            "ask" => ask(&sets[s], getu(o, "party"), getu(o, "n"), getu(o, "exp"), b, &mut bad),
            "all" => {
                for (s, e) in geta(o, "exp").iter().enumerate() {
                    let (cap, parties) = (getu(e, "cap"), getu(e, "parties"));
                    if sets[s].gens_capacity != cap || sets[s].party_capacity != parties {
                        bad.push(format!("capacity {} for {} parties, expected {} for {}", sets[s].gens_capacity, sets[s].party_capacity, cap, parties));
                    }
                    for j in 0..parties {
                        ask(&sets[s], j, cap, cap, b, &mut bad);
                        ask(&sets[s], j, cap + 9, cap, b, &mut bad);
                    }
                }
            }
            k => panic!("harness: op {}", k),
        }
        if let (Some(e), "new" | "grow" | "clone") = (o["exp"].as_u64(), gets(o, "op")) {
            let i = if gets(o, "op") == "grow" { s } else { sets.len() - 1 };
            if sets[i].gens_capacity as u64 != e {
                bad.push(format!("capacity {} after {}, expected {}", sets[i].gens_capacity, o, e));
            }
        }
    }
    bad
}
fn curve<C: AffineRepr>(name: &str, items: &[(usize, Value)], out: &mut Vec<Value>, dump: &mut Vec<Value>) {
    let b = Mutex::new(Binding::default());
    let r = pmap(items, |_, (i, v)| match guarded(|| history::<C>(v.as_array().unwrap(), &b)) {
        Ok(bad) => json!({"i": i, "curve": name, "bad": bad}),
        Err(e) => json!({"i": i, "curve": name, "bad": [format!("panic: {}", e)]}),
    });
    out.extend(r.into_iter().filter(|v| !v["bad"].as_array().unwrap().is_empty()));
    // the bases of scalar commitments and the shift of curve trees
    let mut bad = vec![];
    let mut b = b.into_inner().unwrap();
    let pc = PedersenGens::<C>::default();
    b.see(('B', 0, 0), &pc.B, &mut bad);
    b.see(('b', 0, 0), &pc.B_blinding, &mut bad);
    if PedersenGens::<C>::default().B_blinding != pc.B_blinding || PedersenGens::<C>::default().B != pc.B {
        bad.push("default commitment bases differ between calls".into());
    }
    let d: C = affine_from_bytes_tai(b"curve_trees_delta");
    b.see(('D', 0, 0), &d, &mut bad);
    if !bad.is_empty() {
        out.push(json!({"i": -1, "curve": name, "bad": bad}));
    }
    for (k, v) in b.fwd {
        dump.push(json!({"curve": name, "name": format!("{}{}.{}", k.0, k.1, k.2), "point": hex(&v)}));
    }
}
/// The parameters of curve trees hold generators that agree with generators made directly.
fn params<P0, P1>(n0: usize, n1: usize, bad: &mut Vec<String>)
where
    P0: ark_ec::short_weierstrass::SWCurveConfig + Copy,
    P1: ark_ec::short_weierstrass::SWCurveConfig<BaseField = P0::ScalarField, ScalarField = P0::BaseField> + Copy,
{
    use relations::curve_tree::SelRerandParameters;
    fn one<P: ark_ec::short_weierstrass::SWCurveConfig + Copy>(p: &relations::single_level_select_and_rerandomize::SingleLayerParameters<P>, n: usize, bad: &mut Vec<String>) {
        type A<P> = ark_ec::short_weierstrass::Affine<P>;
        let b = Mutex::new(Binding::default());
        let bp = BulletproofGens::<A<P>>::new(n, 1);
        ask(&bp, 0, n, n, &b, bad);
        ask(&p.bp_gens, 0, n + 1, n, &b, bad);
        let pc = PedersenGens::<A<P>>::default();
        let mut b = b.into_inner().unwrap();
        for g in [&pc, &p.pc_gens] {
            b.see(('B', 0, 0), &g.B, bad);
            b.see(('b', 0, 0), &g.B_blinding, bad);
        }
        b.see(('D', 0, 0), &p.delta, bad);
        if p.bp_gens.gens_capacity != n {
            bad.push(format!("parameters made for {} generators have {}", n, p.bp_gens.gens_capacity));
        }
    }
    let p = SelRerandParameters::<P0, P1>::new(n0, n1);
    one(&p.even_parameters, n0, bad);
    one(&p.odd_parameters, n1, bad);
    let q = SelRerandParameters::<P0, P1>::new(n0, n1);
    if q.even_parameters.delta != p.even_parameters.delta || q.odd_parameters.delta != p.odd_parameters.delta {
        bad.push("the shift differs between calls".into());
    }
}
/// `cth gens <histories> <out> <dump>`
pub fn main(input: &str, output: &str, dumpf: &str) {
    let all = read_lines(input);
    let part = |k: usize| -> Vec<(usize, Value)> { all.iter().enumerate().filter(|(i, _)| i % 4 == k).map(|(i, v)| (i, v.clone())).collect() };
    let (mut out, mut dump) = (vec![], vec![]);
    curve::<ark_pallas::Affine>("pallas", &part(0), &mut out, &mut dump);
    curve::<ark_vesta::Affine>("vesta", &part(1), &mut out, &mut dump);
    curve::<ark_secp256k1::Affine>("secp256k1", &part(2), &mut out, &mut dump);
    curve::<ark_secq256k1::Affine>("secq256k1", &part(3), &mut out, &mut dump);
    let mut bad = vec![];
    for (a, b) in [(1, 64), (64, 1), (33, 17), (0, 5), (7, 0)] {
        params::<ark_pallas::PallasConfig, ark_vesta::VestaConfig>(a, b, &mut bad);
        params::<ark_vesta::VestaConfig, ark_pallas::PallasConfig>(a, b, &mut bad);
        params::<ark_secp256k1::Config, ark_secq256k1::Config>(a, b, &mut bad);
        params::<ark_secq256k1::Config, ark_secp256k1::Config>(a, b, &mut bad);
    }
    if !bad.is_empty() {
        out.push(json!({"i": -1, "curve": "parameters", "bad": bad}));
    }
    write_lines(output, &out);
    write_lines(dumpf, &dump);
}
