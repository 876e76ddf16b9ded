//! Replays Member.tla: single and batched membership proofs, honest, dishonest and altered (C07, C08, C09).
use crate::trees::*;
use crate::util::*;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{Field, Zero};
use ark_std::UniformRand;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use rand::Rng;
use relations::batched_curve_tree_prover::CurveTreeWitnessMultiPath;
use relations::curve_tree::*;
use relations::curve_tree_prover::{CurveTreeWitness, CurveTreeWitnessPath};
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use serde_json::{json, Value};

/// The point a symbol stands for on curve P, under generator set `set`; `crafted(v)` gives crafted leaves.
fn point<P, Q>(t: &Value, p: &SingleLayerParameters<P>, q: &SingleLayerParameters<Q>, width: usize, set: usize, m: usize) -> Affine<P>
where
    P: SWCurveConfig + Copy,
    Q: SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField> + Copy,
{
    if let Some(v) = t["v"].as_i64() {
        if !(200..300).contains(&v) {
            return leaf::<P>(v);
        }
        // a leaf such that M copies of it open to one inner node per generator set
        let inner = json!({"h": 1, "n": 1, "c": [{"v": v + 100}]});
        let sum = (0..m).fold(<Affine<P> as AffineRepr>::Group::zero(), |a, s| a + opening(p, q, &[point(&inner, q, p, width, s, m)], width, s));
        return (sum.into_affine() * P::ScalarField::from(m as u64).inverse().unwrap()).into_affine();
    }
    let cs: Vec<Affine<Q>> = geta(t, "c").iter().map(|c| point(c, q, p, width, set, m)).collect();
    opening(p, q, &cs, width, set)
}
fn fixed_point<P: SWCurveConfig>() -> Affine<P> {
    leaf::<P>(9999)
}
/// The witness for member `m` of a step: P is the parent's curve, Q the children's.
fn witness<const L: usize, P, Q>(step: &Value, m: usize, ms: usize, p: &SingleLayerParameters<P>, q: &SingleLayerParameters<Q>) -> CurveTreeWitness<L, P, Q>
where
    P: SWCurveConfig + Copy,
    Q: SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField> + Copy,
{
    let mut siblings = [P::ScalarField::zero(); L];
    for (i, s) in geta(step, "sib")[m].as_array().unwrap().iter().enumerate() {
        siblings[i] = (point(s, q, p, L, m, ms) + q.delta).into_affine().x;
    }
    let c = &geta(step, "child")[m];
    let mut child: Affine<Q> = point(&c["s"], q, p, L, m, ms);
    match geti(c, "d") {
        1 => child = (child + fixed_point::<Q>()).into_affine(),
        -1 => child = (child + -fixed_point::<Q>()).into_affine(),
        _ => {}
    }
    CurveTreeWitness { siblings, child_witness: child }
}
struct Wit<const L: usize, Y: Cycle> {
    even: Vec<Vec<CurveTreeWitness<L, Y::P0, Y::P1>>>,
    odd: Vec<Vec<CurveTreeWitness<L, Y::P1, Y::P0>>>,
}
fn witnesses<const L: usize, Y: Cycle>(steps: &[Value], ms: usize) -> Wit<L, Y> {
    let p = Y::params();
    let mut w = Wit { even: vec![], odd: vec![] };
    for (s, step) in steps.iter().enumerate() {
        if (steps.len() - s) % 2 == 1 {
            w.odd.push((0..ms).map(|m| witness(step, m, ms, &p.odd_parameters, &p.even_parameters)).collect());
        } else {
            w.even.push((0..ms).map(|m| witness(step, m, ms, &p.even_parameters, &p.odd_parameters)).collect());
        }
    }
    w
}
/// What a prover publishes.
struct Public<Y: Cycle> {
    sel: Vec<E0<Y>>,
    odd: Vec<E1<Y>>,
    even: Vec<E0<Y>>,
    pe: R1CSProof<E0<Y>>,
    po: R1CSProof<E1<Y>>,
    scalars: Vec<Y::F0>,
}
impl<Y: Cycle> Clone for Public<Y> {
    fn clone(&self) -> Self {
        Public { sel: self.sel.clone(), odd: self.odd.clone(), even: self.even.clone(), pe: self.pe.clone(), po: self.po.clone(), scalars: self.scalars.clone() }
    }
}
enum Source<'a, const L: usize, const M: usize, Y: Cycle> {
    Tree(&'a Tree<L, M, Y>, Vec<usize>),
    Steps(&'a [Value]),
}
fn arr<T, const N: usize>(v: Vec<T>) -> [T; N] {
    let n = v.len();
    v.try_into().unwrap_or_else(|_| panic!("harness: {} elements for an array of {}", n, N))
}
fn prove<const L: usize, const M: usize, Y: Cycle>(src: &Source<L, M, Y>, single: bool) -> Result<Public<Y>, String> {
    let p = Y::params();
    guarded(|| {
        let mut rng = rand::thread_rng();
        let (mut te, mut to) = (Transcript::new(b"member"), Transcript::new(b"member"));
        let mut even: Prover<Transcript, E0<Y>> = Prover::new(&p.even_parameters.pc_gens, std::mem::replace(&mut te, Transcript::new(b"")));
        let mut odd: Prover<Transcript, E1<Y>> = Prover::new(&p.odd_parameters.pc_gens, std::mem::replace(&mut to, Transcript::new(b"")));
        let (sel, oddc, evenc, scalars) = if single {
            let (path, r) = match src {
                Source::Tree(t, idx) => t.select_and_rerandomize_prover_gadget(idx[0], 0, &mut even, &mut odd, p, &mut rng),
                Source::Steps(s) => {
                    let w = witnesses::<L, Y>(s, 1);
                    let w: CurveTreeWitnessPath<L, Y::P0, Y::P1> = CurveTreeWitnessPath {
                        even_internal_nodes: w.even.into_iter().map(|x| x[0]).collect(),
                        odd_internal_nodes: w.odd.into_iter().map(|x| x[0]).collect(),
                    };
                    w.select_and_rerandomize_prover_gadget(&mut even, &mut odd, p, &mut rng)
                }
            };
            (vec![path.selected_commitment], path.odd_commitments, path.even_commitments, vec![r])
        } else {
            let (path, r) = match src {
                Source::Tree(t, idx) => t.batched_select_and_rerandomize_prover_gadget(arr(idx.clone()), &mut even, &mut odd, p, &mut rng),
                Source::Steps(s) => {
                    let w = witnesses::<L, Y>(s, M);
                    let w: CurveTreeWitnessMultiPath<L, M, Y::P0, Y::P1> = CurveTreeWitnessMultiPath {
                        even_internal_nodes: w.even.into_iter().map(arr).collect(),
                        odd_internal_nodes: w.odd.into_iter().map(arr).collect(),
                    };
                    w.batched_select_and_rerandomize_prover_gadget(&mut even, &mut odd, p, &mut rng)
                }
            };
            (path.selected_commitments.to_vec(), path.odd_commitments, path.even_commitments, r.to_vec())
        };
        let pe = even.prove(&p.even_parameters.bp_gens).map_err(|e| format!("{:?}", e));
        let po = odd.prove(&p.odd_parameters.bp_gens).map_err(|e| format!("{:?}", e));
        Ok::<_, String>(Public { sel, odd: oddc, even: evenc, pe: pe?, po: po?, scalars })
    })?
}
/// The verdict and the leaves handed out, through the given entry point.
fn verify<const L: usize, const M: usize, Y: Cycle>(ct: &Tree<L, M, Y>, w: &Public<Y>, single: bool, entry: usize) -> Result<Vec<E0<Y>>, String> {
    let p = Y::params();
    guarded(|| {
        let mut even = Verifier::<Transcript, E0<Y>>::new(Transcript::new(b"member"));
        let mut odd = Verifier::<Transcript, E1<Y>>::new(Transcript::new(b"member"));
        let leaves = if single {
            let mut path = SelectAndRerandomizePath::<L, Y::P0, Y::P1> { selected_commitment: w.sel[0], odd_commitments: w.odd.clone(), even_commitments: w.even.clone() };
            if entry == 0 {
                vec![ct.select_and_rerandomize_verifier_gadget(&mut even, &mut odd, path, p)]
            } else {
                ct.select_and_rerandomize_verification_commitments(&mut path);
                path.odd_verifier_gadget(&mut odd, p, ct);
                path.even_verifier_gadget(&mut even, p, ct);
                vec![path.get_rerandomized_leaf()]
            }
        } else {
            let mut path = SelectAndRerandomizeMultiPath::<L, M, Y::P0, Y::P1> { selected_commitments: arr(w.sel.clone()), odd_commitments: w.odd.clone(), even_commitments: w.even.clone() };
            if entry == 0 {
                ct.batched_select_and_rerandomize_verifier_gadget(&mut even, &mut odd, path, p).to_vec()
            } else {
                ct.batched_select_and_rerandomize_verification_commitments(&mut path);
                path.odd_verifier_gadget(&mut odd, p, ct);
                path.even_verifier_gadget(&mut even, p, ct);
                path.get_rerandomized_leaves().to_vec()
            }
        };
        even.verify(&w.pe, &p.even_parameters.pc_gens, &p.even_parameters.bp_gens).map_err(|e| format!("even: {:?}", e))?;
        odd.verify(&w.po, &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens).map_err(|e| format!("odd: {:?}", e))?;
        Ok::<_, String>(leaves)
    })?
}
fn edit<P: SWCurveConfig + Copy>(v: &mut Vec<Affine<P>>, k: &str, i: usize, j: usize, rerun: &[Affine<P>], other: &[Affine<P>], blinding: Affine<P>) {
    match k {
        "rerun" => v[i] = rerun[i],
        "otherrun" => v[i] = other[i],
        "random" => v[i] = Affine::rand(&mut rand::thread_rng()),
        "identity" => v[i] = Affine::identity(),
        "negate" => v[i] = -v[i],
        "shift" => v[i] = (v[i] + blinding).into_affine(),
        "move" => v[i] = v[j],
        "swap" => v.swap(i, j),
        "drop" => {
            v.remove(i);
        }
        "dup" => v.insert(i, v[i]),
        "push" => v.push(Affine::rand(&mut rand::thread_rng())),
        _ => panic!("harness: alteration {}", k),
    }
}
/// Ok(None): as specified. Ok(Some(_)): a difference that may be due to chance on small curves. Err: a definite one.
fn once<const L: usize, const M: usize, Y: Cycle>(v: &Value, tree: &Tree<L, M, Y>, vtree: &Tree<L, M, Y>, entry: usize) -> Result<Option<String>, String> {
    let p = Y::params();
    let single = gets(v, "api") == "single";
    let exp = gets(v, "exp");
    let idx: Vec<usize> = ints(&v["idx"]).into_iter().map(|x| x as usize).collect();
    let steps = geta(v, "steps");
    let honest = gets(v, "strat") == "honest";
    let made = if exp == "refuse" {
        return Ok(prove::<L, M, Y>(&Source::Tree(tree, idx.clone()), single).ok().map(|w| match verify::<L, M, Y>(vtree, &w, single, entry) {
            Ok(_) => "a proof for an index without a leaf was made and accepted".to_string(),
            Err(_) => "a proof for an index without a leaf was made".to_string(),
        }));
    } else if honest && entry == 0 {
        prove::<L, M, Y>(&Source::Tree(tree, idx.clone()), single)
    } else {
        prove::<L, M, Y>(&Source::Steps(steps), single)
    };
    let w = match made {
        Ok(w) => w,
        Err(e) => return Ok(if exp == "accept" { Some(format!("the prover failed: {}", e)) } else { None }),
    };
    if honest {
        if w.even.len() != getu(v, "ne") || w.odd.len() != getu(v, "no") || w.sel.len() != idx.len() || w.scalars.len() != idx.len() {
            return Err(format!("the path has {} even, {} odd and {} selected commitments", w.even.len(), w.odd.len(), w.sel.len()));
        }
        let set = ints(&v["set"]);
        for (m, i) in idx.iter().enumerate() {
            let l: E0<Y> = point(&json!({"v": set[*i]}), &p.even_parameters, &p.odd_parameters, L, 0, if single { 1 } else { M });
            if (l + p.even_parameters.pc_gens.B_blinding * w.scalars[m]).into_affine() != w.sel[m] {
                return Err(format!("published leaf {} is not leaf {} plus the returned scalar times the blinding generator", m, i));
            }
        }
    }
    let mut pubd = w.clone();
    let alt = &v["alt"];
    let (k, c, i, j) = (gets(alt, "k"), gets(alt, "c"), getu(alt, "i"), getu(alt, "j"));
    if k != "none" {
        let n = ints(&v["set"]).len();
        let again = |src: Source<L, M, Y>| prove::<L, M, Y>(&src, single);
        let rerun = if k == "rerun" || k == "mix" { again(Source::Tree(tree, idx.clone()))? } else { w.clone() };
        let other = if k == "otherrun" || k == "mixother" { again(Source::Tree(tree, idx.iter().map(|x| (x + 1) % n).collect()))? } else { w.clone() };
        let (be, bo) = (p.even_parameters.pc_gens.B_blinding, p.odd_parameters.pc_gens.B_blinding);
        match (k, c) {
            ("mix", "even") => pubd.pe = rerun.pe,
            ("mix", "odd") => pubd.po = rerun.po,
            ("mixother", "even") => pubd.pe = other.pe,
            ("mixother", "odd") => pubd.po = other.po,
            (_, "even") => edit(&mut pubd.even, k, i, j, &rerun.even, &other.even, be),
            (_, "odd") => edit(&mut pubd.odd, k, i, j, &rerun.odd, &other.odd, bo),
            (_, "sel") => edit(&mut pubd.sel, k, i, j, &rerun.sel, &other.sel, be),
            _ => panic!("harness: component {}", c),
        }
    }
    let got = verify::<L, M, Y>(vtree, &pubd, single, entry);
    Ok(match (&got, exp) {
        (Ok(l), "accept") => {
            if *l != pubd.sel {
                return Err("the verifier hands out another leaf than the published one".into());
            }
            None
        }
        (Err(e), "accept") => Some(format!("an honest proof was rejected: {}", e)),
        (Ok(_), _) => Some(format!("accepted: strategy {}, alteration {}, verifier's tree {} raised to {}", gets(v, "strat"), alt, v["vset"], v["vwant"])),
        (Err(_), _) => None,
    })
}
/// The library's witness must be the one the specification's steps describe.
fn compare_witness<const L: usize, const M: usize, Y: Cycle>(v: &Value, tree: &Tree<L, M, Y>) -> Vec<String> {
    let single = gets(v, "api") == "single";
    let idx: Vec<usize> = ints(&v["idx"]).into_iter().map(|x| x as usize).collect();
    let own = witnesses::<L, Y>(geta(v, "steps"), idx.len());
    let mut bad = vec![];
    let got = guarded(|| {
        if single {
            let w = tree.select_and_rerandomize_prover_witness(idx[0], 0, Y::params());
            (w.even_internal_nodes.iter().map(|x| vec![*x]).collect::<Vec<_>>(), w.odd_internal_nodes.iter().map(|x| vec![*x]).collect::<Vec<_>>())
        } else {
            let w = tree.select_and_rerandomize_prover_multi_witness(arr(idx.clone()), Y::params());
            (w.even_internal_nodes.iter().map(|x| x.to_vec()).collect(), w.odd_internal_nodes.iter().map(|x| x.to_vec()).collect())
        }
    });
    let (e, o) = match got {
        Ok(x) => x,
        Err(m) => return vec![format!("no witness for index {:?}: {}", idx, m)],
    };
    if e.len() != own.even.len() || o.len() != own.odd.len() {
        bad.push(format!("a witness of {} even and {} odd nodes instead of {} and {}", e.len(), o.len(), own.even.len(), own.odd.len()));
        return bad;
    }
    for (a, b) in e.iter().flatten().zip(own.even.iter().flatten()) {
        if a.siblings != b.siblings || a.child_witness != b.child_witness {
            bad.push("an even node of the witness differs".into());
        }
    }
    for (a, b) in o.iter().flatten().zip(own.odd.iter().flatten()) {
        if a.siblings != b.siblings || a.child_witness != b.child_witness {
            bad.push("an odd node of the witness differs".into());
        }
    }
    bad
}
fn replay<Y: Cycle, const L: usize, const M: usize>(v: &Value) -> Vec<String> {
    let p = Y::params();
    let ms = if gets(v, "api") == "single" { 1 } else { M };
    let build = |set: &str, want: &str| -> Tree<L, M, Y> {
        let set: Vec<E0<Y>> = ints(&v[set]).into_iter().map(|x| point(&json!({"v": x}), &p.even_parameters, &p.odd_parameters, L, 0, ms)).collect();
        let h = getu(v, want);
        Tree::<L, M, Y>::from_set(&set, p, if h == 0 { None } else { Some(h) })
    };
    let tree = build("set", "want");
    let vtree = build("vset", "vwant");
    if gets(v, "exp") != "refuse" && gets(v, "strat") == "honest" {
        let bad = compare_witness::<L, M, Y>(v, &tree);
        if !bad.is_empty() {
            return bad;
        }
    }
    let entries = if Y::TOY { vec![0, 1] } else { vec![rand::thread_rng().gen_range(0..2)] };
    for entry in entries {
        let tries = if !Y::TOY { 1 } else if gets(v, "exp") == "accept" { 8 } else { 4 };
        let mut last = None;
        for _ in 0..tries {
            match once::<L, M, Y>(v, &tree, &vtree, entry) {
                Ok(None) => {
                    last = None;
                    break;
                }
                Ok(Some(m)) => last = Some(m),
                Err(m) => {
                    last = Some(m);
                    break;
                }
            }
        }
        if let Some(m) = last {
            return vec![m];
        }
    }
    vec![]
}
fn go<Y: Cycle>(items: &[(usize, Value)]) -> Vec<(usize, Vec<String>)> {
    pmap(items, |_, (i, v)| {
        // single paths are also taken through trees that hold several generator sets
        let (l, mut m) = (getu(v, "L"), getu(v, "M"));
        if gets(v, "api") == "single" && i % 2 == 1 {
            m = 2;
        }
        let r = guarded(|| crate::with_lm!(l, m, Y, replay(v))).unwrap_or_else(|e| vec![format!("panic: {}", e)]);
        (*i, r)
    })
    .into_iter()
    .filter(|x| !x.1.is_empty())
    .collect()
}
/// `cth paths <behaviours> <out> <how many on real curves>`: all on small curves; differences are confirmed on real ones.
pub fn main(input: &str, output: &str, real: &str) {
    let all: Vec<(usize, Value)> = read_lines(input).into_iter().enumerate().collect();
    let real: usize = real.parse().unwrap();
    let half = |k: usize| -> Vec<(usize, Value)> { all.iter().filter(|(i, _)| i % 2 == k).cloned().collect() };
    let mut seen: Vec<(usize, Vec<String>)> = go::<Toy>(&half(0));
    seen.extend(go::<ToyR>(&half(1)));
    eprintln!("{} behaviours on small curves, {} differences", all.len(), seen.len());
    let mut rng = rand::thread_rng();
    // confirm at most a few differences of each kind
    let mut kinds = std::collections::HashMap::new();
    let confirm: Vec<(usize, Value)> = seen
        .iter()
        .filter(|(i, b)| {
            let k = kinds.entry((b[0].chars().take(40).collect::<String>(), all[*i].1["alt"]["k"].to_string())).or_insert(0);
            *k += 1;
            *k <= 3
        })
        .take(40)
        .map(|(i, _)| all[*i].clone())
        .collect();
    let mut pick: Vec<(usize, Value)> = vec![];
    let step = (all.len() as f64 / real.max(1) as f64).max(1.0);
    let mut at = rng.gen_range(0.0..step);
    while (at as usize) < all.len() && pick.len() < real {
        pick.push(all[at as usize].clone());
        at += step;
    }
    let mut out = vec![];
    // generators take a while
    std::thread::scope(|s| {
        let n = confirm.len() + pick.len();
        if n > 0 {
            s.spawn(|| Pasta::params());
        }
        if n > 1 {
            s.spawn(|| Secp::params());
        }
        if n > 2 {
            s.spawn(|| PastaR::params());
            s.spawn(|| SecpR::params());
        }
    });
    let mut run = |items: &[(usize, Value)]| {
        let part = |k: usize| -> Vec<(usize, Value)> { items.iter().enumerate().filter(|(n, _)| n % 4 == k).map(|(_, x)| x.clone()).collect() };
        let (p, o) = (&part, &std::sync::Mutex::new(&mut out));
        let done = |name: &str, r: Vec<(usize, Vec<String>)>| o.lock().unwrap().extend(r.into_iter().map(|(i, b)| json!({"i": i, "cycle": name, "bad": b})));
        let done = &done;
        std::thread::scope(|s| {
            s.spawn(move || done("pallas/vesta", go::<Pasta>(&p(0))));
            s.spawn(move || done("secp256k1/secq256k1", go::<Secp>(&p(1))));
            s.spawn(move || done("vesta/pallas", go::<PastaR>(&p(2))));
            s.spawn(move || done("secq256k1/secp256k1", go::<SecpR>(&p(3))));
        });
    };
    run(&confirm);
    run(&pick);
    eprintln!("{} on real curves, {} to confirm", pick.len(), confirm.len());
    write_lines(output, &out);
}
