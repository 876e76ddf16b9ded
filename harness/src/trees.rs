//! Curve trees: curve cycles, parameters, leaves, and the specification's symbols for nodes (C06).
use crate::toy::*;
use crate::util::*;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::{AffineRepr, CurveGroup, VariableBaseMSM};
use ark_ff::{PrimeField, Zero};
use relations::curve_tree::*;
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use serde_json::{json, Value};
use std::collections::HashMap;
use std::sync::{Mutex, OnceLock};

fn gens(default: usize) -> usize {
    std::env::var("CTH_GENS").ok().and_then(|x| x.parse().ok()).unwrap_or(default)
}
pub trait Cycle: 'static + Sized + Sync + Send {
    type F0: PrimeField;
    type F1: PrimeField;
    type P0: SWCurveConfig<BaseField = Self::F1, ScalarField = Self::F0> + Copy + Send;
    type P1: SWCurveConfig<BaseField = Self::F0, ScalarField = Self::F1> + Copy + Send;
    const NAME: &'static str;
    const TOY: bool;
    fn params() -> &'static SelRerandParameters<Self::P0, Self::P1>;
}
macro_rules! cycle {
    ($n:ident, $name:literal, $toy:literal, $p0:ty, $p1:ty, $gens:literal) => {
        pub struct $n;
        impl Cycle for $n {
            type F0 = <$p0 as ark_ec::CurveConfig>::ScalarField;
            type F1 = <$p1 as ark_ec::CurveConfig>::ScalarField;
            type P0 = $p0;
            type P1 = $p1;
            const NAME: &'static str = $name;
            const TOY: bool = $toy;
            fn params() -> &'static SelRerandParameters<$p0, $p1> {
                static CELL: OnceLock<SelRerandParameters<$p0, $p1>> = OnceLock::new();
                CELL.get_or_init(|| SelRerandParameters::new(gens($gens), gens($gens)))
            }
        }
    };
}
cycle!(Toy, "toy", true, EA, EB, 4096);
cycle!(ToyR, "toy reversed", true, EB, EA, 4096);
cycle!(Pasta, "pallas/vesta", false, ark_pallas::PallasConfig, ark_vesta::VestaConfig, 8192);
cycle!(PastaR, "vesta/pallas", false, ark_vesta::VestaConfig, ark_pallas::PallasConfig, 8192);
cycle!(Secp, "secp256k1/secq256k1", false, ark_secp256k1::Config, ark_secq256k1::Config, 8192);
cycle!(SecpR, "secq256k1/secp256k1", false, ark_secq256k1::Config, ark_secp256k1::Config, 8192);

pub type E0<Y> = Affine<<Y as Cycle>::P0>;
pub type E1<Y> = Affine<<Y as Cycle>::P1>;
pub type Params<Y> = SelRerandParameters<<Y as Cycle>::P0, <Y as Cycle>::P1>;
pub type Tree<const L: usize, const M: usize, Y> = CurveTree<L, M, <Y as Cycle>::P0, <Y as Cycle>::P1>;

/// Calls `$f::<Y, L, M>` for the branching factor and batch width found at run time.
#[macro_export]
macro_rules! with_lm {
    ($l:expr, $m:expr, $y:ty, $f:ident ( $($a:expr),* )) => {
        match ($l, $m) {
            (2, 1) => $f::<$y, 2, 1>($($a),*),
            (3, 1) => $f::<$y, 3, 1>($($a),*),
            (4, 1) => $f::<$y, 4, 1>($($a),*),
            (2, 2) => $f::<$y, 2, 2>($($a),*),
            (3, 2) => $f::<$y, 3, 2>($($a),*),
            (2, 3) => $f::<$y, 2, 3>($($a),*),
            (3, 3) => $f::<$y, 3, 3>($($a),*),
            (2, 4) => $f::<$y, 2, 4>($($a),*),
            (4, 2) => $f::<$y, 4, 2>($($a),*),
            (8, 1) => $f::<$y, 8, 1>($($a),*),
            (l, m) => panic!("harness: branching factor {} with batch width {}", l, m),
        }
    };
}
pub fn hash_scalar<F: PrimeField>(tag: &str, v: i64) -> F {
    use sha3::{Digest, Sha3_512};
    F::from_le_bytes_mod_order(&Sha3_512::digest(format!("{}{}", tag, v).as_bytes()))
}
/// The point a leaf name stands for.
pub fn leaf<P: SWCurveConfig>(v: i64) -> Affine<P> {
    (Affine::<P>::generator() * hash_scalar::<P::ScalarField>("leaf", v)).into_affine()
}
pub fn ints(v: &Value) -> Vec<i64> {
    v.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect()
}
pub fn msm<P: SWCurveConfig>(ps: &[Affine<P>], ss: &[P::ScalarField]) -> Affine<P> {
    <Affine<P> as AffineRepr>::Group::msm(ps, ss).unwrap().into_affine()
}
/// What a branch must be committed to under generator set `set`.
pub fn opening<P: SWCurveConfig + Copy, Q: SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField> + Copy>(
    p: &SingleLayerParameters<P>,
    q: &SingleLayerParameters<Q>,
    children: &[Affine<Q>],
    width: usize,
    set: usize,
) -> Affine<P> {
    let g: Vec<Affine<P>> = p.bp_gens.share(0).G(width * (set + 1)).skip(width * set).copied().collect();
    let xs: Vec<P::ScalarField> = children.iter().map(|c| (*c + q.delta).into_affine().x).collect();
    msm(&g[..xs.len()], &xs)
}
/// Symbols bound to commitments, in both directions, per generator set.
type Bound = Mutex<(HashMap<String, Vec<u8>>, HashMap<(usize, Vec<u8>), String>)>;
fn bind(b: &Bound, width: usize, key: String, point: Vec<u8>, bad: &mut Vec<String>) {
    let mut b = b.lock().unwrap();
    if let Some(old) = b.0.get(&key) {
        if *old != point {
            bad.push(format!("the same node {} has different commitments", key));
        }
        return;
    }
    if let Some(k) = b.1.get(&(width, point.clone())) {
        bad.push(format!("nodes {} and {} have the same commitment", k, key));
    }
    b.1.insert((width, point.clone()), key.clone());
    b.0.insert(key, point);
}
/// Compares a node with its symbol; P is the node's curve.
fn check_node<const L: usize, const M: usize, P, Q>(
    n: &CurveTreeNode<L, M, P, Q>,
    t: &Value,
    p: &SingleLayerParameters<P>,
    q: &SingleLayerParameters<Q>,
    b: &Bound,
    bad: &mut Vec<String>,
) where
    P: SWCurveConfig + Copy,
    Q: SWCurveConfig<BaseField = P::ScalarField, ScalarField = P::BaseField> + Copy,
{
    match n {
        CurveTreeNode::Leaf(c) => {
            if t["v"].is_null() {
                bad.push(format!("leaf instead of {}", t));
            } else if *c != leaf::<P>(geti(t, "v")) {
                bad.push(format!("another leaf instead of {}", t));
            }
            for j in 0..M {
                if n.commitment(j) != *c {
                    bad.push(format!("leaf {} has another commitment under set {}", t, j));
                }
            }
            if n.height() != 0 || n.elements() != 1 {
                bad.push(format!("leaf of height {} with {} elements", n.height(), n.elements()));
            }
        }
        CurveTreeNode::Branch { parent_commitment, children, height, elements } => {
            if t["c"].is_null() {
                bad.push(format!("branch instead of leaf {}", t));
                return;
            }
            if *height != getu(t, "h") || n.height() != getu(t, "h") {
                bad.push(format!("height {} instead of {}", height, t["h"]));
            }
            if *elements != getu(t, "n") || n.elements() != getu(t, "n") {
                bad.push(format!("{} elements instead of {}", elements, t["n"]));
            }
            let want = geta(t, "c");
            for i in 0..L {
                match (&children[i], want.get(i)) {
                    (None, None) => {}
                    (Some(c), Some(w)) => check_node::<L, M, Q, P>(c, w, q, p, b, bad),
                    (c, _) => bad.push(format!("slot {} of {} is {}", i, t, if c.is_some() { "filled" } else { "empty" })),
                }
            }
            for j in 0..M {
                let cs: Vec<Affine<Q>> = children.iter().flatten().map(|c| c.commitment(j)).collect();
                if children.iter().take(cs.len()).all(|c| c.is_some()) && opening(p, q, &cs, L, j) != parent_commitment[j] {
                    bad.push(format!("the commitment of {} under set {} does not open to its children", t, j));
                }
                if n.commitment(j) != parent_commitment[j] {
                    bad.push(format!("commitment({}) is not the {}-th commitment", j, j));
                }
                bind(b, L, format!("L{} set {} {}", L, j, t), ser(&parent_commitment[j]), bad);
            }
        }
    }
}
fn check_tree<Y: Cycle, const L: usize, const M: usize>(ct: &Tree<L, M, Y>, t: &Value, b: &Bound, bad: &mut Vec<String>) {
    let p = Y::params();
    let h = if t["v"].is_null() { getu(t, "h") } else { 0 };
    if ct.height() != h {
        bad.push(format!("tree of height {} instead of {}", ct.height(), h));
    }
    match ct {
        CurveTree::Even(n) if h % 2 == 0 => check_node(n, t, &p.even_parameters, &p.odd_parameters, b, bad),
        CurveTree::Odd(n) if h % 2 == 1 => check_node(n, t, &p.odd_parameters, &p.even_parameters, b, bad),
        _ => bad.push(format!("the root of a tree of height {} is on the wrong curve", h)),
    }
}
fn behaviour<Y: Cycle, const L: usize, const M: usize>(v: &Value, b: &Bound) -> Vec<String> {
    let mut bad = vec![];
    for t in geta(v, "trees") {
        let set: Vec<E0<Y>> = ints(&t["set"]).into_iter().map(leaf).collect();
        let want = getu(t, "want");
        let some = |h: usize| if h == 0 { None } else { Some(h) };
        let made = guarded(|| match gets(t, "op") {
            "build" => Tree::<L, M, Y>::from_set(&set, Y::params(), some(want)),
            "raise" => Tree::<L, M, Y>::from_set(&set, Y::params(), some(getu(t, "from"))).increase_height(some(want), Y::params()),
            _ => panic!("harness: op"),
        });
        match made {
            Ok(ct) => check_tree::<Y, L, M>(&ct, &t["tree"], b, &mut bad),
            Err(e) => bad.push(format!("building {} panicked: {}", t["set"], e)),
        }
    }
    bad
}
fn run_cycle<Y: Cycle>(items: &[(usize, Value)], out: &mut Vec<Value>) {
    let b = Mutex::new((HashMap::new(), HashMap::new()));
    let r = pmap(items, |_, (i, v)| {
        let (l, m) = (getu(v, "L"), getu(v, "M"));
        match guarded(|| crate::with_lm!(l, m, Y, behaviour(v, &b))) {
            Ok(bad) => json!({"i": i, "cycle": Y::NAME, "bad": bad}),
            Err(e) => json!({"i": i, "cycle": Y::NAME, "bad": [format!("panic: {}", e)]}),
        }
    });
    out.extend(r.into_iter().filter(|v| !v["bad"].as_array().unwrap().is_empty()));
    // nothing can be built from nothing
    if guarded(|| Tree::<2, 1, Y>::from_set(&[], Y::params(), None)).is_ok() {
        out.push(json!({"i": -1, "cycle": Y::NAME, "bad": ["a tree of no leaves was built"]}));
    }
}
/// `cth trees <behaviours> <out>`
pub fn main(input: &str, output: &str) {
    let all = read_lines(input);
    let part = |k: usize| -> Vec<(usize, Value)> { all.iter().enumerate().filter(|(i, _)| i % 4 == k).map(|(i, v)| (i, v.clone())).collect() };
    let mut out = vec![];
    run_cycle::<Pasta>(&part(0), &mut out);
    run_cycle::<PastaR>(&part(1), &mut out);
    run_cycle::<Secp>(&part(2), &mut out);
    run_cycle::<SecpR>(&part(3), &mut out);
    write_lines(output, &out);
}
