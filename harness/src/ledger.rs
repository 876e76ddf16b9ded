//! Replays Ledger.tla: coins, mints and payments, by owners and others, with the library and around it (C12, C13).
use crate::trees::*;
use crate::util::*;
use ark_crypto_primitives::signature::schnorr::{Parameters, Schnorr, SecretKey};
use ark_crypto_primitives::signature::SignatureScheme;
use ark_ec::short_weierstrass::{Affine, SWCurveConfig};
use ark_ec::CurveGroup;
use ark_ff::{Field, One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress};
use ark_std::UniformRand;
use blake2::Blake2s256;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use rand::{Rng, SeedableRng};
use rand_chacha::ChaCha20Rng;
use relations::coin::*;
use relations::curve_tree::*;
use relations::single_level_select_and_rerandomize::SingleLayerParameters;
use serde_json::{json, Value};
use std::hash::Hash;

pub type Sig<C> = Schnorr<C, Blake2s256>;
pub type SigParams<C> = Parameters<C, Blake2s256>;
pub const DOMAIN: &[u8] = b"ledger";
pub trait Group: CurveGroup<ScalarField: PrimeField> + Hash {}
impl<T: CurveGroup<ScalarField: PrimeField> + Hash> Group for T {}

/// An amount a*2^63 + b.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Amount(i64, i64);
impl Amount {
    fn of(v: &Value) -> Amount {
        Amount(v[0].as_i64().unwrap(), v[1].as_i64().unwrap())
    }
    fn exact(&self) -> i128 {
        self.0 as i128 * (1i128 << 63) + self.1 as i128
    }
    fn small(&self) -> u64 {
        self.exact() as u64
    }
    fn field<F: PrimeField>(&self) -> F {
        let x = self.exact();
        if x < 0 {
            -F::from((-x) as u128)
        } else {
            F::from(x as u128)
        }
    }
}
pub fn sign_for<C: Group>(sp: &SigParams<C>, sk: C::ScalarField, rand: &C::ScalarField, msg: &[u8]) -> (C::ScalarField, C::ScalarField) {
    let s = Sig::<C>::sign(sp, &SecretKey(sk), msg, &mut rand::thread_rng()).unwrap();
    let s = Sig::<C>::randomize_signature(sp, &s, &ser(rand)).unwrap();
    (s.prover_response, s.verifier_challenge)
}
/// The scalar a randomness adds to secret keys.
pub fn shift_of<C: Group>(sp: &SigParams<C>, rand: &C::ScalarField) -> C::ScalarField {
    let s = ark_crypto_primitives::signature::schnorr::Signature { prover_response: C::ScalarField::zero(), verifier_challenge: C::ScalarField::one() };
    -Sig::<C>::randomize_signature(sp, &s, &ser(rand)).unwrap().prover_response
}
pub fn signed<Y: Cycle, C: Group>(s0: (C::ScalarField, C::ScalarField), s1: (C::ScalarField, C::ScalarField), bytes: &Vec<u8>) -> SignedTx<Y::P0, Y::P1, C> {
    let mut b = vec![];
    for x in [s0.0, s0.1, s1.0, s1.1] {
        b.extend(ser(&x));
    }
    b.extend(ser(bytes));
    SignedTx::deserialize_compressed(b.as_slice()).expect("harness: a signed payment")
}
pub fn verdict<const L: usize, Y: Cycle, C: Group>(tx: &SignedTx<Y::P0, Y::P1, C>, tree: &Tree<L, 1, Y>, sp: &SigParams<C>, domain: &'static [u8]) -> Result<(), String> {
    let p = Y::params();
    let tx = tx.clone();
    guarded(|| {
        let (e, o) = tx.verification_gadget::<L>(domain, p, tree, sp);
        batch_verify(vec![e], &p.even_parameters.pc_gens, &p.even_parameters.bp_gens).map_err(|e| format!("even: {:?}", e))?;
        batch_verify(vec![o], &p.odd_parameters.pc_gens, &p.odd_parameters.bp_gens).map_err(|e| format!("odd: {:?}", e))
    })?
}
pub struct Held<Y: Cycle, C: Group> {
    pub coin: Coin<Y::P0, C>,
    pub point: E0<Y>,
    pub key: C::Affine,
    pub sk: C::ScalarField,
}
pub fn copy_of<P: SWCurveConfig + Copy, C: Group>(c: &Coin<P, C>) -> Coin<P, C> {
    Coin { value: c.value, tag: c.tag, blinding: c.blinding, pk_randomness: c.pk_randomness }
}
fn key_scalar<P: SWCurveConfig, C: Group>(k: &C::Affine) -> P::ScalarField {
    element_from_bytes_stat(&ser(k))
}
impl<Y: Cycle, C: Group> Held<Y, C> {
    pub fn info(&self, index: usize) -> SpendingInfo<Y::P0, C> {
        SpendingInfo { index, coin_aux: copy_of(&self.coin), randomized_pk: self.key, sk: SecretKey(self.sk) }
    }
}
fn range_bits<P: SWCurveConfig>(prover: &mut Prover<Transcript, Affine<P>>, var: Variable<P::ScalarField>, x: P::ScalarField, w: usize) {
    if w == 1000 {
        return;
    }
    let bits = ark_ff::BigInteger::to_bits_le(&x.into_bigint());
    let mut sum: LinearCombination<P::ScalarField> = var.into();
    let mut pow = P::ScalarField::one();
    for i in 0..w {
        let bit = P::ScalarField::from(bits.get(i).copied().unwrap_or(false));
        let (a, b, o) = prover.allocate_multiplier(Some((P::ScalarField::one() - bit, bit))).unwrap();
        prover.constrain(o.into());
        prover.constrain(a + (b - P::ScalarField::one()));
        sum = sum - b * pow;
        pow.double_in_place();
    }
    prover.constrain(sum);
}
/// What a payment composed without the library publishes.
struct Composed<'a, Y: Cycle, C: Group> {
    x: [Amount; 2],
    w: [usize; 2],
    to: [C::Affine; 2],
    spend: [&'a Held<Y, C>; 2],
    index: [usize; 2],
    thefts: [&'a str; 2],
    replace: bool,
}
fn compose<const L: usize, Y: Cycle, C: Group>(k: &Composed<Y, C>, tree: &Tree<L, 1, Y>, sp: &SigParams<C>, thief: &(C::Affine, C::ScalarField)) -> Result<SignedTx<Y::P0, Y::P1, C>, String> {
    let p = Y::params();
    let ep: &SingleLayerParameters<Y::P0> = &p.even_parameters;
    let rng = &mut rand::thread_rng();
    let mut even: Prover<Transcript, E0<Y>> = Prover::new(&ep.pc_gens, Transcript::new(DOMAIN));
    let mut odd: Prover<Transcript, E1<Y>> = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(DOMAIN));
    let (mut minted, mut amounts) = (vec![], vec![]);
    for s in 0..2 {
        let x: Y::F0 = k.x[s].field();
        let tag = key_scalar::<Y::P0, C>(&k.to[s]);
        let (c, v) = even.commit_vec(&[x, tag], Y::F0::rand(rng), &ep.bp_gens);
        range_bits::<Y::P0>(&mut even, v[0], x, k.w[s]);
        minted.push(c);
        amounts.push(v[0]);
    }
    let (mut paths, mut keys, mut sks, mut spent) = (vec![], vec![], vec![], vec![]);
    for s in 0..2 {
        let h = k.spend[s];
        let (mut path, r) = tree.select_and_rerandomize_prover_gadget(k.index[s], 0, &mut even, &mut odd, p, rng);
        let (mut value, mut tag) = (Y::F0::from(h.coin.value), h.coin.tag);
        let (mut key, mut sk) = (h.key, (h.sk, h.coin.pk_randomness));
        if k.thefts[s] == "retag" {
            (key, sk) = (thief.0, (thief.1, C::ScalarField::zero()));
            tag = key_scalar::<Y::P0, C>(&key);
        }
        if k.thefts[s] == "revalue" {
            // what the other amounts call for
            value = k.x[0].field::<Y::F0>() + k.x[1].field::<Y::F0>() - Y::F0::from(k.spend[1 - s].coin.value);
        }
        let (c, v) = even.commit_vec(&[value, tag], h.coin.blinding + r, &ep.bp_gens);
        if k.replace && k.thefts[s] != "own" {
            path.selected_commitment = c;
        }
        even.constrain(v[1] - tag);
        paths.push(path);
        keys.push(key);
        sks.push(sk);
        spent.push(v[0]);
    }
    even.constrain(amounts[0] + amounts[1] - spent[0] - spent[1]);
    let even_proof = even.prove(&ep.bp_gens).map_err(|e| format!("{:?}", e))?;
    let odd_proof = odd.prove(&p.odd_parameters.bp_gens).map_err(|e| format!("{:?}", e))?;
    let pour = Pour::<L, Y::P0, Y::P1, C> {
        even_proof,
        odd_proof,
        randomized_path_0: paths[0].clone(),
        randomized_path_1: paths[1].clone(),
        pk0: keys[0],
        pk1: keys[1],
        minted_coin_commitment_0: minted[0],
        minted_coin_commitment_1: minted[1],
    };
    let bytes = ser(&pour);
    Ok(signed::<Y, C>(sign_for::<C>(sp, sks[0].0, &sks[0].1, &bytes), sign_for::<C>(sp, sks[1].0, &sks[1].1, &bytes), &bytes))
}
/// An input as the payer presents it.
fn present<Y: Cycle, C: Group>(form: &str, coins: &[Held<Y, C>], i: usize, sp: &SigParams<C>, thief: &(C::Affine, C::ScalarField)) -> SpendingInfo<Y::P0, C> {
    let h = &coins[i];
    let mut info = h.info(i);
    let named = |k: &C::Affine| Coin::<Y::P0, C>::rerandomized_pk(k, &h.coin.pk_randomness, sp);
    match form {
        "own" => {}
        "sk" => info.sk = SecretKey(thief.1),
        "key" => {
            info.randomized_pk = named(&thief.0);
            info.sk = SecretKey(thief.1);
        }
        "keyonly" => info.randomized_pk = named(&thief.0),
        "neg" => {
            let m = shift_of::<C>(sp, &h.coin.pk_randomness);
            info.randomized_pk = (C::zero() - h.key).into_affine();
            info.sk = SecretKey(-(h.sk + m) - m);
        }
        "shift" => {
            let k = C::ScalarField::rand(&mut rand::thread_rng());
            info.randomized_pk = (C::zero() + sp.generator * k).into_affine();
            info.sk = SecretKey(k - shift_of::<C>(sp, &h.coin.pk_randomness));
        }
        "value" => info.coin_aux.value = info.coin_aux.value.wrapping_add(1),
        "place" => info.index = (i + 1) % coins.len(),
        "rand" => info.coin_aux.pk_randomness += C::ScalarField::one(),
        "tag" => {
            info.coin_aux.tag = key_scalar::<Y::P0, C>(&named(&thief.0));
            info.randomized_pk = named(&thief.0);
            info.sk = SecretKey(thief.1);
        }
        f => panic!("harness: form {}", f),
    }
    info
}
pub struct World<Y: Cycle, C: Group> {
    pub sp: SigParams<C>,
    pub owners: Vec<(C::Affine, C::ScalarField)>,
    pub coins: Vec<Held<Y, C>>,
}
pub fn world<Y: Cycle, C: Group>() -> World<Y, C> {
    let rng = &mut rand::thread_rng();
    let sp = Sig::<C>::setup(rng).unwrap();
    // the last of them owns nothing
    let owners = (0..4)
        .map(|_| {
            let (pk, sk) = Sig::<C>::keygen(&sp, rng).unwrap();
            (pk, sk.0)
        })
        .collect();
    World { sp, owners, coins: vec![] }
}
impl<Y: Cycle, C: Group> World<Y, C> {
    pub fn held(&self, coin: Coin<Y::P0, C>, point: E0<Y>, o: usize) -> Held<Y, C> {
        let key = Coin::<Y::P0, C>::rerandomized_pk(&self.owners[o].0, &coin.pk_randomness, &self.sp);
        Held { key, sk: self.owners[o].1, coin, point }
    }
    /// A coin must commit to its amount and to the key its owner can sign for.
    pub fn check_coin(&self, h: &Held<Y, C>, x: u64, bad: &mut Vec<String>) {
        let ep = &Y::params().even_parameters;
        if h.coin.value != x {
            bad.push(format!("a coin of {} holds {}", x, h.coin.value));
        }
        if h.coin.tag != key_scalar::<Y::P0, C>(&h.key) {
            bad.push("a coin's tag is not derived from its randomized key".into());
        }
        let g: Vec<E0<Y>> = ep.bp_gens.share(0).G(2).copied().collect();
        let c = msm(&[g[0], g[1], ep.pc_gens.B_blinding], &[Y::F0::from(x), h.coin.tag, h.coin.blinding]);
        if c != h.point {
            bad.push("a coin's commitment does not open to its amount, tag and blinding".into());
        }
    }
    pub fn tree<const L: usize>(&self, n: usize, h: usize) -> Tree<L, 1, Y> {
        let set: Vec<E0<Y>> = self.coins[..n].iter().map(|c| c.point).collect();
        Tree::<L, 1, Y>::from_set(&set, Y::params(), if h == 0 { None } else { Some(h) })
    }
}
fn replay<Y: Cycle, const L: usize, const M: usize, C: Group>(v: &Value) -> (Vec<String>, bool) {
    let p = Y::params();
    let ep = &p.even_parameters;
    let rng = &mut rand::thread_rng();
    let mut w = world::<Y, C>();
    let thief = w.owners[3];
    let mut bad = vec![];
    let mut tree: Option<Tree<L, 1, Y>> = None;
    let mut seen: std::collections::HashSet<Vec<u8>> = Default::default();
    for (at, e) in geta(v, "hist").iter().enumerate() {
        match gets(e, "op") {
            "new" => {
                let o = getu(e, "o") - 1;
                let x = Amount::of(&e["x"]).small();
                let (c, pt) = Coin::<Y::P0, C>::new(x, &w.owners[o].0, &w.sp, ep, rng);
                let h = w.held(c, pt, o);
                w.check_coin(&h, x, &mut bad);
                w.coins.push(h);
            }
            "mint" => {
                let o = getu(e, "o") - 1;
                let x = Amount::of(&e["x"]);
                let mut prover: Prover<Transcript, E0<Y>> = Prover::new(&ep.pc_gens, Transcript::new(DOMAIN));
                let honest = gets(e, "exp") == "accept";
                let point;
                if honest {
                    let (c, pt, _) = Coin::<Y::P0, C>::mint(x.small(), &w.owners[o].0, &w.sp, ep, rng, &mut prover);
                    let h = w.held(c, pt, o);
                    w.check_coin(&h, x.small(), &mut bad);
                    w.coins.push(h);
                    point = pt;
                } else {
                    let f: Y::F0 = x.field();
                    let (c, v) = prover.commit_vec(&[f, Y::F0::rand(rng)], Y::F0::rand(rng), &ep.bp_gens);
                    range_bits::<Y::P0>(&mut prover, v[0], f, getu(e, "w"));
                    point = c;
                }
                let got = guarded(|| {
                    let proof = prover.prove(&ep.bp_gens).map_err(|e| format!("{:?}", e))?;
                    let mut verifier = Verifier::<Transcript, E0<Y>>::new(Transcript::new(DOMAIN));
                    verify_mint(&mut verifier, point);
                    verifier.verify(&proof, &ep.pc_gens, &ep.bp_gens).map_err(|e| format!("{:?}", e))
                })
                .and_then(|x| x);
                if got.is_ok() != honest {
                    bad.push(format!("step {}: a mint of {} proved with {} bits: {:?}", at, x.exact(), getu(e, "w"), got));
                }
            }
            "tree" => tree = Some(w.tree::<L>(getu(e, "n"), getu(e, "h"))),
            "pour" => {
                let t = tree.as_ref().unwrap();
                let (i, j) = (getu(e, "i"), getu(e, "j"));
                let (x0, x1) = (Amount::of(&e["x0"]), Amount::of(&e["x1"]));
                let (o0, o1) = (getu(e, "o0") - 1, getu(e, "o1") - 1);
                let (f, g) = (gets(e, "f"), gets(e, "g"));
                let honest = gets(e, "exp") == "accept";
                let mut seed = ChaCha20Rng::from_entropy();
                let mut shadow = seed.clone();
                let made = if e["raw"].as_bool().unwrap() {
                    let c = Composed { x: [x0, x1], w: [getu(e, "w0"), getu(e, "w1")], to: [w.owners[o0].0, w.owners[o1].0], spend: [&w.coins[i], &w.coins[j]], index: [i, j], thefts: [f, g], replace: rng.gen() };
                    guarded(|| compose::<L, Y, C>(&c, t, &w.sp, &thief)).and_then(|x| x)
                } else {
                    let (in0, in1) = (present::<Y, C>(f, &w.coins[..t_len(t)], i, &w.sp, &thief), present::<Y, C>(g, &w.coins[..t_len(t)], j, &w.sp, &thief));
                    guarded(|| {
                        let even = Prover::new(&ep.pc_gens, Transcript::new(DOMAIN));
                        let odd = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(DOMAIN));
                        prove_pour(even, odd, p, t, &in0, &in1, x0.small(), w.owners[o0].0, x1.small(), w.owners[o1].0, &w.sp, &mut seed)
                    })
                };
                let got = match &made {
                    Ok(tx) => verdict::<L, Y, C>(tx, t, &w.sp, DOMAIN),
                    Err(m) => Err(format!("not made: {}", m)),
                };
                let what = |s: &str| format!("step {}: {} ({} and {} spent as {} and {}, {} and {} paid{})", at, s, w.coins[i].coin.value, w.coins[j].coin.value, f, g, x0.exact(), x1.exact(), if e["raw"] == json!(true) { format!(" with {} and {} bits", e["w0"], e["w1"]) } else { String::new() });
                match (&got, honest) {
                    (Err(m), true) => bad.push(what(&format!("an honest payment is rejected: {}", m))),
                    (Ok(_), false) => bad.push(what("accepted")),
                    (Ok(_), true) => {
                        let tx = made.unwrap();
                        let pour = Pour::<L, Y::P0, Y::P1, C>::deserialize_compressed(tx.pour_bytes.as_slice()).expect("harness: payment");
                        if pour.pk0 != w.coins[i].key || pour.pk1 != w.coins[j].key {
                            bad.push(what("a payment does not name the keys of the coins it spends"));
                        }
                        let (k0, k1) = (ser(&pour.pk0), ser(&pour.pk1));
                        let dup = k0 == k1 || seen.contains(&k0) || seen.contains(&k1);
                        if dup != e["dup"].as_bool().unwrap() {
                            bad.push(what(&format!("a coin spent before: {}, seen from the keys named: {}", e["dup"], dup)));
                        }
                        if !dup {
                            seen.insert(k0);
                            seen.insert(k1);
                            // the receivers' coins
                            let mut coins = vec![];
                            for (x, o, c) in [(x0, o0, pour.minted_coin_commitment_0), (x1, o1, pour.minted_coin_commitment_1)] {
                                let (coin, pt) = Coin::<Y::P0, C>::new(x.small(), &w.owners[o].0, &w.sp, ep, &mut shadow);
                                if pt != c {
                                    // the payer's secrets cannot be reconstructed this way
                                    return (bad, false);
                                }
                                coins.push((coin, pt, o, x));
                            }
                            for (coin, pt, o, x) in coins {
                                let h = w.held(coin, pt, o);
                                w.check_coin(&h, x.small(), &mut bad);
                                w.coins.push(h);
                            }
                        }
                    }
                    _ => {}
                }
            }
            o => panic!("harness: operation {}", o),
        }
        if !bad.is_empty() {
            break;
        }
    }
    (bad, true)
}
fn t_len<const L: usize, Y0: SWCurveConfig + Copy, Y1: SWCurveConfig<BaseField = Y0::ScalarField, ScalarField = Y0::BaseField> + Copy>(t: &CurveTree<L, 1, Y0, Y1>) -> usize {
    match t {
        CurveTree::Even(n) => n.elements(),
        CurveTree::Odd(n) => n.elements(),
    }
}
fn one<Y: Cycle, C: Group>(v: &Value) -> (Vec<String>, bool) {
    match getu(v, "L") {
        2 => replay::<Y, 2, 1, C>(v),
        3 => replay::<Y, 3, 1, C>(v),
        4 => replay::<Y, 4, 1, C>(v),
        8 => replay::<Y, 8, 1, C>(v),
        256 => replay::<Y, 256, 1, C>(v),
        l => panic!("harness: branching factor {}", l),
    }
}
/// `cth ledger <behaviours> <out>`: each on one of four pairs of curves and groups.
pub fn main(input: &str, output: &str) {
    let all = read_lines(input);
    std::thread::scope(|s| {
        s.spawn(Pasta::params);
        s.spawn(Secp::params);
        s.spawn(PastaR::params);
        s.spawn(SecpR::params);
    });
    let out = pmap(&all, |i, v| {
        let (name, r) = match i % 4 {
            0 => ("pallas/vesta, pallas keys", guarded(|| one::<Pasta, ark_pallas::Projective>(v))),
            1 => ("secp256k1/secq256k1, secp256k1 keys", guarded(|| one::<Secp, ark_secp256k1::Projective>(v))),
            2 => ("vesta/pallas, secp256k1 keys", guarded(|| one::<PastaR, ark_secp256k1::Projective>(v))),
            _ => ("secq256k1/secp256k1, vesta keys", guarded(|| one::<SecpR, ark_vesta::Projective>(v))),
        };
        let (bad, whole) = r.unwrap_or_else(|e| (vec![format!("panic: {}", e)], true));
        json!({"i": i, "cycle": name, "bad": bad, "whole": whole})
    });
    eprintln!("{} histories, {} not replayed to the end", out.len(), out.iter().filter(|x| x["whole"] == json!(false)).count());
    write_lines(output, &out.into_iter().filter(|x| x["bad"] != json!([])).collect::<Vec<_>>());
}
