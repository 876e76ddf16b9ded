//! Encodings of paths, proofs, payments and signed payments, altered (TxWire.tla: C13, C14).
use crate::ledger::*;
use crate::trees::*;
use crate::util::*;
use ark_crypto_primitives::signature::schnorr::{Schnorr, SecretKey};
use ark_crypto_primitives::signature::SignatureScheme;
use ark_ec::{AffineRepr, CurveGroup};
use ark_ff::{BigInteger, One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress, Validate};
use ark_std::UniformRand;
use bulletproofs::r1cs::*;
use merlin::Transcript;
use rand::SeedableRng;
use rand_chacha::ChaCha20Rng;
use relations::coin::*;
use relations::curve_tree::*;
use serde_json::{json, Value};
use std::collections::HashMap;

#[derive(Clone, Debug)]
struct Tok {
    t: &'static str,
    b: Vec<u8>,
    c: &'static str,
}
fn bytes_of<T: CanonicalSerialize>(x: &T, m: Compress) -> Vec<u8> {
    let mut v = vec![];
    x.serialize_with_mode(&mut v, m).unwrap();
    v
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
/// How the tokens of one type are altered.
struct Kind {
    len: usize,
    neg: Box<dyn Fn(&[u8]) -> Vec<u8> + Sync>,
    inc: Box<dyn Fn(&[u8]) -> Vec<u8> + Sync>,
    zero: Vec<u8>,
    gen: Vec<u8>,
    off: Vec<u8>,
}
fn point_kind<A: AffineRepr>(m: Compress, gen: A) -> Kind {
    let mut off = bytes_of(&gen, m);
    let rd = move |b: &[u8]| A::deserialize_with_mode(b, m, Validate::Yes);
    while rd(&off).is_ok() {
        off[0] = off[0].wrapping_add(1);
    }
    Kind {
        len: bytes_of(&A::zero(), m).len(),
        neg: Box::new(move |b| rd(b).map(|p| bytes_of(&(-p.into_group()).into_affine(), m)).unwrap_or(b.to_vec())),
        inc: Box::new(|b| b.to_vec()),
        zero: bytes_of(&A::zero(), m),
        gen: bytes_of(&gen, m),
        off,
    }
}
fn scalar_kind<F: PrimeField>(m: Compress) -> Kind {
    let n = bytes_of(&F::zero(), m).len();
    let rd = move |b: &[u8]| F::deserialize_with_mode(b, m, Validate::Yes);
    let mut off = F::MODULUS.to_bytes_le();
    off.resize(n, 0);
    Kind {
        len: n,
        neg: Box::new(move |b| rd(b).map(|p| bytes_of(&-p, m)).unwrap_or(b.to_vec())),
        inc: Box::new(move |b| rd(b).map(|p| bytes_of(&(p + F::one()), m)).unwrap_or(b.to_vec())),
        zero: bytes_of(&F::zero(), m),
        gen: bytes_of(&F::one(), m),
        off,
    }
}
type Table = HashMap<&'static str, Kind>;
fn table<Y: Cycle, C: Group>(m: Compress, thief: C::Affine) -> Table {
    let g0 = E0::<Y>::generator();
    let g1 = E1::<Y>::generator();
    HashMap::from([
        ("P0", point_kind(m, g0)),
        ("P1", point_kind(m, g1)),
        ("K", point_kind(m, thief)),
        ("S0", scalar_kind::<Y::F0>(m)),
        ("S1", scalar_kind::<Y::F1>(m)),
        ("Q", scalar_kind::<C::ScalarField>(m)),
    ])
}
struct Cursor<'a> {
    b: &'a [u8],
    t: &'a Table,
    out: Vec<Tok>,
}
impl<'a> Cursor<'a> {
    fn take(&mut self, t: &'static str, c: &'static str) -> Option<Vec<u8>> {
        let n = match t {
            "N" | "B" => 8,
            "F" => 1,
            t => self.t[t].len,
        };
        let (x, rest) = (self.b.get(..n)?.to_vec(), self.b.get(n..)?);
        self.b = rest;
        self.out.push(Tok { t, b: x.clone(), c });
        Some(x)
    }
    fn vec(&mut self, t: &'static str, c: &'static str) -> Option<()> {
        let n = u64::from_le_bytes(self.take("N", c)?.try_into().ok()?);
        for _ in 0..n {
            self.take(t, c)?;
        }
        Some(())
    }
    fn proof(&mut self, p: &'static str, s: &'static str, c: &'static str) -> Option<()> {
        for _ in 0..3 {
            self.take(p, c)?;
        }
        if self.take("F", c)?[0] == 1 {
            for _ in 0..3 {
                self.take(p, c)?;
            }
        }
        self.vec(p, c)?;
        for _ in 0..3 {
            self.take(s, c)?;
        }
        self.vec(p, c)?;
        self.vec(p, c)?;
        for _ in 0..2 {
            self.take(s, c)?;
        }
        Some(())
    }
    fn path(&mut self, c: &'static str) -> Option<()> {
        self.take("P0", c)?;
        self.vec("P1", c)?;
        self.vec("P0", c)
    }
    fn kind(&mut self, kind: &str) -> Option<()> {
        match kind {
            "path" => self.path("path0")?,
            "even" => self.proof("P0", "S0", "even")?,
            "odd" => self.proof("P1", "S1", "odd")?,
            _ => {
                if kind == "tx" {
                    for c in ["sig0", "sig0", "sig1", "sig1"] {
                        self.take("Q", c)?;
                    }
                    self.take("B", "len")?;
                }
                self.proof("P0", "S0", "even")?;
                self.proof("P1", "S1", "odd")?;
                self.path("path0")?;
                self.path("path1")?;
                self.take("K", "key0")?;
                self.take("K", "key1")?;
                self.take("P0", "coin0")?;
                self.take("P0", "coin1")?;
            }
        }
        if self.b.is_empty() {
            Some(())
        } else {
            None
        }
    }
}
fn tokens(kind: &str, b: &[u8], t: &Table) -> Option<Vec<Tok>> {
    let mut c = Cursor { b, t, out: vec![] };
    c.kind(kind)?;
    Some(c.out)
}
/// A reproducible world: two coins to spend, two more, owners 0..3 and their signature parameters.
fn setting<Y: Cycle, C: Group>(seed: u64) -> World<Y, C> {
    let rng = &mut ChaCha20Rng::seed_from_u64(seed);
    let sp = Schnorr::<C, blake2::Blake2s256>::setup(rng).unwrap();
    let owners: Vec<_> = (0..4)
        .map(|_| {
            let (pk, sk) = Schnorr::<C, blake2::Blake2s256>::keygen(&sp, rng).unwrap();
            (pk, sk.0)
        })
        .collect();
    let mut w = World::<Y, C> { sp, owners, coins: vec![] };
    for o in [0, 1, 0, 2] {
        let (c, pt) = Coin::<Y::P0, C>::new(1000 + o as u64, &w.owners[o].0, &w.sp, &Y::params().even_parameters, rng);
        let h = w.held(c, pt, o);
        w.coins.push(h);
    }
    w
}
fn pay<const L: usize, Y: Cycle, C: Group>(w: &World<Y, C>, t: &Tree<L, 1, Y>, i: usize, j: usize) -> Result<SignedTx<Y::P0, Y::P1, C>, String> {
    let p = Y::params();
    let total = w.coins[i].coin.value + w.coins[j].coin.value;
    guarded(|| {
        let even = Prover::new(&p.even_parameters.pc_gens, Transcript::new(DOMAIN));
        let odd = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(DOMAIN));
        prove_pour(even, odd, p, t, &w.coins[i].info(i), &w.coins[j].info(j), 7, w.owners[2].0, total - 7, w.owners[0].0, &w.sp, &mut rand::thread_rng())
    })
}
/// Decodes and encodes again: the bytes and the size announced.
fn recode<T: CanonicalDeserialize + CanonicalSerialize>(b: &[u8], m: Compress) -> Result<(Vec<u8>, usize), String> {
    guarded(|| T::deserialize_with_mode(b, m, Validate::Yes)).map_err(|e| format!("panic: {}", e))?.map(|x| (bytes_of(&x, m), x.serialized_size(m))).map_err(|e| format!("refused: {:?}", e))
}
fn recode_kind<const L: usize, Y: Cycle, C: Group>(kind: &str, b: &[u8], m: Compress) -> Result<(Vec<u8>, usize), String> {
    match kind {
        "path" => recode::<SelectAndRerandomizePath<L, Y::P0, Y::P1>>(b, m),
        "even" => recode::<R1CSProof<E0<Y>>>(b, m),
        "odd" => recode::<R1CSProof<E1<Y>>>(b, m),
        "pour" => recode::<Pour<L, Y::P0, Y::P1, C>>(b, m),
        _ => recode::<SignedTx<Y::P0, Y::P1, C>>(b, m),
    }
}
fn mode(i: u64) -> Compress {
    if i == 0 {
        Compress::Yes
    } else {
        Compress::No
    }
}
const SHAPES: [(usize, usize); 6] = [(2, 2), (2, 3), (4, 1), (3, 4), (4, 2), (3, 2)];
fn describe<Y: Cycle, C: Group, const L: usize, const M: usize>(shape: usize, h: usize, seed: u64) -> Vec<Value> {
    let w = setting::<Y, C>(seed);
    let tree = w.tree::<L>(4, h);
    let (mut out, mut bad) = (vec![], vec![]);
    let (a, b) = match (pay::<L, Y, C>(&w, &tree, 0, 1), pay::<L, Y, C>(&w, &tree, 2, 3)) {
        (Ok(a), Ok(b)) => (a, b),
        (Err(e), _) | (_, Err(e)) => return vec![json!({"shape": shape, "bad": [format!("no payment can be made: {}", e)]})],
    };
    if let Err(e) = verdict::<L, Y, C>(&a, &tree, &w.sp, DOMAIN) {
        bad.push(format!("the payment is rejected: {}", e));
    }
    // batched paths are only encoded
    for m in [Compress::Yes, Compress::No] {
        let p = Y::params();
        let mut even: Prover<Transcript, E0<Y>> = Prover::new(&p.even_parameters.pc_gens, Transcript::new(DOMAIN));
        let mut odd: Prover<Transcript, E1<Y>> = Prover::new(&p.odd_parameters.pc_gens, Transcript::new(DOMAIN));
        let set: Vec<E0<Y>> = w.coins.iter().map(|c| c.point).collect();
        let t2 = Tree::<L, 2, Y>::from_set(&set, p, Some(h));
        let path = t2.batched_select_and_rerandomize_prover_gadget([1, 3], &mut even, &mut odd, p, &mut rand::thread_rng()).0;
        let got = bytes_of(&path, m);
        let mut want = vec![];
        path.selected_commitments.iter().for_each(|c| want.extend(bytes_of(c, m)));
        want.extend((path.odd_commitments.len() as u64).to_le_bytes());
        path.odd_commitments.iter().for_each(|c| want.extend(bytes_of(c, m)));
        want.extend((path.even_commitments.len() as u64).to_le_bytes());
        path.even_commitments.iter().for_each(|c| want.extend(bytes_of(c, m)));
        if got != want {
            bad.push("a batched path is not encoded as its selected, odd and even commitments".into());
        }
        if path.serialized_size(m) != got.len() {
            bad.push("the announced size of a batched path differs from the bytes written".into());
        }
    }
    for kind in ["tx", "pour", "path", "even", "odd"] {
        for md in 0..2u64 {
            let m = mode(md);
            let enc = |x: &SignedTx<Y::P0, Y::P1, C>| {
                let pour = Pour::<L, Y::P0, Y::P1, C>::deserialize_compressed(x.pour_bytes.as_slice()).expect("harness: payment");
                match kind {
                    "path" => bytes_of(&pour.randomized_path_0, m),
                    "even" => bytes_of(&pour.even_proof, m),
                    "odd" => bytes_of(&pour.odd_proof, m),
                    "pour" => bytes_of(&pour, m),
                    _ => bytes_of(x, m),
                }
            };
            let (ea, eb) = match guarded(|| (enc(&a), enc(&b))) {
                Ok(x) => x,
                Err(e) => {
                    bad.push(format!("encoding of {}: {}", kind, e));
                    continue;
                }
            };
            let tab = table::<Y, C>(if kind == "tx" { Compress::Yes } else { m }, w.owners[3].0);
            let ta = tokens(kind, &ea, &tab);
            match (&ta, recode_kind::<L, Y, C>(kind, &ea, m)) {
                (None, _) => bad.push(format!("the encoding of a {} does not have the documented layout", kind)),
                (_, Err(e)) => bad.push(format!("the encoding of a {} is not decoded: {}", kind, e)),
                (Some(ta), Ok((again, size))) => {
                    if again != ea {
                        bad.push(format!("decoding and encoding a {} changes it", kind));
                    }
                    if size != ea.len() {
                        bad.push(format!("a {} announces {} bytes and writes {}", kind, size, ea.len()));
                    }
                    let mut classes: HashMap<Vec<u8>, i64> = HashMap::new();
                    let toks: Vec<Value> = ta
                        .iter()
                        .map(|t| {
                            let v = match t.t {
                                "F" => t.b[0] as i64,
                                "N" => u64::from_le_bytes(t.b.clone().try_into().unwrap()) as i64,
                                "B" => 0,
                                _ if t.b == tab[t.t].zero => 0,
                                _ => {
                                    let n = classes.len() as i64 + 1;
                                    *classes.entry(t.b.clone()).or_insert(n)
                                }
                            };
                            json!({"t": t.t, "v": v, "c": t.c})
                        })
                        .collect();
                    out.push(json!({"shape": shape, "seed": seed, "kind": kind, "mode": md, "tokens": toks, "bytes": hex(&ea), "other": hex(&eb), "bad": []}));
                }
            }
        }
    }
    if !bad.is_empty() {
        out.push(json!({"shape": shape, "bad": bad}));
    }
    out
}
fn apply(t: &mut Vec<Tok>, m: &Value, tab: &Table, other: &[Tok]) {
    let i = getu(m, "i");
    let arg = geti(m, "arg");
    match gets(m, "op") {
        "neg" | "negs" => t[i].b = (tab[t[i].t].neg)(&t[i].b),
        "ident" | "zero" => t[i].b = tab[t[i].t].zero.clone(),
        "gen" => t[i].b = tab[t[i].t].gen.clone(),
        "offcurve" | "noncanonical" => t[i].b = tab[t[i].t].off.clone(),
        "inc" => t[i].b = (tab[t[i].t].inc)(&t[i].b),
        "flag" => t[i].b = vec![arg as u8],
        "len" => t[i].b = (if arg == 1000000 { u64::MAX } else { arg as u64 }).to_le_bytes().to_vec(),
        "blen" => t[i].c = if arg == -1 { "-1" } else if arg == 1 { "+1" } else if arg < 0 { "none" } else { "max" },
        "copy" => t[i].b = t[arg as usize].b.clone(),
        "swap" => {
            let b = t[i].b.clone();
            t[i].b = t[arg as usize].b.clone();
            t[arg as usize].b = b;
        }
        "flip" => {
            let n = t[i].b.len();
            t[i].b[(arg as usize / 8).min(n - 1)] ^= 1 << (arg % 8)
        }
        "delete" => {
            t.remove(i);
        }
        "dup" => {
            let x = t[i].clone();
            t.insert(i, x)
        }
        "trunc" => t.truncate(i),
        "cut" => {
            t.truncate(i + 1);
            let n = t[i].b.len();
            t[i].b.truncate(n - 1);
            t[i].t = "X";
        }
        "tail" => t.push(Tok { t: "X", b: vec![0], c: "X" }),
        "other" => {
            for j in i..i + arg as usize {
                t[j].b = other[j].b.clone();
            }
        }
        "exchange" => {
            let j = arg as usize;
            let (ci, cj) = (t[i].c, t[j].c);
            let ai: Vec<usize> = (0..t.len()).filter(|x| t[*x].c == ci).collect();
            let aj: Vec<usize> = (0..t.len()).filter(|x| t[*x].c == cj).collect();
            for (x, y) in ai.into_iter().zip(aj) {
                let b = t[x].b.clone();
                t[x].b = t[y].b.clone();
                t[y].b = b;
            }
        }
        k => panic!("harness: alteration {}", k),
    }
}
fn assemble(t: &[Tok]) -> Vec<u8> {
    let mut out = vec![];
    for (i, x) in t.iter().enumerate() {
        if x.t == "B" {
            let n: usize = t[i + 1..].iter().map(|x| x.b.len()).sum();
            let n = match x.c {
                "-1" => (n as u64).wrapping_sub(1),
                "+1" => n as u64 + 1,
                "none" => 0,
                "max" => u64::MAX,
                _ => n as u64,
            };
            out.extend(n.to_le_bytes());
        } else {
            out.extend(&x.b);
        }
    }
    out
}
fn attempt<Y: Cycle, C: Group, const L: usize, const M: usize>(lay: &Value, m: &Value, verify: bool) -> Vec<String> {
    let shape = SHAPES[getu(lay, "shape")];
    let w = setting::<Y, C>(lay["seed"].as_u64().unwrap());
    let kind = gets(lay, "kind");
    let md = mode(lay["mode"].as_u64().unwrap());
    let tab = table::<Y, C>(if kind == "tx" { Compress::Yes } else { md }, w.owners[3].0);
    let orig = tokens(kind, &unhex(gets(lay, "bytes")), &tab).unwrap();
    let other = tokens(kind, &unhex(gets(lay, "other")), &tab).unwrap_or(orig.clone());
    let mut t = orig.clone();
    for x in geta(m, "muts") {
        if gets(x, "op") == "other" && other.len() != orig.len() {
            return vec![];
        }
        apply(&mut t, x, &tab, &other);
    }
    let signer = gets(m, "signer");
    if signer != "none" && t.len() > 5 && t[4].t == "B" {
        let body: Vec<u8> = t[5..].iter().flat_map(|x| x.b.clone()).collect();
        let zero = C::ScalarField::zero();
        let key = |i: usize| (w.coins[i].sk, w.coins[i].coin.pk_randomness);
        let (k0, k1) = match signer {
            "owners" => (key(0), key(1)),
            "crossed" => (key(1), key(0)),
            "thief" => ((w.owners[3].1, zero), (w.owners[3].1, zero)),
            _ => ((zero, zero), (zero, zero)),
        };
        let touched: Vec<usize> = geta(m, "muts").iter().map(|x| getu(x, "i")).collect();
        for (s, k) in [k0, k1].into_iter().enumerate() {
            // alterations of signatures are left as they are
            let sig = sign_for::<C>(&w.sp, k.0, &k.1, &body);
            for (o, x) in [sig.0, sig.1].iter().enumerate() {
                if !touched.contains(&(2 * s + o)) {
                    t[2 * s + o].b = ser(x);
                }
            }
        }
    }
    let bytes = assemble(&t);
    let mut bad = vec![];
    let mut judge = |what: &str, exp: &str, got: &Result<(Vec<u8>, usize), String>, given: &[u8]| match got {
        Err(e) if e.starts_with("panic") => bad.push(format!("decoding a {}: {}", what, e)),
        Err(e) if exp == "ok" => bad.push(format!("a {} that is one is not decoded: {}", what, e)),
        Ok(_) if exp == "err" => bad.push(format!("bytes that are no {} are decoded", what)),
        Ok((again, size)) if exp == "ok" => {
            if !given.starts_with(again) {
                bad.push(format!("decoding and encoding a {} changes it", what));
            }
            if again.len() != *size {
                bad.push(format!("a {} announces {} bytes and writes {}", what, size, again.len()));
            }
        }
        _ => {}
    };
    let got = recode_kind::<L, Y, C>(kind, &bytes, md);
    judge(kind, if kind == "tx" { gets(m, "dtx") } else { gets(m, "dec") }, &got, &bytes);
    if kind == "tx" && got.is_ok() {
        let tx = SignedTx::<Y::P0, Y::P1, C>::deserialize_with_mode(bytes.as_slice(), md, Validate::Yes).unwrap();
        let pour = recode_kind::<L, Y, C>("pour", &tx.pour_bytes, Compress::Yes);
        judge("payment", gets(m, "dec"), &pour, &tx.pour_bytes);
        if verify && pour.is_ok() {
            let mut tree = w.tree::<L>(4, shape.1);
            let mut sp = w.sp.clone();
            let mut domain = DOMAIN;
            match gets(m, "ctx") {
                "same" | "rebuilt" => {}
                "domain" => domain = b"ledgeR",
                "otherleaf" | "extended" => {
                    let mut set: Vec<E0<Y>> = w.coins.iter().map(|c| c.point).collect();
                    if gets(m, "ctx") == "extended" {
                        set.push(leaf::<Y::P0>(5));
                    } else {
                        set[3] = leaf::<Y::P0>(6);
                    }
                    tree = Tree::<L, 1, Y>::from_set(&set, Y::params(), Some(shape.1));
                }
                "raised" => tree = w.tree::<L>(4, tree.height() + 2),
                "salt" => sp.salt[31] ^= 1,
                "generator" => sp.generator = (C::zero() + sp.generator * C::ScalarField::from(2u64)).into_affine(),
                c => panic!("harness: context {}", c),
            }
            let own = hex(&bytes) == gets(lay, "bytes") && gets(m, "ctx") == "same";
            let r = verdict::<L, Y, C>(&tx, &tree, &sp, domain);
            match (gets(m, "exp"), r) {
                ("accept", Err(e)) => bad.push(format!("an unaltered payment is rejected: {}", e)),
                // alterations may cancel out
                ("reject", Ok(())) if !own => bad.push("an altered payment is accepted".into()),
                _ => {}
            }
        }
    }
    bad
}
macro_rules! shaped {
    ($s:expr, $f:ident ( $($a:expr),* )) => {
        match $s {
            0 => $f::<Pasta, ark_pallas::Projective, 2, 1>($($a),*),
            1 => $f::<Secp, ark_secp256k1::Projective, 2, 1>($($a),*),
            2 => $f::<PastaR, ark_secp256k1::Projective, 4, 1>($($a),*),
            3 => $f::<SecpR, ark_vesta::Projective, 3, 1>($($a),*),
            4 => $f::<Pasta, ark_vesta::Projective, 4, 1>($($a),*),
            _ => $f::<Secp, ark_pallas::Projective, 3, 1>($($a),*),
        }
    };
}
fn params() {
    std::thread::scope(|s| {
        s.spawn(Pasta::params);
        s.spawn(Secp::params);
        s.spawn(PastaR::params);
        s.spawn(SecpR::params);
    });
}
/// `cth tx-layout <seed> <number of shapes> <out>`
pub fn layout(seed: &str, n: &str, output: &str) {
    params();
    let seed: u64 = seed.parse().unwrap();
    let n: usize = n.parse().unwrap();
    let shapes: Vec<usize> = (0..SHAPES.len()).take(n).collect();
    let out = pmap(&shapes, |_, s| guarded(|| shaped!(*s, describe(*s, SHAPES[*s].1, seed * 100 + *s as u64))).unwrap_or_else(|e| vec![json!({"shape": s, "bad": [format!("panic: {}", e)]})]));
    write_lines(output, &out.into_iter().flatten().collect::<Vec<_>>());
}
/// `cth tx <layouts> <alterations> <out> <0|1: verify>`
pub fn main(layouts: &str, input: &str, output: &str, verify: &str) {
    params();
    let lays = read_lines(layouts);
    let out = pmap(&read_lines(input), |i, m| {
        let lay = &lays[getu(m, "k")];
        let bad = guarded(|| shaped!(getu(lay, "shape"), attempt(lay, m, verify == "1"))).unwrap_or_else(|e| vec![format!("panic: {}", e)]);
        json!({"i": i, "bad": bad})
    });
    write_lines(output, &out.into_iter().filter(|x| x["bad"] != json!([])).collect::<Vec<_>>());
}
