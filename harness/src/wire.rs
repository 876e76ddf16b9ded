//! Altered proof encodings (`ProofWire.tla`).
use crate::r1cs::*;
use crate::util::*;
use ark_ec::AffineRepr;
use ark_ff::{One, PrimeField, Zero};
use ark_serialize::{CanonicalDeserialize, CanonicalSerialize, Compress};
use bulletproofs::r1cs::*;
use bulletproofs::{BulletproofGens, PedersenGens};
use serde_json::{json, Value};
use std::collections::HashMap;

type A = ark_pallas::Affine;
type F = ark_pallas::Fr;
#[derive(Clone)]
pub struct Tok {
    pub t: char,
    pub b: Vec<u8>,
}
fn point_len() -> usize {
    A::zero().serialized_size(Compress::Yes)
}
fn scalar_len() -> usize {
    F::zero().serialized_size(Compress::Yes)
}
/// Cuts the encoding of a proof into its tokens, following the documented order.
fn tokens(b: &[u8]) -> Option<Vec<Tok>> {
    tokens_of(b, point_len(), scalar_len())
}
pub fn tokens_of(b: &[u8], p: usize, s: usize) -> Option<Vec<Tok>> {
    let mut out = vec![];
    let mut pos = 0;
    let mut take = |t: char, n: usize, out: &mut Vec<Tok>| -> Option<Vec<u8>> {
        let x = b.get(pos..pos + n)?.to_vec();
        pos += n;
        out.push(Tok { t, b: x.clone() });
        Some(x)
    };
    for _ in 0..3 {
        take('P', p, &mut out)?;
    }
    let f = take('F', 1, &mut out)?;
    if f[0] == 1 {
        for _ in 0..3 {
            take('P', p, &mut out)?;
        }
    }
    for part in 0..3 {
        if part == 1 {
            for _ in 0..3 {
                take('S', s, &mut out)?;
            }
        }
        let n = take('N', 8, &mut out)?;
        let n = u64::from_le_bytes(n.try_into().unwrap());
        for _ in 0..n {
            take('P', p, &mut out)?;
        }
    }
    for _ in 0..2 {
        take('S', s, &mut out)?;
    }
    if pos != b.len() {
        return None;
    }
    Some(out)
}
fn shape(prog: &[Value]) -> usize {
    getu(&prog.last().unwrap()["exp"], "padded")
}
/// `cth wire-layout <sessions> <out>`: makes a proof per session and describes its encoding.
pub fn layout(input: &str, output: &str) {
    let pc = PedersenGens::<A>::default();
    let bp = BulletproofGens::<A>::new(64, 1);
    let mut out = vec![];
    for prog in read_lines(input) {
        let p = prog.as_array().unwrap();
        let ps = run_prover(p, &pc, &bp, label(""), false);
        let proof = match guarded(|| ps.p.prove(&bp)) {
            Ok(Ok(p)) => p,
            _ => continue,
        };
        let bytes = proof.to_bytes();
        let toks = match tokens(&bytes) {
            Some(t) => t,
            None => {
                out.push(json!({"unreadable": hex(&bytes)}));
                continue;
            }
        };
        let (zp, zs) = (ser(&A::zero()), ser(&F::zero()));
        let mut classes: HashMap<Vec<u8>, i64> = HashMap::new();
        let tv: Vec<Value> = toks
            .iter()
            .map(|t| {
                let v = match t.t {
                    'F' => t.b[0] as i64,
                    'N' => u64::from_le_bytes(t.b.clone().try_into().unwrap()) as i64,
                    _ if (t.t == 'P' && t.b == zp) || (t.t == 'S' && t.b == zs) => 0,
                    _ => {
                        let n = classes.len() as i64 + 1;
                        *classes.entry(t.b.clone()).or_insert(n)
                    }
                };
                json!({"t": t.t.to_string(), "v": v})
            })
            .collect();
        // round trips, in both encodings
        let mut bad = vec![];
        match guarded(|| R1CSProof::<A>::from_bytes(&bytes)) {
            Ok(Ok(q)) => {
                if q.to_bytes() != bytes {
                    bad.push("decoding and encoding changes the bytes".to_string());
                }
                if q.serialized_size(Compress::Yes) != bytes.len() {
                    bad.push("announced size differs from the bytes written".into());
                }
            }
            r => bad.push(format!("own encoding is not decoded: {:?}", r.map(|x| x.is_ok()))),
        }
        let mut u = vec![];
        proof.serialize_uncompressed(&mut u).unwrap();
        if u.len() != proof.serialized_size(Compress::No) {
            bad.push("announced uncompressed size differs from the bytes written".into());
        }
        match guarded(|| R1CSProof::<A>::deserialize_uncompressed(&u[..])) {
            Ok(Ok(q)) => {
                if q.to_bytes() != bytes {
                    bad.push("uncompressed round trip changes the proof".into());
                }
            }
            r => bad.push(format!("own uncompressed encoding is not decoded: {:?}", r.map(|x| x.is_ok()))),
        }
        out.push(json!({"tokens": tv, "proof": hex(&bytes), "comms": ps.comms.iter().map(|c| hex(&ser(c))).collect::<Vec<_>>(),
            "openings": ps.openings.iter().map(|(v, _)| v.clone()).collect::<Vec<_>>(), "prog": prog, "bad": bad, "padded": shape(p)}));
    }
    write_lines(output, &out);
}
fn unhex(s: &str) -> Vec<u8> {
    (0..s.len() / 2).map(|i| u8::from_str_radix(&s[2 * i..2 * i + 2], 16).unwrap()).collect()
}
fn off_curve() -> Vec<u8> {
    for i in 1u64.. {
        let mut b = vec![0u8; point_len()];
        b[..8].copy_from_slice(&i.to_le_bytes());
        if A::deserialize_compressed(&b[..]).is_err() {
            return b;
        }
    }
    unreachable!()
}
fn apply(t: &mut Vec<Tok>, m: &Value) {
    let i = getu(m, "i");
    let arg = geti(m, "arg");
    let count = |x: &Tok| u64::from_le_bytes(x.b.clone().try_into().unwrap()) as usize;
    let set_count = |x: &mut Tok, n: u64| x.b = n.to_le_bytes().to_vec();
    let gen = Tok { t: 'P', b: ser(&PedersenGens::<A>::default().B) };
    let grow = |t: &mut Vec<Tok>, i: usize| {
        let n = count(&t[i]);
        let x = if n == 0 { gen.clone() } else { t[i + n].clone() };
        set_count(&mut t[i], n as u64 + 1);
        t.insert(i + n + 1, x);
    };
    let shrink = |t: &mut Vec<Tok>, i: usize| {
        let n = count(&t[i]);
        set_count(&mut t[i], n as u64 - 1);
        t.remove(i + n);
    };
    match gets(m, "op") {
        "neg" => {
            if let Ok(p) = A::deserialize_compressed(&t[i].b[..]) {
                t[i].b = ser(&-p)
            }
        }
        "ident" => t[i].b = ser(&A::zero()),
        "gen" => t[i].b = gen.b.clone(),
        "offcurve" => t[i].b = off_curve(),
        "inc" => {
            if let Ok(s) = F::deserialize_compressed(&t[i].b[..]) {
                t[i].b = ser(&(s + F::one()))
            }
        }
        "zero" => t[i].b = ser(&F::zero()),
        "noncanonical" => {
            // the modulus itself
            let mut b = vec![];
            F::MODULUS.serialize_compressed(&mut b).unwrap();
            b.resize(scalar_len(), 0);
            t[i].b = b
        }
        "flip" => {
            let n = t[i].b.len();
            t[i].b[(arg as usize / 8).min(n - 1)] ^= 1 << (arg % 8)
        }
        "flag" => t[i].b = vec![arg as u8],
        "len" => {
            let v = if arg == 1000000 { u64::MAX } else { arg as u64 };
            set_count(&mut t[i], v)
        }
        "copy" => t[i].b = t[arg as usize].b.clone(),
        "swap" => t.swap(i, i + 1),
        "delete" => {
            t.remove(i);
        }
        "dup" => {
            let x = t[i].clone();
            t.insert(i, x)
        }
        "trunc" => t.truncate(i),
        "cut" => {
            t.truncate(i + 1);
            let n = t[i].b.len();
            t[i].b.truncate(n - 1);
            t[i].t = 'X';
        }
        "tail" => t.push(Tok { t: 'X', b: vec![0] }),
        "grow" => grow(t, i),
        "shrink" => shrink(t, i),
        "empty" => {
            let n = count(&t[i]);
            set_count(&mut t[i], 0);
            t.drain(i + 1..i + 1 + n);
        }
        "grow2" => {
            grow(t, arg as usize);
            grow(t, i)
        }
        "shrink2" => {
            shrink(t, arg as usize);
            shrink(t, i)
        }
        "flag1" => {
            t[i].b = vec![1];
            for _ in 0..3 {
                t.insert(i + 1, Tok { t: 'P', b: ser(&A::zero()) })
            }
        }
        "flag0" => {
            t[i].b = vec![0];
            t.drain(i + 1..i + 4);
        }
        k => panic!("harness: mutation {}", k),
    }
}
/// `cth wire <layouts> <mutations> <out>`
pub fn replay(layouts: &str, input: &str, output: &str) {
    let pc = PedersenGens::<A>::default();
    let bp = BulletproofGens::<A>::new(64, 1);
    let lays = read_lines(layouts);
    let muts = read_lines(input);
    let base: Vec<(Vec<Tok>, Vec<A>, Vec<(Vec<i64>, F)>)> = lays
        .iter()
        .map(|l| {
            let comms = geta(l, "comms").iter().map(|c| A::deserialize_compressed(&unhex(c.as_str().unwrap())[..]).unwrap()).collect();
            let openings = geta(l, "openings").iter().map(|o| (o.as_array().unwrap().iter().map(|x| x.as_i64().unwrap()).collect(), F::zero())).collect();
            (tokens(&unhex(gets(l, "proof"))).unwrap(), comms, openings)
        })
        .collect();
    let res = pmap(&muts, |i, m| {
        let k = getu(m, "k");
        let mut t = base[k].0.clone();
        for x in geta(m, "muts") {
            apply(&mut t, x)
        }
        let bytes: Vec<u8> = t.iter().flat_map(|x| x.b.clone()).collect();
        let prog = geta(&lays[k], "prog");
        let d = guarded(|| R1CSProof::<A>::from_bytes(&bytes));
        let verdict = match &d {
            Err(e) => format!("decoding panics: {}", e),
            Ok(Err(_)) => "refused".to_string(),
            Ok(Ok(p)) => {
                let r = guarded(|| run_verifier(prog, &base[k].1, &base[k].2, &pc, &bp, label("")).v.verify(p, &pc, &bp));
                let back = hex(&p.to_bytes()) == gets(&lays[k], "proof");
                match r {
                    Err(e) => format!("verification panics: {}", e),
                    Ok(Err(_)) => "refused".into(),
                    Ok(Ok(())) => if back { "same".into() } else { "accepted".to_string() },
                }
            }
        };
        // a sequence that denotes the original proof may be accepted or refused as an encoding
        let exp = gets(m, "exp");
        // alterations of values can cancel out: the same bytes are the same proof
        let own = hex(&bytes) == gets(&lays[k], "proof");
        let fine = if own { verdict == "same" } else { verdict == "refused" || (exp == "same" && verdict == "same") };
        (i, verdict, fine)
    });
    let out: Vec<Value> = res.into_iter().filter(|r| !r.2).map(|(i, v, _)| json!({"i": i, "verdict": v})).collect();
    write_lines(output, &out);
}
