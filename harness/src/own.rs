//! A prover written from the protocol description, independent of the library's prover, which can
//! deviate: any commitment may carry components along the second generator vector, and gates need
//! not hold.  It takes the degree of every commitment as input.
#![allow(non_snake_case)]
use ark_ec::{AffineRepr, CurveGroup, VariableBaseMSM};
use ark_ff::{Field, One, UniformRand, Zero};
use ark_serialize::CanonicalSerialize;
use bulletproofs::{BulletproofGens, PedersenGens};
use merlin::Transcript;
use sha3::{Digest, Sha3_256};

pub fn challenge<C: AffineRepr>(t: &mut Transcript, label: &'static [u8]) -> C::ScalarField {
    let mut bytes = [0u8; 64];
    t.challenge_bytes(label, &mut bytes);
    scalar_of_challenge::<C>(&bytes)
}
pub fn scalar_of_challenge<C: AffineRepr>(bytes: &[u8]) -> C::ScalarField {
    for i in 0..=u8::MAX {
        let mut sha = Sha3_256::new();
        sha.update(bytes);
        sha.update([i]);
        if let Some(s) = C::ScalarField::from_random_bytes(sha.finalize().as_slice()) {
            return s;
        }
    }
    panic!()
}
fn absorb<T: CanonicalSerialize>(t: &mut Transcript, label: &'static [u8], p: &T) {
    t.append_message(label, &crate::util::ser(p));
}
fn msm<C: AffineRepr>(ps: &[C], ss: &[C::ScalarField]) -> C {
    C::Group::msm_unchecked(ps, ss).into_affine()
}

/// A vector commitment with components g along G, h along H and blinding b.
#[derive(Clone)]
pub struct VC<F> {
    pub g: Vec<F>,
    pub h: Vec<F>,
    pub b: F,
    pub deg: usize,
}
impl<F: Field> VC<F> {
    pub fn point<C: AffineRepr<ScalarField = F>>(&self, pc: &PedersenGens<C>, bp: &BulletproofGens<C>) -> C {
        let s = bp.share(0);
        let mut ps = vec![pc.B_blinding];
        let mut ss = vec![self.b];
        ps.extend(s.G(self.g.len()).copied());
        ss.extend(&self.g);
        ps.extend(s.hook_H(self.h.len()).copied());
        ss.extend(&self.h);
        msm(&ps, &ss)
    }
}
/// Public weights of the flattened constraints, as functions of z, per wire.
pub struct Weights<F> {
    pub wl: Vec<F>,
    pub wr: Vec<F>,
    pub wo: Vec<F>,
    pub wc: Vec<Vec<F>>,
}
pub const T_LABELS: [&[u8]; 80] = [
    b"T_0", b"T_1", b"T_2", b"T_3", b"T_4", b"T_5", b"T_6", b"T_7", b"T_8", b"T_9", b"T_10", b"T_11", b"T_12",
    b"T_13", b"T_14", b"T_15", b"T_16", b"T_17", b"T_18", b"T_19", b"T_20", b"T_21", b"T_22", b"T_23", b"T_24",
    b"T_25", b"T_26", b"T_27", b"T_28", b"T_29", b"T_30", b"T_31", b"T_32", b"T_33", b"T_34", b"T_35", b"T_36",
    b"T_37", b"T_38", b"T_39", b"T_40", b"T_41", b"T_42", b"T_43", b"T_44", b"T_45", b"T_46", b"T_47", b"T_48",
    b"T_49", b"T_50", b"T_51", b"T_52", b"T_53", b"T_54", b"T_55", b"T_56", b"T_57", b"T_58", b"T_59", b"T_60",
    b"T_61", b"T_62", b"T_63", b"T_64", b"T_65", b"T_66", b"T_67", b"T_68", b"T_69", b"T_70", b"T_71", b"T_72",
    b"T_73", b"T_74", b"T_75", b"T_76", b"T_77", b"T_78", b"T_79",
];

/// One-phase proof over vector commitments only (no scalar commitments).  `t` must have absorbed the
/// domain separator and the commitments.  Returns the encoded proof.
pub fn prove<C: AffineRepr>(
    mut t: Transcript,
    pc: &PedersenGens<C>,
    bp: &BulletproofGens<C>,
    n: usize,
    op_degree: usize,
    ai: &VC<C::ScalarField>,
    ao: &VC<C::ScalarField>,
    comms: &[VC<C::ScalarField>],
    weights: impl Fn(C::ScalarField) -> Weights<C::ScalarField>,
) -> Vec<u8> {
    type S<C> = <C as AffineRepr>::ScalarField;
    let mut rng = rand::thread_rng();
    let z0 = S::<C>::zero();
    t.append_u64(b"m", 0);
    let s = VC::<S<C>> {
        g: (0..n).map(|_| S::<C>::rand(&mut rng)).collect(),
        h: (0..n).map(|_| S::<C>::rand(&mut rng)).collect(),
        b: S::<C>::rand(&mut rng),
        deg: op_degree + 1,
    };
    let (pa, po, psn) = (ai.point(pc, bp), ao.point(pc, bp), s.point(pc, bp));
    absorb(&mut t, b"A_I1", &pa);
    absorb(&mut t, b"A_O1", &po);
    absorb(&mut t, b"S1", &psn);
    t.append_message(b"dom-sep", b"r1cs-1phase");
    for l in [b"A_I2" as &'static [u8], b"A_O2", b"S2"] {
        absorb(&mut t, l, &C::zero());
    }
    let y = challenge::<C>(&mut t, b"y");
    let z = challenge::<C>(&mut t, b"z");
    let w = weights(z);
    let padded = n.next_power_of_two();
    let yi = y.inverse().unwrap();
    let pow = |b: S<C>, k: usize| b.pow([k as u64]);
    let dmax = op_degree + 1;
    let mut l = vec![vec![z0; padded]; dmax + 1];
    let mut r = vec![vec![z0; padded]; dmax + 1];
    for c in comms.iter().chain([ai, ao, &s]) {
        for (i, v) in c.g.iter().enumerate() {
            l[c.deg][i] += v;
        }
        for (i, v) in c.h.iter().enumerate() {
            r[c.deg][i] += *v * pow(y, i);
        }
    }
    for i in 0..n {
        l[ai.deg][i] += w.wr[i] * pow(yi, i);
        r[op_degree - ai.deg][i] += w.wl[i];
        r[op_degree - ao.deg][i] += w.wo[i];
        for (j, c) in comms.iter().enumerate() {
            if i < w.wc[j].len() {
                r[op_degree - c.deg][i] += w.wc[j][i];
            }
        }
    }
    for i in 0..padded {
        r[0][i] -= pow(y, i);
    }
    let tdeg = 2 * dmax;
    let mut tp = vec![z0; tdeg + 1];
    for (a, la) in l.iter().enumerate() {
        for (b, rb) in r.iter().enumerate() {
            for i in 0..padded {
                tp[a + b] += la[i] * rb[i];
            }
        }
    }
    let mut tb: Vec<S<C>> = (0..=tdeg).map(|_| S::<C>::rand(&mut rng)).collect();
    tb[op_degree] = z0;
    let mut T = vec![C::zero(); tdeg + 1];
    for d in 0..=tdeg {
        if d != op_degree {
            T[d] = msm(&[pc.B, pc.B_blinding], &[tp[d], tb[d]]);
            absorb(&mut t, T_LABELS[d], &T[d]);
        }
    }
    let u = challenge::<C>(&mut t, b"u");
    let x = challenge::<C>(&mut t, b"x");
    let ev = |p: &[S<C>]| p.iter().rev().fold(z0, |acc, c| acc * x + c);
    let t_x = ev(&tp);
    let t_xb = ev(&tb);
    let mut e_b = z0;
    for c in comms.iter().chain([ai, ao, &s]) {
        e_b += c.b * pow(x, c.deg);
    }
    absorb(&mut t, b"t_x", &t_x);
    absorb(&mut t, b"t_x_blinding", &t_xb);
    absorb(&mut t, b"e_blinding", &e_b);
    let w_ = challenge::<C>(&mut t, b"w");
    let Q = pc.B.mul_bigint(ark_ff::PrimeField::into_bigint(w_)).into_affine();
    let mut a: Vec<S<C>> = (0..padded).map(|i| ev(&l.iter().map(|c| c[i]).collect::<Vec<_>>())).collect();
    let mut b: Vec<S<C>> = (0..padded).map(|i| ev(&r.iter().map(|c| c[i]).collect::<Vec<_>>())).collect();
    let sh = bp.share(0);
    let f = |i: usize| if i < n { S::<C>::one() } else { u };
    let mut G: Vec<C> = sh.G(padded).enumerate().map(|(i, g)| msm(&[*g], &[f(i)])).collect();
    let mut H: Vec<C> = sh.hook_H(padded).enumerate().map(|(i, h)| msm(&[*h], &[f(i) * pow(yi, i)])).collect();
    t.append_message(b"dom-sep", b"ipp v1");
    t.append_u64(b"n", padded as u64);
    let (mut lv, mut rv) = (vec![], vec![]);
    let mut m = padded;
    while m > 1 {
        m /= 2;
        let cl: S<C> = (0..m).map(|i| a[i] * b[m + i]).sum();
        let cr: S<C> = (0..m).map(|i| a[m + i] * b[i]).sum();
        let mut ps: Vec<C> = G[m..2 * m].to_vec();
        ps.extend(&H[..m]);
        ps.push(Q);
        let mut ss: Vec<S<C>> = a[..m].to_vec();
        ss.extend(&b[m..2 * m]);
        ss.push(cl);
        let L = msm(&ps, &ss);
        let mut ps: Vec<C> = G[..m].to_vec();
        ps.extend(&H[m..2 * m]);
        ps.push(Q);
        let mut ss: Vec<S<C>> = a[m..2 * m].to_vec();
        ss.extend(&b[..m]);
        ss.push(cr);
        let R = msm(&ps, &ss);
        absorb(&mut t, b"L", &L);
        absorb(&mut t, b"R", &R);
        lv.push(L);
        rv.push(R);
        let c = challenge::<C>(&mut t, b"u");
        let ci = c.inverse().unwrap();
        for i in 0..m {
            a[i] = a[i] * c + a[m + i] * ci;
            b[i] = b[i] * ci + b[m + i] * c;
            G[i] = msm(&[G[i], G[m + i]], &[ci, c]);
            H[i] = msm(&[H[i], H[m + i]], &[c, ci]);
        }
    }
    let mut out = vec![];
    for p in [&pa, &po, &psn] {
        p.serialize_compressed(&mut out).unwrap();
    }
    out.push(0u8);
    T.serialize_compressed(&mut out).unwrap();
    for v in [&t_x, &t_xb, &e_b] {
        v.serialize_compressed(&mut out).unwrap();
    }
    lv.serialize_compressed(&mut out).unwrap();
    rv.serialize_compressed(&mut out).unwrap();
    a[0].serialize_compressed(&mut out).unwrap();
    b[0].serialize_compressed(&mut out).unwrap();
    out
}
