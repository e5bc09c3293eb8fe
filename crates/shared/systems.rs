//! The five proof systems behind one interface, with the relations they are stated for (the reference).
use aeonflux::proofs::*;
use curve25519_dalek::ristretto::RistrettoPoint;
use curve25519_dalek::scalar::Scalar;
use curve25519_dalek::traits::Identity;
use merlin::Transcript;

pub struct Rel { pub lhs: usize, pub terms: &'static [(usize, usize)] } // (secret, public)
pub struct System {
    pub name: &'static str,
    pub pubs: &'static [&'static str],
    pub secs: &'static [&'static str],
    pub rels: &'static [Rel],
    /// the publics that are bases (never on the left of a relation)
    pub a: usize, pub b: usize,
}
pub static SYSTEMS: [System; 5] = [
    System { name: "issuance_revealed", pubs: &["P", "Q", "Cx0", "B", "A", "X1"], secs: &["x0", "x1", "x0_tilde", "m1x1"], b: 3, a: 4,
        rels: &[Rel { lhs: 1, terms: &[(0, 0), (3, 0)] }, Rel { lhs: 2, terms: &[(0, 3), (2, 4)] }, Rel { lhs: 5, terms: &[(1, 4)] } ] },
    System { name: "attributes_blinded", pubs: &["B", "A", "D", "E0", "E1"], secs: &["d", "e0", "m0", "nonce"], b: 0, a: 1,
        rels: &[Rel { lhs: 2, terms: &[(0, 0)] }, Rel { lhs: 3, terms: &[(1, 0)] }, Rel { lhs: 4, terms: &[(2, 0), (1, 2)] }] },
    System { name: "issuance_blinded", pubs: &["B", "A", "X0", "X1", "D", "P", "T0_0", "T0_1", "EQ_c", "EQ_e", "E0", "E1"],
        secs: &["x0_tilde", "x0", "x1", "s", "b", "t0"], b: 0, a: 1,
        rels: &[Rel { lhs: 2, terms: &[(1, 0), (0, 1)] }, Rel { lhs: 3, terms: &[(2, 1)] }, Rel { lhs: 5, terms: &[(4, 0)] },
                Rel { lhs: 6, terms: &[(4, 2)] }, Rel { lhs: 7, terms: &[(5, 1)] }, Rel { lhs: 8, terms: &[(3, 0), (5, 10)] },
                Rel { lhs: 9, terms: &[(3, 4), (5, 11)] }] },
    System { name: "valid_credential", pubs: &["B", "A", "X0", "P", "V", "Cm0"], secs: &["m0", "z0", "minus_zQ"], b: 0, a: 1,
        rels: &[Rel { lhs: 5, terms: &[(0, 3), (1, 1)] }, Rel { lhs: 4, terms: &[(1, 2), (2, 1)] }] },
    System { name: "committed_values_equal", pubs: &["B", "A", "P", "Cm0", "Cm1"], secs: &["m0", "z0", "z1"], b: 0, a: 1,
        rels: &[Rel { lhs: 3, terms: &[(0, 2), (1, 1)] }, Rel { lhs: 4, terms: &[(0, 1), (2, 0)] }] },
];
impl System {
    pub fn is_lhs(&self, i: usize) -> bool { self.rels.iter().any(|r| r.lhs == i) }
    /// Fill in the left-hand sides for a witness.
    pub fn complete(&self, pubs: &mut Vec<RistrettoPoint>, w: &[Scalar]) {
        for r in self.rels.iter() {
            pubs[r.lhs] = r.terms.iter().fold(RistrettoPoint::identity(), |a, t| a + w[t.0] * pubs[t.1]);
        }
    }
    pub fn holds(&self, pubs: &[RistrettoPoint], w: &[Scalar]) -> bool {
        self.rels.iter().all(|r| pubs[r.lhs] == r.terms.iter().fold(RistrettoPoint::identity(), |a, t| a + w[t.0] * pubs[t.1]))
    }
    /// First messages as recomputed from a challenge and responses.
    pub fn firsts(&self, pubs: &[RistrettoPoint], c: Scalar, r: &[Scalar]) -> Vec<RistrettoPoint> {
        self.rels.iter().map(|q| q.terms.iter().fold(RistrettoPoint::identity(), |a, t| a + r[t.0] * pubs[t.1]) - c * pubs[q.lhs]).collect()
    }
}
pub fn encode(c: Scalar, r: &[Scalar]) -> Vec<u8> {
    let mut v = Vec::with_capacity(40 * (r.len() + 1));
    for s in std::iter::once(&c).chain(r.iter()) {
        v.extend_from_slice(&[32, 0, 0, 0, 0, 0, 0, 0]);
        v.extend_from_slice(&s.to_bytes());
    }
    v
}
/// (challenge, responses) of an encoded proof.
pub fn decode(p: &[u8]) -> (Scalar, Vec<Scalar>) {
    let mut all: Vec<Scalar> = p.chunks(40).map(|k| { let mut t = [0u8; 32]; t.copy_from_slice(&k[8..]); Scalar::from_canonical_bytes(t).unwrap() }).collect();
    let c = all.remove(0);
    (c, all)
}
fn ser<T: serde::Serialize>(p: &T) -> Vec<u8> { bincode::serialize(p).unwrap() }

pub fn create(k: usize, t: &mut Transcript, p: &[RistrettoPoint], s: &[Scalar]) -> Vec<u8> {
    match k {
        0 => ser(&issuance_revealed::Proof::create(t, pub0(p), issuance_revealed::Secrets { x0: &s[0], x1: &s[1], x0_tilde: &s[2], m1x1: &s[3] })),
        1 => ser(&attributes_blinded::Proof::create(t, pub1(p), attributes_blinded::Secrets { d: &s[0], e0: &s[1], m0: &s[2], nonce: &s[3] })),
        2 => ser(&issuance_blinded::Proof::create(t, pub2(p), issuance_blinded::Secrets { x0_tilde: &s[0], x0: &s[1], x1: &s[2], s: &s[3], b: &s[4], t0: &s[5] })),
        3 => ser(&valid_credential::Proof::create(t, pub3(p), valid_credential::Secrets { m0: &s[0], z0: &s[1], minus_zQ: &s[2] })),
        _ => ser(&committed_values_equal::Proof::create(t, pub4(p), committed_values_equal::Secrets { m0: &s[0], z0: &s[1], z1: &s[2] })),
    }
}
pub fn verify(k: usize, t: &mut Transcript, p: &[RistrettoPoint], proof: &[u8]) -> bool {
    match k {
        0 => bincode::deserialize::<issuance_revealed::Proof>(proof).unwrap().verify(t, pub0(p)).is_ok(),
        1 => bincode::deserialize::<attributes_blinded::Proof>(proof).unwrap().verify(t, pub1(p)).is_ok(),
        2 => bincode::deserialize::<issuance_blinded::Proof>(proof).unwrap().verify(t, pub2(p)).is_ok(),
        3 => bincode::deserialize::<valid_credential::Proof>(proof).unwrap().verify(t, pub3(p)).is_ok(),
        _ => bincode::deserialize::<committed_values_equal::Proof>(proof).unwrap().verify(t, pub4(p)).is_ok(),
    }
}
fn pub0(p: &[RistrettoPoint]) -> issuance_revealed::Publics { issuance_revealed::Publics { P: &p[0], Q: &p[1], Cx0: &p[2], B: &p[3], A: &p[4], X1: &p[5] } }
fn pub1(p: &[RistrettoPoint]) -> attributes_blinded::Publics {
    attributes_blinded::Publics { B: &p[0], A: &p[1], D: &p[2], encrypted_attribute_0_0: &p[3], encrypted_attribute_0_1: &p[4] }
}
fn pub2(p: &[RistrettoPoint]) -> issuance_blinded::Publics {
    issuance_blinded::Publics { B: &p[0], A: &p[1], X0: &p[2], X1: &p[3], D: &p[4], P: &p[5], T0_0: &p[6], T0_1: &p[7],
        EQ_commitment: &p[8], EQ_encryption: &p[9], encrypted_attribute_0_0: &p[10], encrypted_attribute_0_1: &p[11] }
}
fn pub3(p: &[RistrettoPoint]) -> valid_credential::Publics { valid_credential::Publics { B: &p[0], A: &p[1], X0: &p[2], P: &p[3], V: &p[4], Cm0: &p[5] } }
fn pub4(p: &[RistrettoPoint]) -> committed_values_equal::Publics { committed_values_equal::Publics { B: &p[0], A: &p[1], P: &p[2], Cm0: &p[3], Cm1: &p[4] } }
