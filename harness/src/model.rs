//! An independent executable model of the parts of the Zcash protocol specification (NU5,
//! ZIP 32, ZIP 212, ZIP 244) that the `orchard` crate implements.
//!
//! Written from the specification on top of field, curve, BLAKE2b, AES and ChaCha20-Poly1305
//! primitives only: no item of the `orchard` crate is used anywhere in this file.

use aes::Aes256;
use blake2b_simd::Params;
use chacha20poly1305::{aead::AeadInPlace, ChaCha20Poly1305, KeyInit};
use ff::{Field, FromUniformBytes, PrimeField};
use fpe::ff1::{BinaryNumeralString, FF1};
use group::{Curve, Group, GroupEncoding};
use halo2_gadgets::poseidon::primitives as poseidon;
use pasta_curves::arithmetic::{CurveAffine, CurveExt};
use pasta_curves::pallas;
use std::collections::BTreeMap;
use std::sync::OnceLock;

pub type Base = pallas::Base;
pub type Scalar = pallas::Scalar;
pub type Point = pallas::Point;

pub const DEPTH: usize = 32;

// ---------------------------------------------------------------- hashes

pub fn blake2b_512(personal: &[u8; 16], parts: &[&[u8]]) -> [u8; 64] {
    let mut st = Params::new().hash_length(64).personal(personal).to_state();
    for p in parts {
        st.update(p);
    }
    st.finalize().as_bytes().try_into().unwrap()
}

pub fn blake2b_256(personal: &[u8; 16], parts: &[&[u8]]) -> [u8; 32] {
    let mut st = Params::new().hash_length(32).personal(personal).to_state();
    for p in parts {
        st.update(p);
    }
    st.finalize().as_bytes().try_into().unwrap()
}

/// PRF^expand_sk(t) with the leading domain byte(s) as part of `parts`.
pub fn prf_expand(sk: &[u8; 32], parts: &[&[u8]]) -> [u8; 64] {
    let mut all: Vec<&[u8]> = vec![&sk[..]];
    all.extend_from_slice(parts);
    blake2b_512(b"Zcash_ExpandSeed", &all)
}

pub fn to_base(x: [u8; 64]) -> Base {
    Base::from_uniform_bytes(&x)
}

pub fn to_scalar(x: [u8; 64]) -> Scalar {
    Scalar::from_uniform_bytes(&x)
}

pub fn base_to_scalar(x: &Base) -> Scalar {
    // q_P < r_P for Pallas, so the integer is always in range.
    Scalar::from_repr(x.to_repr()).unwrap()
}

pub fn group_hash(d: &str, m: &[u8]) -> Point {
    Point::hash_to_curve(d)(m)
}

pub fn extract_p(p: &Point) -> Base {
    if bool::from(p.is_identity()) {
        Base::ZERO
    } else {
        *p.to_affine().coordinates().unwrap().x()
    }
}

/// The affine coordinates, (0, 0) for the identity.
pub fn coords(p: &Point) -> (Base, Base) {
    if bool::from(p.is_identity()) {
        (Base::ZERO, Base::ZERO)
    } else {
        let c = p.to_affine().coordinates().unwrap();
        (*c.x(), *c.y())
    }
}

pub fn poseidon_hash(x: Base, y: Base) -> Base {
    poseidon::Hash::<_, poseidon::P128Pow5T3, poseidon::ConstantLength<2>, 3, 2>::init().hash([x, y])
}

// ---------------------------------------------------------------- Sinsemilla

fn s_table() -> &'static Vec<Point> {
    static T: OnceLock<Vec<Point>> = OnceLock::new();
    T.get_or_init(|| {
        let h = Point::hash_to_curve("z.cash:SinsemillaS");
        (0u32..1024).map(|j| h(&j.to_le_bytes())).collect()
    })
}

fn cached_point(d: &'static str, m: &[u8]) -> Point {
    static C: OnceLock<std::sync::Mutex<BTreeMap<(String, Vec<u8>), Point>>> = OnceLock::new();
    let c = C.get_or_init(Default::default);
    let key = (d.to_string(), m.to_vec());
    if let Some(p) = c.lock().unwrap().get(&key) {
        return *p;
    }
    let p = group_hash(d, m);
    c.lock().unwrap().insert(key, p);
    p
}

/// SinsemillaHashToPoint, `None` for ⊥ (an exceptional case of incomplete addition).
pub fn sinsemilla_to_point(domain: &str, bits: &[bool]) -> Option<Point> {
    let table = s_table();
    let mut acc = cached_point("z.cash:SinsemillaQ", domain.as_bytes());
    let inc_add = |a: Point, b: Point| -> Option<Point> {
        if bool::from(a.is_identity()) || bool::from(b.is_identity()) || a == b || a == -b {
            None
        } else {
            Some(a + b)
        }
    };
    for chunk in bits.chunks(10) {
        let j = chunk.iter().enumerate().fold(0usize, |n, (i, b)| n | ((*b as usize) << i));
        acc = inc_add(inc_add(acc, table[j])?, acc)?;
    }
    Some(acc)
}

pub fn sinsemilla_commit(domain: &str, bits: &[bool], r: &Scalar) -> Option<Point> {
    let m = format!("{}-M", domain);
    let rd: &'static str = match domain {
        "z.cash:Orchard-NoteCommit" => "z.cash:Orchard-NoteCommit-r",
        "z.cash:Orchard-CommitIvk" => "z.cash:Orchard-CommitIvk-r",
        _ => unreachable!(),
    };
    Some(sinsemilla_to_point(&m, bits)? + cached_point(rd, b"") * r)
}

fn bits_of_bytes(bytes: &[u8], n: usize) -> Vec<bool> {
    (0..n).map(|i| (bytes[i / 8] >> (i % 8)) & 1 == 1).collect()
}

fn base_bits(x: &Base) -> Vec<bool> {
    bits_of_bytes(&x.to_repr(), 255)
}

// ---------------------------------------------------------------- Merkle tree

/// MerkleCRH^Orchard: `level` is the height of the children (0 for leaves).
pub fn merkle_crh(level: u8, left: &Base, right: &Base) -> Base {
    let mut bits: Vec<bool> = (0..10).map(|i| (level as u32 >> i) & 1 == 1).collect();
    bits.extend(base_bits(left));
    bits.extend(base_bits(right));
    match sinsemilla_to_point("z.cash:Orchard-MerkleCRH", &bits) {
        None => Base::ZERO,
        Some(p) => extract_p(&p),
    }
}

pub fn empty_roots() -> &'static Vec<Base> {
    static T: OnceLock<Vec<Base>> = OnceLock::new();
    T.get_or_init(|| {
        let mut v = vec![Base::from(2)];
        for l in 0..DEPTH {
            let x = v[l];
            v.push(merkle_crh(l as u8, &x, &x));
        }
        v
    })
}

pub fn merkle_root_from_path(leaf: &Base, pos: u32, path: &[Base]) -> Base {
    let mut node = *leaf;
    for (l, sib) in path.iter().enumerate() {
        node = if (pos >> l) & 1 == 0 {
            merkle_crh(l as u8, &node, sib)
        } else {
            merkle_crh(l as u8, sib, &node)
        };
    }
    node
}

/// A sparse depth-32 tree: leaves at arbitrary positions, everything else uncommitted.
#[derive(Clone, Default, Debug)]
pub struct SparseTree {
    levels: Vec<BTreeMap<u64, Base>>,
}

impl SparseTree {
    pub fn new(leaves: &[(u32, Base)]) -> Self {
        let mut t = SparseTree { levels: vec![BTreeMap::new(); DEPTH + 1] };
        for (p, x) in leaves {
            t.levels[0].insert(*p as u64, *x);
        }
        for l in 0..DEPTH {
            let parents: std::collections::BTreeSet<u64> = t.levels[l].keys().map(|p| p >> 1).collect();
            for p in parents {
                let v = merkle_crh(l as u8, &t.node(l, 2 * p), &t.node(l, 2 * p + 1));
                t.levels[l + 1].insert(p, v);
            }
        }
        t
    }

    /// Sets one leaf and recomputes its branch.
    pub fn set(&mut self, pos: u32, leaf: Base) {
        if self.levels.is_empty() {
            self.levels = vec![BTreeMap::new(); DEPTH + 1];
        }
        self.levels[0].insert(pos as u64, leaf);
        let mut p = pos as u64;
        for l in 0..DEPTH {
            p >>= 1;
            let v = merkle_crh(l as u8, &self.node(l, 2 * p), &self.node(l, 2 * p + 1));
            self.levels[l + 1].insert(p, v);
        }
    }

    pub fn node(&self, level: usize, idx: u64) -> Base {
        self.levels
            .get(level)
            .and_then(|m| m.get(&idx))
            .copied()
            .unwrap_or_else(|| empty_roots()[level])
    }

    pub fn root(&self) -> Base {
        self.node(DEPTH, 0)
    }

    pub fn path(&self, pos: u32) -> [Base; DEPTH] {
        let mut out = [Base::ZERO; DEPTH];
        let mut p = pos as u64;
        for (l, o) in out.iter_mut().enumerate() {
            *o = self.node(l, p ^ 1);
            p >>= 1;
        }
        out
    }
}

// ---------------------------------------------------------------- keys

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum MScope {
    External,
    Internal,
}

pub const SCOPES: [MScope; 2] = [MScope::External, MScope::Internal];

pub fn spend_auth_base() -> Point {
    cached_point("z.cash:Orchard", b"G")
}

pub fn nullifier_base() -> Point {
    cached_point("z.cash:Orchard", b"K")
}

pub fn value_base() -> Point {
    cached_point("z.cash:Orchard-cv", b"v")
}

pub fn rcv_base() -> Point {
    cached_point("z.cash:Orchard-cv", b"r")
}

pub fn commit_ivk(ak: &Base, nk: &Base, rivk: &Scalar) -> Option<Base> {
    let mut bits = base_bits(ak);
    bits.extend(base_bits(nk));
    sinsemilla_commit("z.cash:Orchard-CommitIvk", &bits, rivk).map(|p| extract_p(&p))
}

pub fn diversify_hash(d: &[u8; 11]) -> Point {
    let p = group_hash("z.cash:Orchard-gd", d);
    if bool::from(p.is_identity()) {
        group_hash("z.cash:Orchard-gd", b"")
    } else {
        p
    }
}

/// A full viewing key of the model: (ak as a compressed point with even y, nk, rivk).
#[derive(Clone, Debug, PartialEq)]
pub struct MFvk {
    pub ak: Point,
    pub nk: Base,
    pub rivk: Scalar,
}

#[derive(Clone, Debug)]
pub struct MKeys {
    pub sk: [u8; 32],
    pub ask: Scalar,
    pub fvk: MFvk,
}

impl MKeys {
    /// `None` if the spec says this spending key must be discarded.
    pub fn from_sk(sk: [u8; 32]) -> Option<Self> {
        let mut ask = to_scalar(prf_expand(&sk, &[&[0x06]]));
        if bool::from(ask.is_zero()) {
            return None;
        }
        let nk = to_base(prf_expand(&sk, &[&[0x07]]));
        let rivk = to_scalar(prf_expand(&sk, &[&[0x08]]));
        let mut ak = spend_auth_base() * ask;
        if ak.to_bytes()[31] >> 7 == 1 {
            ask = -ask;
            ak = -ak;
        }
        let fvk = MFvk { ak, nk, rivk };
        for s in SCOPES {
            fvk.scoped(s).ivk()?;
        }
        Some(MKeys { sk, ask, fvk })
    }
}

impl MFvk {
    pub fn to_bytes(&self) -> [u8; 96] {
        let mut out = [0; 96];
        out[..32].copy_from_slice(&self.ak.to_bytes());
        out[32..64].copy_from_slice(&self.nk.to_repr());
        out[64..].copy_from_slice(&self.rivk.to_repr());
        out
    }

    pub fn rivk_internal(&self) -> Scalar {
        to_scalar(prf_expand(
            &self.rivk.to_repr(),
            &[&[0x83], &extract_p(&self.ak).to_repr(), &self.nk.to_repr()],
        ))
    }

    /// The FVK whose ivk/ovk/dk are those of the given scope.
    pub fn scoped(&self, scope: MScope) -> MFvk {
        match scope {
            MScope::External => self.clone(),
            MScope::Internal => MFvk { rivk: self.rivk_internal(), ..self.clone() },
        }
    }

    pub fn ivk(&self) -> Option<Base> {
        commit_ivk(&extract_p(&self.ak), &self.nk, &self.rivk).filter(|x| !bool::from(x.is_zero()))
    }

    pub fn dk_ovk(&self) -> ([u8; 32], [u8; 32]) {
        let r = prf_expand(
            &self.rivk.to_repr(),
            &[&[0x82], &extract_p(&self.ak).to_repr(), &self.nk.to_repr()],
        );
        (r[..32].try_into().unwrap(), r[32..].try_into().unwrap())
    }

    pub fn address_at(&self, scope: MScope, index: &[u8; 11]) -> [u8; 43] {
        let s = self.scoped(scope);
        address(&s.ivk().unwrap(), &diversifier(&s.dk_ovk().0, index))
    }
}

pub fn diversifier(dk: &[u8; 32], index: &[u8; 11]) -> [u8; 11] {
    FF1::<Aes256>::new(dk, 2)
        .unwrap()
        .encrypt(&[], &BinaryNumeralString::from_bytes_le(index))
        .unwrap()
        .to_bytes_le()
        .try_into()
        .unwrap()
}

pub fn diversifier_index(dk: &[u8; 32], d: &[u8; 11]) -> [u8; 11] {
    FF1::<Aes256>::new(dk, 2)
        .unwrap()
        .decrypt(&[], &BinaryNumeralString::from_bytes_le(d))
        .unwrap()
        .to_bytes_le()
        .try_into()
        .unwrap()
}

pub fn address(ivk: &Base, d: &[u8; 11]) -> [u8; 43] {
    let pk_d = diversify_hash(d) * base_to_scalar(ivk);
    let mut out = [0; 43];
    out[..11].copy_from_slice(d);
    out[11..].copy_from_slice(&pk_d.to_bytes());
    out
}

// ---------------------------------------------------------------- ZIP 32

/// Returns (sk, chain code) after deriving hardened children along `path`.
pub fn zip32_derive(seed: &[u8], path: &[u32]) -> ([u8; 32], [u8; 32]) {
    let i = blake2b_512(b"ZcashIP32Orchard", &[seed]);
    let (mut sk, mut c): ([u8; 32], [u8; 32]) = (i[..32].try_into().unwrap(), i[32..].try_into().unwrap());
    for idx in path {
        let i = prf_expand(&c, &[&[0x81], &sk, &(idx | (1 << 31)).to_le_bytes()]);
        sk = i[..32].try_into().unwrap();
        c = i[32..].try_into().unwrap();
    }
    (sk, c)
}

// ---------------------------------------------------------------- notes

#[derive(Clone, Debug, PartialEq)]
pub struct MNote {
    pub address: [u8; 43],
    pub value: u64,
    pub rho: Base,
    pub rseed: [u8; 32],
}

impl MNote {
    pub fn d(&self) -> [u8; 11] {
        self.address[..11].try_into().unwrap()
    }
    pub fn pk_d(&self) -> [u8; 32] {
        self.address[11..].try_into().unwrap()
    }
    pub fn psi(&self) -> Base {
        to_base(prf_expand(&self.rseed, &[&[0x09], &self.rho.to_repr()]))
    }
    pub fn rcm(&self) -> Scalar {
        to_scalar(prf_expand(&self.rseed, &[&[0x05], &self.rho.to_repr()]))
    }
    pub fn esk(&self) -> Scalar {
        to_scalar(prf_expand(&self.rseed, &[&[0x04], &self.rho.to_repr()]))
    }
    pub fn g_d(&self) -> Point {
        diversify_hash(&self.d())
    }
    pub fn epk(&self) -> Point {
        self.g_d() * self.esk()
    }
    pub fn cm(&self) -> Option<Point> {
        note_commit(
            &self.g_d().to_bytes(),
            &self.pk_d(),
            self.value,
            &self.rho,
            &self.psi(),
            &self.rcm(),
        )
    }
    pub fn cmx(&self) -> Option<Base> {
        self.cm().map(|p| extract_p(&p))
    }
    pub fn nullifier(&self, nk: &Base) -> Option<Base> {
        Some(derive_nullifier(nk, &self.rho, &self.psi(), &self.cm()?))
    }
    pub fn plaintext(&self, memo: &[u8; 512]) -> Vec<u8> {
        let mut v = vec![0x02];
        v.extend_from_slice(&self.d());
        v.extend_from_slice(&self.value.to_le_bytes());
        v.extend_from_slice(&self.rseed);
        v.extend_from_slice(memo);
        v
    }
}

pub fn note_commit(
    g_d: &[u8; 32],
    pk_d: &[u8; 32],
    v: u64,
    rho: &Base,
    psi: &Base,
    rcm: &Scalar,
) -> Option<Point> {
    let mut bits = bits_of_bytes(g_d, 256);
    bits.extend(bits_of_bytes(pk_d, 256));
    bits.extend(bits_of_bytes(&v.to_le_bytes(), 64));
    bits.extend(base_bits(rho));
    bits.extend(base_bits(psi));
    sinsemilla_commit("z.cash:Orchard-NoteCommit", &bits, rcm)
}

pub fn derive_nullifier(nk: &Base, rho: &Base, psi: &Base, cm: &Point) -> Base {
    let k = base_to_scalar(&(poseidon_hash(*nk, *rho) + psi));
    extract_p(&(nullifier_base() * k + cm))
}

/// Values of any size: sums of many commitments go beyond what one can hold.
pub fn value_commit(v: i128, rcv: &Scalar) -> Point {
    let m = v.unsigned_abs();
    let s = Scalar::from((m >> 64) as u64) * Scalar::from(1 << 32).square() + Scalar::from(m as u64);
    value_base() * (if v < 0 { -s } else { s }) + rcv_base() * rcv
}

// ---------------------------------------------------------------- in-band secret distribution

fn aead(key: &[u8; 32]) -> ChaCha20Poly1305 {
    ChaCha20Poly1305::new(key.into())
}

pub fn seal(key: &[u8; 32], pt: &[u8]) -> Vec<u8> {
    let mut buf = pt.to_vec();
    let tag = aead(key).encrypt_in_place_detached(&[0u8; 12].into(), b"", &mut buf).unwrap();
    buf.extend_from_slice(&tag);
    buf
}

pub fn open(key: &[u8; 32], ct: &[u8]) -> Option<Vec<u8>> {
    let (body, tag) = ct.split_at(ct.len() - 16);
    let mut buf = body.to_vec();
    aead(key)
        .decrypt_in_place_detached(&[0u8; 12].into(), b"", &mut buf, tag.into())
        .ok()
        .map(|_| buf)
}

/// Raw keystream decryption of the first 52 bytes, as for compact ciphertexts.
pub fn open_compact(key: &[u8; 32], ct: &[u8]) -> Vec<u8> {
    // ChaCha20 with block counter 1 (block 0 keys Poly1305): encrypting zeros reveals the
    // keystream.
    let mut ks = vec![0u8; ct.len()];
    aead(key).encrypt_in_place_detached(&[0u8; 12].into(), b"", &mut ks).unwrap();
    ks.iter().zip(ct).map(|(a, b)| a ^ b).collect()
}

pub fn kdf(shared: &Point, epk: &[u8; 32]) -> [u8; 32] {
    blake2b_256(b"Zcash_OrchardKDF", &[&shared.to_affine().to_bytes(), epk])
}

pub fn prf_ock(ovk: &[u8; 32], cv: &[u8; 32], cmx: &[u8; 32], epk: &[u8; 32]) -> [u8; 32] {
    blake2b_256(b"Zcash_Orchardock", &[ovk, cv, cmx, epk])
}

pub fn point(bytes: &[u8; 32]) -> Option<Point> {
    Option::<Point>::from(Point::from_bytes(bytes))
}

pub fn nonid(bytes: &[u8; 32]) -> Option<Point> {
    point(bytes).filter(|p| !bool::from(p.is_identity()))
}

#[derive(Clone, Debug)]
pub struct MEncrypted {
    pub epk: [u8; 32],
    pub enc: [u8; 580],
    pub out: [u8; 80],
}

/// What the decryptor of a transmitted note obtains.
#[derive(Clone, Debug, PartialEq)]
pub struct MDecrypted {
    pub note: MNote,
    pub memo: Option<[u8; 512]>,
}

/// Encrypts a note honestly. `ovk = None` leaves the outgoing ciphertext to the caller.
pub fn encrypt_note(note: &MNote, memo: &[u8; 512], ovk: Option<&[u8; 32]>, cv: &[u8; 32], cmx: &[u8; 32]) -> MEncrypted {
    let epk = note.epk().to_bytes();
    let shared = nonid(&note.pk_d()).unwrap() * note.esk();
    let enc = seal(&kdf(&shared, &epk), &note.plaintext(memo));
    let out = match ovk {
        Some(ovk) => {
            let mut op = note.pk_d().to_vec();
            op.extend_from_slice(&note.esk().to_repr());
            seal(&prf_ock(ovk, cv, cmx, &epk), &op)
        }
        None => vec![0; 80],
    };
    MEncrypted { epk, enc: enc.try_into().unwrap(), out: out.try_into().unwrap() }
}

fn parse(np: &[u8], rho: &Base) -> Option<([u8; 11], u64, [u8; 32])> {
    if np[0] != 0x02 {
        return None;
    }
    let rseed: [u8; 32] = np[20..52].try_into().unwrap();
    let esk = to_scalar(prf_expand(&rseed, &[&[0x04], &rho.to_repr()]));
    if bool::from(esk.is_zero()) {
        return None;
    }
    Some((
        np[1..12].try_into().unwrap(),
        u64::from_le_bytes(np[12..20].try_into().unwrap()),
        rseed,
    ))
}

/// Spec § 4.20.2: decryption with an incoming viewing key. `enc` is either the full 580-byte
/// ciphertext or its 52-byte compact prefix.
pub fn decrypt_ivk(ivk: &Base, epk_bytes: &[u8; 32], enc: &[u8], cmx: &[u8; 32], rho: &Base) -> Option<MDecrypted> {
    let epk = nonid(epk_bytes)?;
    let key = kdf(&(epk * base_to_scalar(ivk)), epk_bytes);
    let np = if enc.len() == 580 { open(&key, enc)? } else { open_compact(&key, enc) };
    let (d, value, rseed) = parse(&np, rho)?;
    let note = MNote { address: address(ivk, &d), value, rho: *rho, rseed };
    if note.cmx()?.to_repr() != *cmx {
        return None;
    }
    if note.epk().to_bytes() != *epk_bytes {
        return None;
    }
    let memo = (enc.len() == 580).then(|| np[52..].try_into().unwrap());
    Some(MDecrypted { note, memo })
}

/// Spec § 4.20.3: recovery with an outgoing viewing key.
pub fn decrypt_ovk(
    ovk: &[u8; 32],
    cv: &[u8; 32],
    cmx: &[u8; 32],
    epk_bytes: &[u8; 32],
    enc: &[u8; 580],
    out: &[u8; 80],
    rho: &Base,
) -> Option<MDecrypted> {
    let op = open(&prf_ock(ovk, cv, cmx, epk_bytes), out)?;
    let pk_d_bytes: [u8; 32] = op[..32].try_into().unwrap();
    let pk_d = nonid(&pk_d_bytes)?;
    let esk = Option::<Scalar>::from(Scalar::from_repr(op[32..].try_into().unwrap()))?;
    if bool::from(esk.is_zero()) {
        return None;
    }
    let key = kdf(&(pk_d * esk), epk_bytes);
    let np = open(&key, enc)?;
    let (d, value, rseed) = parse(&np, rho)?;
    let mut addr = [0; 43];
    addr[..11].copy_from_slice(&d);
    addr[11..].copy_from_slice(&pk_d_bytes);
    let note = MNote { address: addr, value, rho: *rho, rseed };
    if note.cmx()?.to_repr() != *cmx {
        return None;
    }
    // The ephemeral key must be the one the recovered esk produces, and esk must be the one
    // the note seed determines (ZIP 212).
    if (note.g_d() * esk).to_bytes() != *epk_bytes || note.esk() != esk {
        return None;
    }
    Some(MDecrypted { note, memo: Some(np[52..].try_into().unwrap()) })
}

// ---------------------------------------------------------------- RedPallas

/// RedDSA verification equation, spelled out, for a validating key and base point.
pub fn redpallas_verify(base: &Point, vk: &[u8; 32], msg: &[u8], sig: &[u8; 64]) -> bool {
    let vk_p = match point(vk) {
        Some(p) => p,
        None => return false,
    };
    let r_bytes: [u8; 32] = sig[..32].try_into().unwrap();
    let r = match point(&r_bytes) {
        Some(p) => p,
        None => return false,
    };
    let s = match Option::<Scalar>::from(Scalar::from_repr(sig[32..].try_into().unwrap())) {
        Some(s) => s,
        None => return false,
    };
    let c = to_scalar(blake2b_512(b"Zcash_RedPallasH", &[&r_bytes, vk, msg]));
    base * s == r + vk_p * c
}

/// A RedPallas signature by a known secret with a given nonce.
pub fn redpallas_sign(base: &Point, sk: &Scalar, nonce: &Scalar, msg: &[u8]) -> [u8; 64] {
    let vk = (base * sk).to_bytes();
    let r = (base * nonce).to_bytes();
    let c = to_scalar(blake2b_512(b"Zcash_RedPallasH", &[&r, &vk, msg]));
    let s = nonce + c * sk;
    let mut out = [0; 64];
    out[..32].copy_from_slice(&r);
    out[32..].copy_from_slice(&s.to_repr());
    out
}

// ---------------------------------------------------------------- ZIP 244

#[derive(Clone, Debug, PartialEq)]
pub struct MAction {
    pub nf: [u8; 32],
    pub rk: [u8; 32],
    pub cmx: [u8; 32],
    pub cv: [u8; 32],
    pub epk: [u8; 32],
    pub enc: [u8; 580],
    pub out: [u8; 80],
}

#[derive(Clone, Debug, PartialEq)]
pub struct MEffects {
    pub actions: Vec<MAction>,
    pub flags: u8,
    pub balance: i64,
    pub anchor: [u8; 32],
}

impl MEffects {
    pub fn txid_commitment(&self) -> [u8; 32] {
        let (mut c, mut m, mut n): (Vec<u8>, Vec<u8>, Vec<u8>) = Default::default();
        for a in &self.actions {
            c.extend_from_slice(&a.nf);
            c.extend_from_slice(&a.cmx);
            c.extend_from_slice(&a.epk);
            c.extend_from_slice(&a.enc[0..52]);
            m.extend_from_slice(&a.enc[52..52 + 512]);
            n.extend_from_slice(&a.cv);
            n.extend_from_slice(&a.rk);
            n.extend_from_slice(&a.enc[564..580]);
            n.extend_from_slice(&a.out);
        }
        blake2b_256(
            b"ZTxIdOrchardHash",
            &[
                &blake2b_256(b"ZTxIdOrcActCHash", &[&c]),
                &blake2b_256(b"ZTxIdOrcActMHash", &[&m]),
                &blake2b_256(b"ZTxIdOrcActNHash", &[&n]),
                &[self.flags],
                &self.balance.to_le_bytes(),
                &self.anchor,
            ],
        )
    }

    pub fn balance_key(&self) -> Option<[u8; 32]> {
        let mut sum = Point::identity();
        for a in &self.actions {
            sum += point(&a.cv)?;
        }
        Some((sum - value_commit(self.balance as i128, &Scalar::ZERO)).to_bytes())
    }
}

pub fn auth_commitment(proof: &[u8], sigs: &[[u8; 64]], binding: &[u8; 64]) -> [u8; 32] {
    let mut parts: Vec<&[u8]> = vec![proof];
    for s in sigs {
        parts.push(s);
    }
    parts.push(binding);
    blake2b_256(b"ZTxAuthOrchaHash", &parts)
}

// ---------------------------------------------------------------- the Action statement

/// The private inputs of the Action statement.
#[derive(Clone, Debug)]
pub struct Statement {
    pub path: [Base; DEPTH],
    pub pos: u32,
    pub g_d_old: Point,
    pub pk_d_old: Point,
    pub v_old: u64,
    pub rho_old: Base,
    pub psi_old: Base,
    pub rcm_old: Scalar,
    pub cm_old: Point,
    pub alpha: Scalar,
    pub ak: Point,
    pub nk: Base,
    pub rivk: Scalar,
    pub g_d_new: Point,
    pub pk_d_new: Point,
    pub v_new: u64,
    pub psi_new: Base,
    pub rcm_new: Scalar,
    pub rcv: Scalar,
}

/// The public inputs of the Action statement.
#[derive(Clone, Debug, PartialEq)]
pub struct Public {
    pub anchor: Base,
    pub cv: Point,
    pub nf: Base,
    pub rk: Point,
    pub cmx: Base,
    pub enable_spends: bool,
    pub enable_outputs: bool,
}

impl Public {
    pub fn inputs(&self) -> [Base; 9] {
        let (cx, cy) = coords(&self.cv);
        let (rx, ry) = coords(&self.rk);
        [
            self.anchor,
            cx,
            cy,
            self.nf,
            rx,
            ry,
            self.cmx,
            Base::from(self.enable_spends as u64),
            Base::from(self.enable_outputs as u64),
        ]
    }
}

/// Which clauses of the Action statement (spec § 4.17.4) are broken; empty means it holds.
pub fn broken_clauses(w: &Statement, p: &Public) -> Vec<&'static str> {
    let mut broken = vec![];
    let cm = note_commit(
        &w.g_d_old.to_bytes(),
        &w.pk_d_old.to_bytes(),
        w.v_old,
        &w.rho_old,
        &w.psi_old,
        &w.rcm_old,
    );
    if cm.map(|c| c != w.cm_old).unwrap_or(false) {
        broken.push("old note commitment integrity");
    }
    let root = merkle_root_from_path(&extract_p(&w.cm_old), w.pos, &w.path);
    if w.v_old != 0 && root != p.anchor {
        broken.push("merkle path validity");
    }
    if value_commit(w.v_old as i128 - w.v_new as i128, &w.rcv) != p.cv {
        broken.push("value commitment integrity");
    }
    if derive_nullifier(&w.nk, &w.rho_old, &w.psi_old, &w.cm_old) != p.nf {
        broken.push("nullifier integrity");
    }
    if w.ak + spend_auth_base() * w.alpha != p.rk {
        broken.push("spend authority");
    }
    if let Some(ivk) = commit_ivk(&extract_p(&w.ak), &w.nk, &w.rivk) {
        if w.g_d_old * base_to_scalar(&ivk) != w.pk_d_old {
            broken.push("diversified address integrity");
        }
    }
    let cm_new = note_commit(
        &w.g_d_new.to_bytes(),
        &w.pk_d_new.to_bytes(),
        w.v_new,
        &p.nf,
        &w.psi_new,
        &w.rcm_new,
    );
    if cm_new.map(|c| extract_p(&c) != p.cmx).unwrap_or(false) {
        broken.push("new note commitment integrity");
    }
    if w.v_old != 0 && !p.enable_spends {
        broken.push("enable spend flag");
    }
    if w.v_new != 0 && !p.enable_outputs {
        broken.push("enable output flag");
    }
    broken
}

/// Parses a canonical field element.
pub fn base(bytes: &[u8; 32]) -> Option<Base> {
    Option::<Base>::from(Base::from_repr(*bytes))
}

