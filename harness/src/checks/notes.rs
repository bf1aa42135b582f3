//! C14 note commitments and nullifiers, C15 ZIP 244 commitments, C16 the commitment tree.

use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use incrementalmerkletree::{
    frontier::{CommitmentTree, Frontier},
    witness::IncrementalWitness,
    Hashable, Level, Position,
};
use nonempty::NonEmpty;
use orchard::{
    bundle::{commitments, Authorized, Flags},
    keys::FullViewingKey,
    note::{ExtractedNoteCommitment, Note, Nullifier, TransmittedNoteCiphertext},
    primitives::redpallas::{self, Binding, SpendAuth},
    tree::{MerkleHashOrchard, MerklePath},
    value::ValueCommitment,
    Action, Address, Anchor, Bundle, Proof,
};
use rand::{Rng as _, RngCore};

use super::encryption::{plain_action, Plain};
use crate::model::{self, Base, MAction, MEffects, MNote, Point, Scalar, DEPTH};
use crate::mon::{sut, Ctx, Rng, Verdict};
use crate::world::*;
use crate::{ensure, same};

// ---------------------------------------------------------------- notes

fn rand_address(rng: &mut Rng) -> [u8; 43] {
    let mut b = [0; 43];
    let d = match rng.gen_range(0..4) {
        0 => [0; 11],
        1 => [0xff; 11],
        _ => bytes(rng),
    };
    b[..11].copy_from_slice(&d);
    let p = match rng.gen_range(0..4) {
        0 => Point::generator() * Scalar::from(rng.gen_range(1..5)),
        1 => -Point::generator(),
        _ => Point::generator() * loop {
            let s = edge_scalar(rng);
            if s != Scalar::ZERO {
                break s;
            }
        },
    };
    b[11..].copy_from_slice(&p.to_bytes());
    b
}

fn rand_mnote(rng: &mut Rng) -> MNote {
    loop {
        let rseed = match rng.gen_range(0..8) {
            0 => [0; 32],
            1 => [0xff; 32],
            _ => bytes(rng),
        };
        let m = MNote { address: rand_address(rng), value: edge_u64(rng), rho: edge_base(rng), rseed };
        if m.cmx().is_some() && m.esk() != Scalar::ZERO {
            return m;
        }
    }
}

fn real_note(m: &MNote) -> Note {
    let a: Address = sut(Address::from_raw_address_bytes(&m.address), "valid address bytes");
    sut(make_note(a, m.value, &m.rho, m.rseed), "valid note parts")
}

fn cmx_of(n: &Note) -> [u8; 32] {
    ExtractedNoteCommitment::from(n.commitment()).to_bytes()
}

fn rand_viewing_key(rng: &mut Rng) -> (FullViewingKey, model::MFvk) {
    loop {
        let mut ak = model::spend_auth_base() * edge_scalar(rng);
        if bool::from(ak.is_identity()) {
            continue;
        }
        if ak.to_bytes()[31] >> 7 == 1 {
            ak = -ak;
        }
        let m = model::MFvk { ak, nk: edge_base(rng), rivk: rand_scalar(rng) };
        if model::SCOPES.iter().all(|s| m.scoped(*s).ivk().is_some()) {
            return (sut(FullViewingKey::from_bytes(&m.to_bytes()), "valid viewing key"), m);
        }
    }
}

pub fn c14(ctx: &Ctx) {
    ctx.rule(
        "notes over edge and random recipients, values, rho and seeds; commitment and nullifier \
         compared with the specification's model, and every single-bit variation of every \
         component must change them (while components they must not depend on must not). \
         Distinct by note.",
    );
    ctx.require("notes compared", 100);
    ctx.require("variations told apart", 500);
    ctx.run("compare", ctx.n(1500, 10000), |_, rng| {
        let m = rand_mnote(rng);
        let n = real_note(&m);
        same!(mnote(&n), m, "note parts read back");
        same!(cmx_of(&n), m.cmx().unwrap().to_repr(), "note commitment of {:?}", m);
        let (fvk, mf) = rand_viewing_key(rng);
        let nf = n.nullifier(&fvk).to_bytes();
        same!(nf, m.nullifier(&mf.nk).unwrap().to_repr(), "nullifier of {:?} under nk={:?}", m, mf.nk);
        same!(n.nullifier(&fvk).to_bytes(), nf, "nullifier computed twice");
        same!(real_note(&m) == n, true, "the same note twice");
        ctx.event("notes compared");
        let mut key = m.address.to_vec();
        key.extend_from_slice(&m.value.to_le_bytes());
        key.extend_from_slice(&m.rho.to_repr());
        key.extend_from_slice(&m.rseed);
        ctx.distinct("note", &key);
        ctx.sample("note", || format!("{:?} cmx={} nf={}", m, hex::encode(cmx_of(&n)), hex::encode(nf)));

        // The nullifier depends on the viewing key through nk alone.
        let mut other = mf.clone();
        other.rivk = rand_scalar(rng);
        other.ak = loop {
            let p = model::spend_auth_base() * Scalar::random(&mut *rng);
            if p.to_bytes()[31] >> 7 == 0 {
                break p;
            }
        };
        if let Some(o) = FullViewingKey::from_bytes(&other.to_bytes()) {
            same!(n.nullifier(&o).to_bytes(), nf, "nullifier under a key with the same nk");
        }
        other.nk = mf.nk + Base::ONE;
        if let Some(o) = FullViewingKey::from_bytes(&other.to_bytes()) {
            ensure!(n.nullifier(&o).to_bytes() != nf, "the nullifier does not depend on nk");
            ctx.event("variations told apart");
        }
        Ok(())
    });
    ctx.run("vary", ctx.n(300, 1500), |_, rng| {
        let m = rand_mnote(rng);
        let n = real_note(&m);
        let (fvk, mf) = rand_viewing_key(rng);
        for k in 0..16 {
            let mut v = m.clone();
            let what = match k % 5 {
                0 => {
                    v.value ^= 1 << rng.gen_range(0..64);
                    "value"
                }
                1 => {
                    v.rho += Base::from(1u64 << rng.gen_range(0..63)) * if rng.gen() { Base::ONE } else { -Base::ONE };
                    "rho"
                }
                2 => {
                    v.rseed[rng.gen_range(0..32)] ^= 1 << rng.gen_range(0..8);
                    "rseed"
                }
                3 => {
                    v.address[rng.gen_range(0..11)] ^= 1 << rng.gen_range(0..8);
                    "diversifier"
                }
                _ => {
                    v.address[42] ^= 0x80;
                    "sign of pk_d"
                }
            };
            if v.cmx().is_none() {
                continue;
            }
            let o = real_note(&v);
            same!(cmx_of(&o), v.cmx().unwrap().to_repr(), "commitment after changing the {}", what);
            same!(o.nullifier(&fvk).to_bytes(), v.nullifier(&mf.nk).unwrap().to_repr(), "nullifier after changing the {}", what);
            ensure!(cmx_of(&o) != cmx_of(&n), "two notes that differ in {} share a commitment", what);
            ensure!(o != n, "two notes that differ in {} compare equal", what);
            ensure!(o.nullifier(&fvk) != n.nullifier(&fvk), "two notes that differ in {} share a nullifier", what);
            ctx.event("variations told apart");
        }
        Ok(())
    });
}

// ---------------------------------------------------------------- ZIP 244

fn rand_effects(rng: &mut Rng, n: usize) -> MEffects {
    let actions = (0..n)
        .map(|_| {
            let mut a = MAction {
                nf: edge_base(rng).to_repr(),
                rk: (Point::generator() * edge_scalar(rng)).to_bytes(),
                cmx: edge_base(rng).to_repr(),
                cv: (Point::generator() * edge_scalar(rng)).to_bytes(),
                epk: bytes(rng),
                enc: [0; 580],
                out: [0; 80],
            };
            if rng.gen_range(0..5) != 0 {
                rng.fill_bytes(&mut a.enc);
                rng.fill_bytes(&mut a.out);
            }
            a
        })
        .collect();
    MEffects {
        actions,
        flags: rng.gen_range(0..4),
        balance: match rng.gen_range(0..3) {
            0 => *pick(rng, &[0, 1, -1, i64::MAX, i64::MIN, i64::MIN + 1, 256, -256]),
            1 => rng.gen_range(-21_000_000_0000_0000i64..=21_000_000_0000_0000),
            _ => rng.gen(),
        },
        anchor: edge_base(rng).to_repr(),
    }
}

fn plain(e: &MEffects) -> Bundle<Plain, i64> {
    Bundle::from_parts(
        sut(NonEmpty::from_vec(e.actions.iter().map(plain_action).collect()), "actions"),
        sut(Flags::from_byte(e.flags), "flags byte"),
        e.balance,
        sut(Anchor::from_bytes(e.anchor), "anchor"),
        Plain,
    )
}

fn txid(b: &Bundle<Plain, i64>) -> [u8; 32] {
    b.commitment().into()
}

fn authed(e: &MEffects, proof: &[u8], sigs: &[[u8; 64]], binding: [u8; 64]) -> Bundle<Authorized, i64> {
    let actions: Vec<Action<redpallas::Signature<SpendAuth>>> = e
        .actions
        .iter()
        .zip(sigs)
        .map(|(m, s)| {
            Action::from_parts(
                sut(Nullifier::from_bytes(&m.nf), "nullifier"),
                sut(redpallas::VerificationKey::try_from(m.rk).ok(), "rk"),
                sut(ExtractedNoteCommitment::from_bytes(&m.cmx), "cmx"),
                TransmittedNoteCiphertext { epk_bytes: m.epk, enc_ciphertext: m.enc, out_ciphertext: m.out },
                sut(ValueCommitment::from_bytes(&m.cv), "cv"),
                redpallas::Signature::<SpendAuth>::from(*s),
            )
        })
        .collect();
    Bundle::from_parts(
        NonEmpty::from_vec(actions).unwrap(),
        sut(Flags::from_byte(e.flags), "flags byte"),
        e.balance,
        sut(Anchor::from_bytes(e.anchor), "anchor"),
        Authorized::from_parts(Proof::new(proof.to_vec()), redpallas::Signature::<Binding>::from(binding)),
    )
}

/// A single change to the effects that leaves every field well-formed; `None` if this draw was
/// not well-formed.
fn vary(rng: &mut Rng, e: &MEffects) -> Option<(MEffects, &'static str)> {
    let mut v = e.clone();
    let n = v.actions.len();
    let i = rng.gen_range(0..n);
    let bit = |b: &mut [u8], rng: &mut Rng| {
        let k = rng.gen_range(0..b.len());
        b[k] ^= 1 << rng.gen_range(0..8);
    };
    let what = match rng.gen_range(0..14) {
        0 => {
            v.actions[i].nf = (model::base(&v.actions[i].nf)? + Base::from(1u64 << rng.gen_range(0..63))).to_repr();
            "nullifier"
        }
        1 => {
            v.actions[i].cmx = (model::base(&v.actions[i].cmx)? + Base::from(1u64 << rng.gen_range(0..63))).to_repr();
            "cmx"
        }
        2 => {
            v.actions[i].rk = (model::point(&v.actions[i].rk)? + Point::generator()).to_bytes();
            "rk"
        }
        3 => {
            v.actions[i].cv = (model::point(&v.actions[i].cv)? + Point::generator()).to_bytes();
            "cv_net"
        }
        4 => {
            bit(&mut v.actions[i].epk, rng);
            "ephemeral key"
        }
        5 => {
            let k = *pick(rng, &[0, 1, 51, 52, 53, 562, 563, 564, 565, 578, 579]);
            v.actions[i].enc[k] ^= 1 << rng.gen_range(0..8);
            "note ciphertext at a field boundary"
        }
        6 => {
            bit(&mut v.actions[i].enc, rng);
            "note ciphertext"
        }
        7 => {
            bit(&mut v.actions[i].out, rng);
            "outgoing ciphertext"
        }
        8 => {
            v.flags = (v.flags + rng.gen_range(1..4)) % 4;
            "flags"
        }
        9 => {
            v.balance ^= 1 << rng.gen_range(0..64);
            "value balance"
        }
        10 => {
            v.anchor = (model::base(&v.anchor)? + Base::from(1u64 << rng.gen_range(0..63))).to_repr();
            "anchor"
        }
        11 => {
            let j = rng.gen_range(0..n);
            if v.actions[i] == v.actions[j] {
                return None;
            }
            v.actions.swap(i, j);
            "order of actions"
        }
        12 => {
            let a = v.actions[i].clone();
            v.actions.insert(i, a);
            "number of actions"
        }
        _ => {
            if n < 2 {
                return None;
            }
            let j = (i + 1) % n;
            let f = rng.gen_range(0..6);
            let (x, y) = (v.actions[i].clone(), v.actions[j].clone());
            let (a, b) = if f == 0 {
                v.actions[i].nf = y.nf;
                v.actions[j].nf = x.nf;
                (x.nf.to_vec(), y.nf.to_vec())
            } else if f == 1 {
                v.actions[i].cmx = y.cmx;
                v.actions[j].cmx = x.cmx;
                (x.cmx.to_vec(), y.cmx.to_vec())
            } else if f == 2 {
                v.actions[i].rk = y.rk;
                v.actions[j].rk = x.rk;
                (x.rk.to_vec(), y.rk.to_vec())
            } else if f == 3 {
                v.actions[i].cv = y.cv;
                v.actions[j].cv = x.cv;
                (x.cv.to_vec(), y.cv.to_vec())
            } else if f == 4 {
                v.actions[i].enc = y.enc;
                v.actions[j].enc = x.enc;
                (x.enc.to_vec(), y.enc.to_vec())
            } else {
                v.actions[i].out = y.out;
                v.actions[j].out = x.out;
                (x.out.to_vec(), y.out.to_vec())
            };
            if a == b {
                return None;
            }
            "fields swapped between actions"
        }
    };
    Some((v, what))
}

pub fn c15(ctx: &Ctx) {
    ctx.rule(
        "bundles of 1..12 (occasionally many more) actions with edge and random fields, every flag \
         combination and balance; both digests compared with ZIP 244 as written out by the model; \
         every kind of single-field change must move exactly the digest that covers it. Distinct \
         by digest.",
    );
    ctx.require("digests compared", 200);
    ctx.require("changes noticed", 500);
    ctx.require("kinds of change", 13);
    ctx.run("digests", ctx.n(2500, 6000), |i, rng| {
        let n = match i % 10 {
            0 => 1,
            1 => rng.gen_range(13..40),
            _ => rng.gen_range(1..12),
        };
        let mut e = rand_effects(rng, n);
        // Sometimes with fields that repeat from action to action, or that are constant.
        let repeats = rng.gen_range(0..3) == 0;
        if repeats {
            for k in 0..n {
                let from = e.actions[if rng.gen() { k.saturating_sub(1) } else { rng.gen_range(0..=k) }].clone();
                let a = &mut e.actions[k];
                for f in 0..9 {
                    if rng.gen() {
                        match f {
                            0 => a.nf = from.nf,
                            1 => a.rk = from.rk,
                            2 => a.cmx = from.cmx,
                            3 => a.cv = from.cv,
                            4 => a.epk = from.epk,
                            5 => a.enc = from.enc,
                            6 => a.out = from.out,
                            7 => a.enc[52..564].fill(*pick(rng, &[0u8, 0xff, 0xf6])),
                            _ => a.out.fill(*pick(rng, &[0u8, 0xff])),
                        }
                    }
                }
            }
            ctx.event("repetitive bundles");
        }
        let e = e;
        let want = e.txid_commitment();
        let b = plain(&e);
        same!(meffects(&b), e, "bundle parts read back");
        same!(txid(&b), want, "effects digest of {} actions, flags {}, balance {}", n, e.flags, e.balance);
        ctx.distinct("effects digest", &want);
        ctx.event("digests compared");

        let plen = match rng.gen_range(0..4) {
            0 => 0,
            1 => rng.gen_range(1..200),
            _ => 2720 + 2272 * n,
        };
        let mut proof = vec![0; plen];
        rng.fill_bytes(&mut proof);
        let mut sigs: Vec<[u8; 64]> = (0..n).map(|_| bytes(rng)).collect();
        let mut binding: [u8; 64] = bytes(rng);
        if repeats {
            for k in 1..n {
                if rng.gen() {
                    sigs[k] = sigs[k - 1];
                }
            }
            match rng.gen_range(0..6) {
                0 => binding = sigs[n - 1],
                1 => sigs.iter_mut().for_each(|s| *s = [0; 64]),
                2 => binding = [0; 64],
                3 => proof.fill(0),
                _ => (),
            }
        }
        let a = authed(&e, &proof, &sigs, binding);
        let got: [u8; 32] = a.commitment().into();
        same!(got, want, "effects digest of the authorized bundle");
        let auth: [u8; 32] = a.authorizing_commitment().0.as_bytes().try_into().unwrap();
        same!(auth, model::auth_commitment(&proof, &sigs, &binding), "authorizing digest");
        ctx.distinct("authorizing digest", &auth);
        ctx.event("digests compared");
        ctx.sample("bundle", || format!("{} actions flags={} balance={} txid={} auth={}", n, e.flags, e.balance, hex::encode(want), hex::encode(auth)));

        // A change of authorizing data moves the authorizing digest and only that.
        let mut proof2 = proof.clone();
        match rng.gen_range(0..4) {
            0 if plen > 0 => proof2[rng.gen_range(0..plen)] ^= 1 << rng.gen_range(0..8),
            1 => sigs[rng.gen_range(0..n)][rng.gen_range(0..64)] ^= 1 << rng.gen_range(0..8),
            2 => binding[rng.gen_range(0..64)] ^= 1 << rng.gen_range(0..8),
            _ => proof2.push(0),
        }
        let a2 = authed(&e, &proof2, &sigs, binding);
        let got: [u8; 32] = a2.commitment().into();
        same!(got, want, "effects digest after changing authorizing data");
        let auth2: [u8; 32] = a2.authorizing_commitment().0.as_bytes().try_into().unwrap();
        same!(auth2, model::auth_commitment(&proof2, &sigs, &binding), "authorizing digest");
        ensure!(auth2 != auth, "the authorizing digest does not notice a change");

        // A change of effects moves the effects digest; the authorizing digest does not cover it.
        for _ in 0..8 {
            let (v, what) = match vary(rng, &e) {
                Some(v) => v,
                None => continue,
            };
            let got = txid(&plain(&v));
            same!(got, v.txid_commitment(), "effects digest after changing the {}", what);
            ensure!(got != want, "the effects digest does not notice a change of the {}", what);
            if v.actions.len() == n {
                let a = authed(&v, &proof, &sigs_of(&proof, &a), binding_of(&a));
                let got: [u8; 32] = a.authorizing_commitment().0.as_bytes().try_into().unwrap();
                same!(got, auth, "authorizing digest after changing the {}", what);
            }
            ctx.event("changes noticed");
            ctx.distinct("kinds of change", what.as_bytes());
        }
        Ok(())
    });
    ctx.run("absent", 1, |_, _| {
        same!(
            commitments::hash_bundle_txid_empty().as_bytes().to_vec(),
            model::blake2b_256(b"ZTxIdOrchardHash", &[]).to_vec(),
            "effects digest of the absent bundle"
        );
        same!(
            commitments::hash_bundle_auth_empty().as_bytes().to_vec(),
            model::blake2b_256(b"ZTxAuthOrchaHash", &[]).to_vec(),
            "authorizing digest of the absent bundle"
        );
        ctx.events("digests compared", 2);
        Ok(())
    });
}

fn sigs_of(_: &[u8], b: &Bundle<Authorized, i64>) -> Vec<[u8; 64]> {
    b.actions().iter().map(|a| a.authorization().into()).collect()
}
fn binding_of(b: &Bundle<Authorized, i64>) -> [u8; 64] {
    b.authorization().binding_signature().into()
}

// ---------------------------------------------------------------- the tree

fn node(b: &Base) -> MerkleHashOrchard {
    sut(MerkleHashOrchard::from_bytes(&b.to_repr()), "valid tree hash")
}
fn leaf(b: &Base) -> ExtractedNoteCommitment {
    sut(ExtractedNoteCommitment::from_bytes(&b.to_repr()), "valid note commitment")
}

/// The left edge of a tree, as the model keeps it: one complete-subtree root per set bit.
#[derive(Clone)]
struct MFrontier {
    pos: u64,
    leaf: Base,
    ommers: Vec<Base>,
}

impl MFrontier {
    fn append(&mut self, x: Base) {
        let mut carry = self.leaf;
        let mut l = 0;
        while (self.pos >> l) & 1 == 1 {
            let left = self.ommers.remove(0);
            carry = model::merkle_crh(l as u8, &left, &carry);
            l += 1;
        }
        self.ommers.insert(0, carry);
        self.pos += 1;
        self.leaf = x;
    }
    fn root(&self) -> Base {
        let mut n = self.leaf;
        let mut o = self.ommers.iter();
        for l in 0..DEPTH {
            n = if (self.pos >> l) & 1 == 1 {
                model::merkle_crh(l as u8, o.next().unwrap(), &n)
            } else {
                model::merkle_crh(l as u8, &n, &model::empty_roots()[l])
            };
        }
        n
    }
}

fn start_position(rng: &mut Rng) -> u64 {
    match rng.gen_range(0..4) {
        0 => rng.gen_range(0..16),
        // just below a power of two: the appends that follow carry through every level
        1 => (1u64 << rng.gen_range(1..32)).saturating_sub(rng.gen_range(1..5)),
        2 => rng.gen_range(0..(1u64 << 32) - 16),
        _ => (u32::MAX - 1) as u64 & !(1u64 << rng.gen_range(0..32)),
    }
}

pub fn c16(ctx: &Ctx) {
    ctx.rule(
        "node hashing at every level; paths over random and edge leaves at every kind of position; \
         append histories started at positions across the whole 32-bit range (carries through \
         every level) with witnesses kept up to date, root compared with the model's tree after \
         every step; near-miss leaves, siblings and positions must not reach the root. Distinct by \
         root.",
    );
    ctx.require("levels hashed", 32);
    ctx.require("appends compared", 100);
    ctx.require("witness paths compared", 50);
    ctx.require("near misses refused", 100);
    ctx.run("nodes", ctx.n(512, 3200), |i, rng| {
        let level = (i % 32) as u8;
        let (l, r) = (edge_base(rng), edge_base(rng));
        let got = MerkleHashOrchard::combine(Level::from(level), &node(&l), &node(&r));
        same!(got.to_bytes(), model::merkle_crh(level, &l, &r).to_repr(), "hash at level {} of {:?} and {:?}", level, l, r);
        if l != r {
            let swapped = MerkleHashOrchard::combine(Level::from(level), &node(&r), &node(&l));
            ensure!(swapped != got, "node hashing ignores the order of children at level {}", level);
        }
        let other = MerkleHashOrchard::combine(Level::from((level + 1) % 32), &node(&l), &node(&r));
        ensure!(other != got, "node hashing ignores the level ({} and the next)", level);
        ctx.distinct("levels hashed", &[level]);
        ctx.event("node hashes");
        Ok(())
    });
    ctx.run("empty", 33, |i, _| {
        let want = model::empty_roots()[i as usize];
        same!(MerkleHashOrchard::empty_root(Level::from(i as u8)).to_bytes(), want.to_repr(), "empty root at level {}", i);
        if i == 0 {
            same!(MerkleHashOrchard::empty_leaf().to_bytes(), Base::from(2).to_repr(), "empty leaf");
        }
        if i == 32 {
            same!(Anchor::empty_tree().to_bytes(), want.to_repr(), "anchor of the empty tree");
            let f: Frontier<MerkleHashOrchard, 32> = Frontier::empty();
            same!(f.root().to_bytes(), want.to_repr(), "root of the empty frontier");
        }
        Ok(())
    });
    ctx.run("paths", ctx.n(200, 1500), |_, rng| {
        let pos = edge_u32(rng);
        let mut path = [Base::ZERO; 32];
        for p in path.iter_mut() {
            *p = edge_base(rng);
        }
        let x = edge_base(rng);
        let want = model::merkle_root_from_path(&x, pos, &path);
        let p = path_of(pos, &path);
        same!(p.root(leaf(&x)).to_bytes(), want.to_repr(), "root by path at position {:#x}", pos);
        ctx.distinct("root", &want.to_repr());
        ctx.event("paths compared");
        // Near misses.
        let mut path2 = path;
        let k = rng.gen_range(0..32);
        path2[k] += Base::ONE;
        ensure!(path_of(pos, &path2).root(leaf(&x)).to_bytes() != want.to_repr(), "sibling at level {} is ignored", k);
        let k = rng.gen_range(0..32);
        let got = path_of(pos ^ (1 << k), &path).root(leaf(&x)).to_bytes();
        let w = model::merkle_root_from_path(&x, pos ^ (1 << k), &path);
        same!(got, w.to_repr(), "root by path at position {:#x}", pos ^ (1 << k));
        if w != want {
            ensure!(got != want.to_repr(), "position bit {} is ignored", k);
        }
        ensure!(p.root(leaf(&(x + Base::ONE))).to_bytes() != want.to_repr(), "the leaf is ignored");
        ctx.events("near misses refused", 3);
        Ok(())
    });
    ctx.run("histories", ctx.n(160, 1200), |_, rng| history(ctx, rng));
}

fn history(ctx: &Ctx, rng: &mut Rng) -> Verdict {
    // A tree that already holds `start + 1` leaves, known only by its frontier.
    let start = start_position(rng);
    let mut m = MFrontier {
        pos: start,
        leaf: edge_base(rng),
        ommers: (0..start.count_ones()).map(|_| rand_base(rng)).collect(),
    };
    let mut f: Frontier<MerkleHashOrchard, 32> =
        Frontier::from_parts(Position::from(start), node(&m.leaf), m.ommers.iter().map(node).collect())
            .map_err(|_| "harness: frontier parts")
            .unwrap();
    same!(f.root().to_bytes(), m.root().to_repr(), "root of a frontier at position {:#x}", start);
    let mut tree: CommitmentTree<MerkleHashOrchard, 32> = CommitmentTree::from_frontier(&f);
    let mut kept: Vec<(IncrementalWitness<MerkleHashOrchard, 32>, u64, Base)> = vec![];
    let steps = rng.gen_range(3..9);
    ctx.sample("history", || format!("start {:#x}, {} appends", start, steps));
    for _ in 0..steps {
        if m.pos >= u32::MAX as u64 {
            break;
        }
        if kept.len() < 3 && rng.gen() {
            kept.push((IncrementalWitness::from_tree(tree.clone()), m.pos, m.leaf));
        }
        let x = edge_base(rng);
        m.append(x);
        ensure!(f.append(node(&x)), "append refused");
        ensure!(tree.append(node(&x)).is_ok(), "append refused");
        for (w, _, _) in kept.iter_mut() {
            ensure!(w.append(node(&x)).is_ok(), "witness append refused");
        }
        let root = m.root().to_repr();
        same!(f.root().to_bytes(), root, "frontier root after append at {:#x}", m.pos);
        same!(tree.root().to_bytes(), root, "tree root after append at {:#x}", m.pos);
        same!(Anchor::from(f.root()).to_bytes(), root, "anchor of the frontier");
        ctx.event("appends compared");
        ctx.distinct("root", &root);
        for (w, pos, x) in &kept {
            same!(w.root().to_bytes(), root, "witness root");
            let p: MerklePath = sut::<incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>>(w.path(), "path of a kept witness").into();
            same!(p.root(leaf(x)).to_bytes(), root, "path of the leaf at {:#x} with the tip at {:#x}", pos, m.pos);
            ensure!(p.root(leaf(&(*x + Base::ONE))).to_bytes() != root, "the path accepts another leaf");
            ctx.event("witness paths compared");
            ctx.event("near misses refused");
        }
        // The tip's own path, by the frontier.
        let p = f.witness(|a| Some(MerkleHashOrchard::empty_root(a.level()))).map_err(|_| "no witness".to_string())?;
        let p: MerklePath = sut::<incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>>(p, "path of the tip").into();
        same!(p.root(leaf(&x)).to_bytes(), root, "path of the tip at {:#x}", m.pos);
        ctx.event("witness paths compared");
    }
    Ok(())
}
