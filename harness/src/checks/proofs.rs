//! C01 honest bundles verify, C05 tampering is rejected, C08 signing histories, C09 batch
//! agreement, C23 transitions keep the effects.

use std::sync::{Mutex, OnceLock};

use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use halo2_proofs::plonk;
use orchard::{
    builder::{BuildError, BundleMetadata, BundleType, InProgress, MaybeSigned, PartiallyAuthorized, Unauthorized},
    bundle::{Authorized, BatchValidator, Flags},
    circuit::{Instance, ProvingKey, VerifyingKey},
    keys::SpendAuthorizingKey,
    primitives::redpallas::{self, SpendAuth},
    Bundle, Proof,
};
use pasta_curves::vesta;
use rand::{seq::SliceRandom, Rng as _, RngCore};

use crate::model::{self, Base, MEffects, Point};
use crate::mon::{sut, Ctx, Rng, Verdict};
use crate::world::*;
use crate::{ensure, same};

pub fn pk() -> &'static ProvingKey {
    static K: OnceLock<ProvingKey> = OnceLock::new();
    K.get_or_init(ProvingKey::build)
}

pub fn vk() -> &'static VerifyingKey {
    static K: OnceLock<VerifyingKey> = OnceLock::new();
    K.get_or_init(VerifyingKey::build)
}

pub type Proven = Bundle<InProgress<Proof, Unauthorized>, i64>;
pub type Partial = Bundle<InProgress<Proof, PartiallyAuthorized>, i64>;
pub type Auth = Bundle<Authorized, i64>;

/// The signature hash a transaction made of just this bundle would be signed with.
pub fn sighash_of(e: &MEffects) -> [u8; 32] {
    model::blake2b_256(b"orchard-mon-sigh", &[&e.txid_commitment()])
}

/// As above, but through the crate's own commitment, as a consumer would compute it.
pub fn crate_sighash<A: orchard::bundle::Authorization>(b: &Bundle<A, i64>) -> [u8; 32] {
    let c: [u8; 32] = b.commitment().into();
    model::blake2b_256(b"orchard-mon-sigh", &[&c])
}

pub fn auth_bytes(b: &Auth) -> [u8; 32] {
    b.authorizing_commitment().0.as_bytes().try_into().unwrap()
}

pub struct Made {
    pub sc: Scenario,
    pub meta: BundleMetadata,
    pub effects: MEffects,
    pub proven: Proven,
    pub auth: Auth,
    pub sighash: [u8; 32],
}

pub fn prove(sc: Scenario, rng: &mut Rng) -> Result<Made, String> {
    let api = if rng.gen() { Api::Builder } else { Api::Function };
    let (b, meta) = sut(sc.build(api, rng)?, "a bundle");
    let effects = meffects(&b);
    let proven: Proven = b
        .create_proof(pk(), &mut *rng)
        .map_err(|e| format!("proof creation for an honest bundle failed: {:?} ({})", e, sc.describe()))?;
    let sighash = sighash_of(&effects);
    let auth = proven
        .clone()
        .apply_signatures(&mut *rng, sighash, &sc.asks())
        .map_err(|e| format!("signing an honest bundle failed: {:?} ({})", e, sc.describe()))?;
    Ok(Made { sc, meta, effects, proven, auth, sighash })
}

/// The verdict of the crate's individual checks.
pub fn proof_ok(b: &Auth) -> bool {
    b.verify_proof(vk()).is_ok()
}

pub fn valid(b: &Auth, sighash: &[u8; 32]) -> bool {
    crate_sigs_ok(b, sighash) && proof_ok(b)
}

pub fn batch_ok(items: &[(&Auth, [u8; 32])], rng: &mut Rng) -> bool {
    let mut v = BatchValidator::new();
    for (b, s) in items {
        v.add_bundle(b, *s);
    }
    v.validate(vk(), &mut *rng)
}

/// Proof verification through the pipeline API, from raw parts.
pub fn instances_of(e: &MEffects) -> Vec<Instance> {
    e.actions
        .iter()
        .map(|a| {
            Instance::from_parts(
                sut(orchard::Anchor::from_bytes(e.anchor), "anchor"),
                sut(orchard::value::ValueCommitment::from_bytes(&a.cv), "cv"),
                sut(orchard::note::Nullifier::from_bytes(&a.nf), "nf"),
                sut(redpallas::VerificationKey::try_from(a.rk).ok(), "rk"),
                sut(orchard::note::ExtractedNoteCommitment::from_bytes(&a.cmx), "cmx"),
                e.flags & 1 != 0,
                e.flags & 2 != 0,
            )
        })
        .collect()
}

fn small(i: u64) -> GenOpts {
    let force_type = match i % 8 {
        1 => Some(BundleType::Coinbase),
        3 => Some(BundleType::Transactional { flags: Flags::SPENDS_DISABLED, bundle_required: true }),
        5 => Some(BundleType::Transactional { flags: Flags::OUTPUTS_DISABLED, bundle_required: true }),
        _ => Some(BundleType::DEFAULT),
    };
    GenOpts { max_spends: 3, max_outs: 3, force_type, ..Default::default() }
}

/// Honest requests at the corners of what a request can be. The values, scopes and positions
/// are fixed by the case; keys, diversifiers and randomness are not.
fn corner(i: u64, rng: &mut Rng) -> Scenario {
    use model::MScope::{External as E, Internal as I};
    let t = BundleType::DEFAULT;
    let flags = |f| BundleType::Transactional { flags: f, bundle_required: false };
    match i {
        // One key owning many inputs at extreme positions, zero-valued ones among them, in both
        // scopes, and a second owner; more inputs than any small buffer.
        0 => compose(
            rng,
            t,
            2,
            &[
                (0, E, 0, u32::MAX),
                (0, I, 0, 0),
                (0, I, 5, 1 << 31),
                (0, E, 1, (1 << 31) - 1),
                (0, I, u32::MAX as u64, u32::MAX - 1),
                (1, I, 0, 1),
                (0, E, 1 << 52, 2),
                (0, E, 1 << 40, 0xaaaa_aaaa),
                (1, E, 7, 0x5555_5555),
                (0, I, 9, 3),
            ],
            &[(0, I, 0), (1, E, u32::MAX as u64 + 1)],
        ),
        // The largest value in one note, spent into itself, with change of nothing.
        1 => compose(rng, t, 1, &[(0, I, u64::MAX, 0x8000_0001)], &[(0, E, u64::MAX), (0, I, 0)]),
        // The extreme value balances, both ways.
        2 => compose(rng, t, 1, &[(0, E, i64::MAX as u64, 1 << 30)], &[]),
        3 => compose(rng, t, 2, &[], &[(0, E, 1 << 63), (1, I, 0)]),
        4 => compose(rng, flags(Flags::OUTPUTS_DISABLED), 2, &[(0, I, 1, 6), (1, I, 0, 7), (0, E, 0, 8)], &[]),
        5 => compose(rng, flags(Flags::SPENDS_DISABLED), 1, &[], &[(0, E, 0), (0, I, 1), (0, E, 2)]),
        6 => compose(rng, BundleType::Coinbase, 1, &[], &[(0, I, 0)]),
        7 => {
            let mut sc = compose(rng, BundleType::Transactional { flags: flags_of(false, false), bundle_required: true }, 1, &[], &[]);
            sc.anchor = rand_base(rng);
            sc
        }
        // More outputs than inputs, by far.
        8 => compose(rng, t, 3, &[(0, I, 0, 12)], &(0..9).map(|k| (k % 3, if k % 2 == 0 { E } else { I }, k as u64)).collect::<Vec<_>>()),
        // An action that moves more than 2^63, whichever way they are paired: in, and out.
        9 | 10 => {
            let q = [1u64 << 62, 1 << 62, 1 << 62, (1 << 62) - 1];
            let spends: Vec<_> = (0..4).map(|k| (k % 2, [E, I][k / 2], q[k], 40 + k as u32)).collect();
            let outs: Vec<_> = (0..4).map(|k| (k % 2, [I, E][k / 2], q[k])).collect();
            if i == 9 {
                compose(rng, t, 2, &[(0, E, u64::MAX, 5)], &outs)
            } else {
                compose(rng, t, 2, &spends, &[(1, I, u64::MAX)])
            }
        }
        _ => crowd(rng, 5 + (i as usize * 7) % 13, (i as usize * 5) % 17, 1 + i as usize % 3),
    }
}

pub fn c01(ctx: &Ctx) {
    ctx.rule(
        "random honest build requests over all bundle types, 1-4 actions, edge-heavy values and tree \
         positions, both build APIs, and directed corner requests (up to 10 actions in the quick tier, \
         17 in the thorough one), really proven and signed; distinct by request shape",
    );
    ctx.require("bundles proven", 4);
    ctx.require("batches", 2);
    let pool: Mutex<Vec<(Auth, [u8; 32])>> = Mutex::new(vec![]);
    let corners = ctx.n(11, 42);
    ctx.run_on(4, "honest", corners + ctx.n(7, 300), |i, rng| {
        let sc = if i < corners {
            corner(i, rng)
        } else if i % 8 == 7 {
            // Nothing requested: an all-dummy bundle.
            let mut sc = scenario(rng, &small(0));
            sc.spends.clear();
            sc.outs.clear();
            sc.bundle_type = BundleType::Transactional {
                flags: *pick(rng, &[Flags::ENABLED, Flags::SPENDS_DISABLED, Flags::OUTPUTS_DISABLED, flags_of(false, false)]),
                bundle_required: true,
            };
            sc
        } else {
            let mut o = small(i);
            if i % 8 == 6 {
                o.max_outs = 4;
                o.max_spends = 4;
            }
            scenario(rng, &o)
        };
        ctx.distinct("request", &sc.shape());
        ctx.sample("request", || sc.describe());
        let m = prove(sc, rng)?;
        let d = m.sc.describe();
        ctx.event("bundles proven");
        ctx.events("actions proven", m.effects.actions.len() as u64);
        same!(m.auth.authorization().proof().as_ref().len(), 2720 + 2272 * m.effects.actions.len(), "proof length for {}", d);
        same!(meffects(&m.auth), m.effects, "effects after authorization");
        ensure!(m.auth.verify_proof(vk()).is_ok(), "the proof of an honest bundle does not verify: {}", d);
        ensure!(
            m.auth.authorization().proof().verify(vk(), &instances_of(&m.effects)).is_ok(),
            "the proof of an honest bundle does not verify through Instance::from_parts: {}",
            d
        );
        ensure!(crate_sigs_ok(&m.auth, &m.sighash), "a signature of an honest bundle does not verify: {}", d);
        model_sigs_ok(&m.auth, &m.sighash)?;
        same!(crate_sighash(&m.auth), m.sighash, "signature hash recomputed by a verifier");
        let raw = Raw::of(&m.auth);
        let again = sut(raw.assemble(), "an honest bundle's own encoding");
        ensure!(valid(&again, &m.sighash), "an honest bundle re-read from its encoding does not verify: {}", d);
        ensure!(batch_ok(&[(&m.auth, m.sighash)], rng), "an honest bundle does not verify as a batch of one: {}", d);
        // Signing the same proven bundle for another hash.
        let other: [u8; 32] = *pick(rng, &[[0; 32], [0xff; 32], [7; 32]]);
        let b2 = m
            .proven
            .clone()
            .apply_signatures(&mut *rng, other, &m.sc.asks())
            .map_err(|e| format!("signing failed: {:?}", e))?;
        ensure!(valid(&b2, &other), "an honest bundle does not verify for sighash {:?}", other[0]);
        // Growing batches of whatever has been built so far, by any thread.
        let items: Vec<(Auth, [u8; 32])> = {
            let mut p = pool.lock().unwrap();
            p.push((m.auth.clone(), m.sighash));
            p.push((b2, other));
            p.clone()
        };
        let mut items: Vec<(&Auth, [u8; 32])> = items.iter().map(|(b, s)| (b, *s)).collect();
        items.shuffle(rng);
        items.truncate(8);
        ensure!(batch_ok(&items, rng), "a batch of {} honest bundles does not verify", items.len());
        ctx.event("batches");
        Ok(())
    });
}

/// Changes one thing about a bundle. Returns what was changed and whether the change is one the
/// proof and signatures must catch even under an unchanged sighash.
pub fn tamper(rng: &mut Rng, r: &mut Raw, others: &[Raw]) -> (String, bool) {
    let n = r.effects.actions.len();
    let i = rng.gen_range(0..n);
    let o = &others[rng.gen_range(0..others.len())];
    let j = rng.gen_range(0..o.effects.actions.len());
    let k = rng.gen_range(0..n);
    match rng.gen_range(0..34) {
        0 => {
            let x = model::base(&r.effects.actions[i].nf).unwrap() + pick(rng, &[Base::ONE, -Base::ONE]);
            r.effects.actions[i].nf = x.to_repr();
            ("nullifier off by one".into(), true)
        }
        1 => {
            r.effects.actions[i].nf = rand_base(rng).to_repr();
            ("random nullifier".into(), true)
        }
        2 => {
            r.effects.actions[i].cmx = rand_base(rng).to_repr();
            ("random cmx".into(), true)
        }
        3 => {
            let x = model::base(&r.effects.actions[i].cmx).unwrap() + Base::ONE;
            r.effects.actions[i].cmx = x.to_repr();
            ("cmx off by one".into(), true)
        }
        4 => {
            r.effects.actions[i].cv[31] ^= 0x80;
            ("negated value commitment".into(), true)
        }
        5 => {
            let p = model::point(&r.effects.actions[i].cv).unwrap() + model::value_base();
            r.effects.actions[i].cv = p.to_bytes();
            ("value commitment plus one unit".into(), true)
        }
        6 => {
            // Value printed out of nothing, with the balance adjusted to match.
            let p = model::point(&r.effects.actions[i].cv).unwrap() + model::value_base();
            r.effects.actions[i].cv = p.to_bytes();
            r.effects.balance = r.effects.balance.wrapping_add(1);
            ("value commitment and balance both plus one".into(), true)
        }
        7 => {
            // Move value between two actions.
            if n < 2 {
                return tamper(rng, r, others);
            }
            let (a, b) = (0, 1 + rng.gen_range(0..n - 1));
            let d = model::value_base() * model::Scalar::from(rng.gen_range(1..1000u64));
            let p = model::point(&r.effects.actions[a].cv).unwrap() + d;
            let q = model::point(&r.effects.actions[b].cv).unwrap() - d;
            r.effects.actions[a].cv = p.to_bytes();
            r.effects.actions[b].cv = q.to_bytes();
            ("value moved between two commitments".into(), true)
        }
        8 => {
            r.effects.actions[i].cv = [0; 32];
            ("identity value commitment".into(), true)
        }
        9 => {
            r.effects.actions[i].rk[31] ^= 0x80;
            ("negated rk".into(), true)
        }
        10 => {
            // A key the attacker controls, with a signature it made itself.
            let sk = rand_scalar(rng);
            let rk = (model::spend_auth_base() * sk).to_bytes();
            r.effects.actions[i].rk = rk;
            let sh = sighash_of(&r.effects);
            r.sigs[i] = model::redpallas_sign(&model::spend_auth_base(), &sk, &rand_scalar(rng), &sh);
            ("attacker's rk and signature".into(), true)
        }
        11 => {
            r.effects.flags ^= 1;
            ("enableSpends flipped".into(), true)
        }
        12 => {
            r.effects.flags ^= 2;
            ("enableOutputs flipped".into(), true)
        }
        13 => {
            r.effects.flags ^= 3;
            ("both flags flipped".into(), true)
        }
        14 => {
            let d = 1i64 << rng.gen_range(0..63);
            r.effects.balance = r.effects.balance.wrapping_add(d);
            (format!("balance plus {}", d), true)
        }
        15 => {
            if r.effects.balance == 0 || r.effects.balance == i64::MIN {
                return tamper(rng, r, others);
            }
            r.effects.balance = -r.effects.balance;
            ("negated balance".into(), true)
        }
        16 => {
            // With only zero-valued or dummy spends the anchor still is a public input.
            r.effects.anchor = rand_base(rng).to_repr();
            ("another anchor".into(), true)
        }
        17 => {
            let x = model::base(&r.effects.anchor).unwrap() + Base::ONE;
            r.effects.anchor = x.to_repr();
            ("anchor off by one".into(), true)
        }
        18 => {
            r.effects.actions[i].epk[rng.gen_range(0..32)] ^= 1 << rng.gen_range(0..8);
            ("epk bit".into(), false)
        }
        19 => {
            let b = *pick(rng, &[0usize, 51, 52, 563, 564, 579]);
            let b = if rng.gen() { b } else { rng.gen_range(0..580) };
            r.effects.actions[i].enc[b] ^= 1 << rng.gen_range(0..8);
            (format!("enc byte {}", b), false)
        }
        20 => {
            let b = rng.gen_range(0..80);
            r.effects.actions[i].out[b] ^= 1 << rng.gen_range(0..8);
            (format!("out byte {}", b), false)
        }
        21 => {
            let x = &o.effects.actions[j];
            if x.nf == r.effects.actions[i].nf {
                return tamper(rng, r, others);
            }
            let x = x.clone();
            r.effects.actions[i] = x;
            r.sigs[i] = o.sigs[j];
            ("action of another bundle spliced in".into(), true)
        }
        22 => {
            if i == k {
                return tamper(rng, r, others);
            }
            r.effects.actions.swap(i, k);
            r.sigs.swap(i, k);
            ("actions reordered".into(), true)
        }
        23 => {
            if n < 2 {
                return tamper(rng, r, others);
            }
            r.effects.actions.remove(i);
            r.sigs.remove(i);
            ("action dropped".into(), true)
        }
        24 => {
            let a = r.effects.actions[i].clone();
            r.effects.actions.push(a);
            let s = r.sigs[i];
            r.sigs.push(s);
            ("action duplicated".into(), true)
        }
        25 => {
            let b = rng.gen_range(0..64);
            let m = 1 << rng.gen_range(0..8);
            r.sigs[i][b] ^= m;
            (format!("spend signature byte {} ^ {}", b, m), true)
        }
        26 => {
            let b = rng.gen_range(0..64);
            let m = 1 << rng.gen_range(0..8);
            r.binding[b] ^= m;
            (format!("binding signature byte {} ^ {}", b, m), true)
        }
        27 => {
            if i == k {
                return tamper(rng, r, others);
            }
            let (x, y) = (r.sigs[i], r.sigs[k]);
            r.sigs[i] = y;
            r.sigs[k] = x;
            ("spend signatures swapped".into(), true)
        }
        28 => {
            if o.binding == r.binding {
                return tamper(rng, r, others);
            }
            r.binding = o.binding;
            ("binding signature of another bundle".into(), true)
        }
        29 => {
            let len = r.proof.len();
            let b = if rng.gen() { rng.gen_range(0..len) } else { len - 1 - rng.gen_range(0..64) };
            let m = 1 << rng.gen_range(0..8);
            r.proof[b] ^= m;
            (format!("proof byte {} of {} ^ {}", b, len, m), true)
        }
        30 => {
            let len = r.proof.len();
            let cut = *pick(rng, &[1usize, 31, 32, 33, 64, len / 2, len]);
            r.proof.truncate(len - cut);
            (format!("proof cut by {}", cut), true)
        }
        31 => {
            if o.proof == r.proof {
                return tamper(rng, r, others);
            }
            r.proof = o.proof.clone();
            ("proof of another bundle".into(), true)
        }
        32 => {
            let z = if rng.gen() { 0 } else { 0xff };
            r.proof.iter_mut().for_each(|b| *b = z);
            ("constant proof".into(), true)
        }
        _ => {
            // A scalar or point in the proof replaced by its successor: 32-byte aligned pieces.
            let w = rng.gen_range(0..r.proof.len() / 32) * 32;
            let new: [u8; 32] = if rng.gen() { rand_scalar(rng).to_repr() } else { Point::random(&mut *rng).to_bytes() };
            r.proof[w..w + 32].copy_from_slice(&new);
            (format!("proof word {} replaced", w / 32), true)
        }
    }
}

pub fn base_pool(ctx: &Ctx, n: u64) -> Vec<Made> {
    let out: Mutex<Vec<(u64, Made)>> = Mutex::new(vec![]);
    let make = |i: u64, rng: &mut Rng| -> Verdict {
        let sc = loop {
            let sc = scenario(rng, &small(if i == 2 { 1 } else if i == 3 { 5 } else { 0 }));
            // At least one real spend and output in the first, so that everything is exercised.
            if i != 0 || (sc.spends.iter().any(|s| s.note.value().inner() > 0) && !sc.outs.is_empty()) {
                break sc;
            }
        };
        let m = prove(sc, rng)?;
        ensure!(valid(&m.auth, &m.sighash), "an honest bundle does not verify: {}", m.sc.describe());
        ctx.event("base bundles proven");
        out.lock().unwrap().push((i, m));
        Ok(())
    };
    // Every replay needs the base bundles, so they are built outside the replay filter.
    ctx.setup(4, "base", n, make);
    let mut v = out.into_inner().unwrap();
    v.sort_by_key(|(i, _)| *i);
    v.into_iter().map(|(_, m)| m).collect()
}

pub fn c05(ctx: &Ctx) {
    ctx.rule(
        "valid bundles with one thing changed (34 kinds: each effecting field, each signature, the \
         proof, splices across bundles, reordering, sighash); every change must fail verification, \
         and every change outside the ciphertexts must fail even if the sighash is kept. Distinct by \
         what was changed.",
    );
    ctx.require("rejected tamperings", 200);
    ctx.require("tampering", 25);
    ctx.assume("Bytes appended to a proof are ignored by the proof system; the transaction encoding fixes the proof length, so they are not generated as tampering.");
    let pool = base_pool(ctx, ctx.n(4, 10));
    if pool.len() < 2 {
        return;
    }
    let raws: Vec<Raw> = pool.iter().map(|m| Raw::of(&m.auth)).collect();
    ctx.run("tamper", ctx.n(420, 12000), |i, rng| {
        let b = (i as usize) % pool.len();
        let orig = &raws[b];
        let mut r = orig.clone();
        let (what, always) = tamper(rng, &mut r, &raws);
        ctx.distinct("tampering", what.split(|c: char| c.is_ascii_digit()).next().unwrap().as_bytes());
        ctx.distinct("exact change", what.as_bytes());
        ctx.sample("tampering", || what.clone());
        let t = match r.assemble() {
            Some(t) => t,
            None => {
                ctx.event("rejected when parsed");
                return Ok(());
            }
        };
        // Parsing must be faithful: what the verifier looks at is what was sent.
        same!(meffects(&t), r.effects, "effects as parsed");
        let sh = crate_sighash(&t);
        if r.effects != orig.effects {
            ensure!(sh != pool[b].sighash, "a change of the bundle's effects ({}) left its commitment unchanged", what);
        }
        let keep = pool[b].sighash;
        let (s1, s2) = (crate_sigs_ok(&t, &sh), crate_sigs_ok(&t, &keep));
        let p = if s1 || (always && s2) { proof_ok(&t) } else { false };
        ensure!(!(s1 && p), "tampered bundle verifies: {}", what);
        ensure!(!(always && s2 && p), "tampered bundle verifies under the original sighash: {}", what);
        ctx.event("rejected tamperings");
        if p {
            ctx.event("rejected by signatures only");
        } else if s1 || s2 {
            ctx.event("rejected by the proof");
        }
        if i % 8 == 0 {
            ensure!(!batch_ok(&[(&t, sh)], rng), "tampered bundle passes batch validation: {}", what);
            ctx.event("rejected in batch");
        }
        Ok(())
    });
    // Many more changes, watched at the commitments only.
    let originals: Vec<([u8; 32], [u8; 32])> = pool.iter().map(|m| (m.auth.commitment().into(), auth_bytes(&m.auth))).collect();
    ctx.run_seq("originals", 1, |_, _| {
        for (m, o) in pool.iter().zip(&originals) {
            same!(o.0, m.effects.txid_commitment(), "commitment of a valid bundle");
        }
        Ok(())
    });
    ctx.run("commitments", ctx.n(3000, 60000), |i, rng| {
        let b = (i as usize) % pool.len();
        let mut r = raws[b].clone();
        let what = if i % 2 == 0 {
            // Any one byte of the ciphertexts.
            let k = rng.gen_range(0..r.effects.actions.len());
            let a = &mut r.effects.actions[k];
            let at = (i as usize / 2 * 7) % (580 + 80 + 32);
            let m = 1 << rng.gen_range(0..8);
            match at {
                0..=579 => a.enc[at] ^= m,
                580..=659 => a.out[at - 580] ^= m,
                _ => a.epk[at - 660] ^= m,
            }
            format!("ciphertext byte {}", at)
        } else {
            tamper(rng, &mut r, &raws).0
        };
        let t = match r.assemble() {
            Some(t) => t,
            None => return Ok(()),
        };
        let c: [u8; 32] = t.commitment().into();
        if r.effects != raws[b].effects {
            ensure!(c != originals[b].0, "a change of the bundle's effects ({}) left its commitment unchanged", what);
        } else {
            same!(c, originals[b].0, "commitment after a change of authorizing data ({})", what);
            ensure!(auth_bytes(&t) != originals[b].1, "a change of authorizing data ({}) left the authorizing commitment unchanged", what);
        }
        ctx.event("changes seen in the commitments");
        ctx.distinct("exact change", what.as_bytes());
        Ok(())
    });
    // The proof alone binds every public input.
    ctx.run("public inputs", ctx.n(60, 1500), |i, rng| {
        let b = (i as usize) % pool.len();
        let orig = &raws[b];
        let mut e = orig.effects.clone();
        let n = e.actions.len();
        let k = rng.gen_range(0..n);
        let f = rng.gen_range(0..9);
        let what = match f {
            0 => { e.anchor = rand_base(rng).to_repr(); "anchor" }
            1 => { e.actions[k].cv = Point::random(&mut *rng).to_bytes(); "cv" }
            2 => { e.actions[k].cv[31] ^= 0x80; "cv sign" }
            3 => { e.actions[k].nf = rand_base(rng).to_repr(); "nf" }
            4 => { e.actions[k].rk = Point::random(&mut *rng).to_bytes(); "rk" }
            5 => { e.actions[k].rk[31] ^= 0x80; "rk sign" }
            6 => { e.actions[k].cmx = rand_base(rng).to_repr(); "cmx" }
            7 => { e.flags ^= 1; "enable_spend" }
            _ => { e.flags ^= 2; "enable_output" }
        };
        let mut inst = instances_of(&orig.effects);
        let alt = instances_of(&e);
        // Only one action's instance is replaced, even for the bundle-wide inputs.
        inst[k] = alt[k].clone();
        ensure!(
            pool[b].auth.authorization().proof().verify(vk(), &inst).is_err(),
            "a proof verifies with another {} for action {} of {}",
            what,
            k,
            n
        );
        ctx.event(&format!("public input bound: {}", what));
        ctx.distinct("public input", what.as_bytes());
        Ok(())
    });
    // Signatures bind the sighash bit by bit.
    ctx.run("sighash", ctx.n(256, 256), |i, _| {
        let m = &pool[i as usize % pool.len()];
        let mut sh = m.sighash;
        sh[i as usize / 8] ^= 1 << (i % 8);
        for (k, a) in m.auth.actions().iter().enumerate() {
            ensure!(a.rk().verify(&sh, a.authorization()).is_err(), "spend signature {} verifies for another sighash (bit {})", k, i);
        }
        ensure!(
            m.auth.binding_validating_key().verify(&sh, m.auth.authorization().binding_signature()).is_err(),
            "binding signature verifies for another sighash (bit {})",
            i
        );
        ctx.event("sighash bits");
        Ok(())
    });
}

// ---------------------------------------------------------------- C08

type Sig = redpallas::Signature<SpendAuth>;

/// What the model knows about the signing state of each action.
#[derive(Clone, Debug)]
struct SignState {
    owner: Vec<Option<usize>>, // wallet, None for padding
    signed: Vec<bool>,
}

fn owners(sc: &Scenario, meta: &BundleMetadata, n: usize) -> Result<Vec<Option<usize>>, String> {
    let mut owner = vec![None; n];
    for (k, s) in sc.spends.iter().enumerate() {
        let i: usize = sut(meta.spend_action_index(k), "spend index");
        ensure!(i < n, "spend index out of range");
        owner[i] = Some(s.wallet);
    }
    Ok(owner)
}

/// Compares the signing state of every action with the expected one, and checks every signature.
fn watch_signing<P: std::fmt::Debug>(
    b: &Bundle<InProgress<P, PartiallyAuthorized>, i64>,
    e: &MEffects,
    done: &[bool],
    sh: &[u8; 32],
    what: &str,
) -> Verdict {
    ensure!(meffects(b) == *e, "{} changed the effects", what);
    for (k, a) in b.actions().iter().enumerate() {
        match a.authorization() {
            MaybeSigned::Signature(s) => {
                ensure!(done[k], "action {} has a signature nobody asked for after {}", k, what);
                let sig: [u8; 64] = s.into();
                ensure!(
                    model::redpallas_verify(&model::spend_auth_base(), &e.actions[k].rk, sh, &sig),
                    "the signature of action {} does not verify after {}",
                    k,
                    what
                );
            }
            MaybeSigned::SigningMetadata(_) => ensure!(!done[k], "action {} is unsigned after {}", k, what),
        }
    }
    Ok(())
}

fn sign_states(m: &Made) -> Result<SignState, String> {
    let n = m.effects.actions.len();
    let owner = owners(&m.sc, &m.meta, n)?;
    let signed = owner.iter().map(|o| o.is_none()).collect();
    Ok(SignState { owner, signed })
}

pub fn c08(ctx: &Ctx) {
    ctx.rule(
        "random histories of prepare / sign / append_signatures / finalize over proven bundles with \
         several owners and padding, with right, foreign, repeated, stale and malformed keys and \
         signatures; each answer is compared with a state machine. Distinct by history.",
    );
    for e in ["finalized", "refused: missing", "refused: invalid", "sign", "append ok"] {
        ctx.require(e, 20);
    }
    ctx.require("refused: duplicate", 1);
    ctx.require("history", 100);
    let out: Mutex<Vec<Made>> = Mutex::new(vec![]);
    ctx.setup(3, "base", ctx.n(6, 16), |i, rng| {
        let sc = if i == 0 { crowd(rng, 10, 2, 2) } else { loop {
            let sc = scenario(rng, &GenOpts { max_spends: 4, max_outs: 3, force_type: Some(BundleType::DEFAULT), ..Default::default() });
            let owners: std::collections::BTreeSet<_> = sc.spends.iter().map(|s| s.wallet).collect();
            let ok = match i % 3 {
                0 => owners.len() >= 2 && sc.spends.len() >= 3,
                1 => sc.spends.len() == 1 && sc.outs.len() >= 2,
                _ => sc.spends.iter().any(|s| s.note.value().inner() == 0) && sc.spends.len() >= 2,
            };
            if ok {
                break sc;
            }
        }};
        let m = prove(sc, rng)?;
        out.lock().unwrap().push(m);
        Ok(())
    });
    let pool = out.into_inner().unwrap();
    if pool.is_empty() {
        return;
    }
    ctx.run("histories", ctx.n(600, 12000), |_, rng| {
        let m = &pool[rng.gen_range(0..pool.len())];
        let sh: [u8; 32] = if rng.gen() { m.sighash } else { bytes(rng) };
        let sh2: [u8; 32] = bytes(rng);
        let mut st = sign_states(m)?;
        let n = st.owner.len();
        // External signatures, as another device holding the same keys would compute them.
        let ext = |s: [u8; 32], rng: &mut Rng| -> Result<Vec<Sig>, String> {
            let a = m
                .proven
                .clone()
                .apply_signatures(&mut *rng, s, &m.sc.asks())
                .map_err(|e| format!("apply_signatures with all keys failed: {:?}", e))?;
            Ok(a.actions().iter().map(|a| a.authorization().clone()).collect())
        };
        let good = ext(sh, rng)?;
        let stale = ext(sh2, rng)?;
        let mut log = String::new();
        let mut cur: Partial = m.proven.clone().prepare(&mut *rng, sh);
        for _ in 0..rng.gen_range(0..8) {
            match rng.gen_range(0..6) {
                0 | 1 => {
                    let w = rng.gen_range(0..m.sc.wallets.len());
                    cur = cur.sign(&mut *rng, &m.sc.wallets[w].ask);
                    log += &format!("sign({});", w);
                    for k in 0..n {
                        if st.owner[k] == Some(w) {
                            st.signed[k] = true;
                        }
                    }
                    ctx.event("sign");
                }
                2 => {
                    let stranger = Wallet::random(rng).ask; cur = cur.sign(&mut *rng, &stranger);
                    log += "sign(stranger);";
                }
                _ => {
                    // A list of external signatures, usually all acceptable.
                    let mut list = vec![];
                    let mut want: Result<(), ()> = Ok(());
                    let mut next = st.clone();
                    for _ in 0..rng.gen_range(0..3) {
                        let k = rng.gen_range(0..n);
                        let todo: Vec<usize> = (0..n).filter(|k| !next.signed[*k]).collect();
                        let (sig, for_action, name) = match rng.gen_range(0..10) {
                            0 => (stale[k].clone(), None, "stale".to_string()),
                            1 => (Sig::from(bytes::<64>(rng)), None, "random".into()),
                            2 => {
                                let mut b: [u8; 64] = (&good[k]).into();
                                b[rng.gen_range(0..64)] ^= 1 << rng.gen_range(0..8);
                                (Sig::from(b), None, "flipped".into())
                            }
                            3 => (good[k].clone(), Some(k), format!("any {}", k)),
                            _ => match todo.choose(rng) {
                                Some(k) => (good[*k].clone(), Some(*k), format!("{}", k)),
                                None => (good[k].clone(), Some(k), format!("again {}", k)),
                            },
                        };
                        log += &format!("append({});", name);
                        list.push(sig);
                        if want.is_ok() {
                            match for_action {
                                Some(k) if !next.signed[k] => next.signed[k] = true,
                                _ => want = Err(()),
                            }
                        }
                    }
                    match (cur.append_signatures(&list), want) {
                        (Ok(b), Ok(())) => {
                            cur = b;
                            st = next;
                            ctx.event("append ok");
                        }
                        (Err(BuildError::InvalidExternalSignature), Err(())) => {
                            ctx.event("refused: invalid");
                            ctx.distinct("history", log.as_bytes());
                            return Ok(());
                        }
                        (Ok(_), Err(())) => return Err(format!("an unacceptable signature was appended: {}", log)),
                        (Err(e), w) => return Err(format!("append_signatures gave {:?}, expected {:?}: {}", e, w, log)),
                    }
                }
            }
        }
        log += "finalize";
        ctx.distinct("history", log.as_bytes());
        ctx.sample("history", || format!("owners {:?}: {}", st.owner, log));
        let complete = st.signed.iter().all(|s| *s);
        match cur.finalize() {
            Ok(b) => {
                ensure!(complete, "finalized with signatures missing for {:?}: {}", st, log);
                model_sigs_ok(&b, &sh).map_err(|e| format!("{} after {}", e, log))?;
                ensure!(crate_sigs_ok(&b, &sh), "finalized bundle's signatures do not verify: {}", log);
                same!(meffects(&b), m.effects, "effects after {}", log);
                ensure!(
                    b.authorization().proof().as_ref() == m.auth.authorization().proof().as_ref(),
                    "the proof changed while signing"
                );
                ctx.event("finalized");
            }
            Err(BuildError::MissingSignatures) => {
                ensure!(!complete, "a fully signed bundle was refused: {:?}: {}", st, log);
                ctx.event("refused: missing");
            }
            Err(e) => return Err(format!("finalize gave {:?}: {}", e, log)),
        }
        Ok(())
    });
    // apply_signatures with every subset of the keys, plus strangers.
    ctx.run("subsets", ctx.n(60, 600), |i, rng| {
        let m = &pool[i as usize % pool.len()];
        let mut keys: Vec<SpendAuthorizingKey> = vec![];
        let mut have = vec![false; m.sc.wallets.len()];
        for (w, wal) in m.sc.wallets.iter().enumerate() {
            if rng.gen_range(0..3) > 0 {
                keys.push(wal.ask.clone());
                have[w] = true;
            }
        }
        if rng.gen() {
            keys.push(Wallet::random(rng).ask);
        }
        keys.shuffle(rng);
        let complete = m.sc.spends.iter().all(|s| have[s.wallet]);
        let sh: [u8; 32] = bytes(rng);
        match m.proven.clone().apply_signatures(&mut *rng, sh, &keys) {
            Ok(b) => {
                ensure!(complete, "authorized without the keys of {:?}", m.sc.spends.iter().map(|s| s.wallet).collect::<Vec<_>>());
                model_sigs_ok(&b, &sh)?;
                ctx.event("finalized");
            }
            Err(BuildError::MissingSignatures) => {
                ensure!(!complete, "all keys given, still missing signatures");
                ctx.event("refused: missing");
            }
            Err(e) => return Err(format!("apply_signatures gave {:?}", e)),
        }
        Ok(())
    });
    // Large bundles, watched while they are still unproven: the state of every action is public.
    ctx.run("crowds", ctx.n(24, 300), |i, rng| {
        let ns = if i % 3 == 0 { rng.gen_range(25..40) } else { rng.gen_range(5..24) };
        let no = rng.gen_range(0..6);
        let nw = rng.gen_range(1..4);
        let sc = crowd(rng, ns, no, nw);
        let api = if i % 2 == 0 { Api::Builder } else { Api::Function };
        let (b, meta) = sut(sc.build(api, rng)?, "a bundle");
        let e = meffects(&b);
        let n = e.actions.len();
        let st = owners(&sc, &meta, n)?;
        let sh: [u8; 32] = bytes(rng);
        let mut done: Vec<bool> = st.iter().map(|o| o.is_none()).collect();
        let mut cur = b.prepare(&mut *rng, sh);
        watch_signing(&cur, &e, &done, &sh, "prepare")?;
        let mut order: Vec<usize> = (0..nw).chain(0..nw).collect();
        order.shuffle(rng);
        for w in order {
            cur = cur.sign(&mut *rng, &sc.wallets[w].ask);
            for k in 0..n {
                if st[k] == Some(w) {
                    done[k] = true;
                }
            }
            watch_signing(&cur, &e, &done, &sh, &format!("sign by owner {} of {} actions", w, n))?;
            ctx.event("sign");
        }
        ensure!(done.iter().all(|d| *d), "harness: not all signed");
        ctx.events("actions signed in large bundles", n as u64);
        ctx.distinct("crowd", &sc.shape());
        // The same bundle again, with signatures made elsewhere, appended one by one or together.
        let sigs: Vec<Sig> = cur
            .actions()
            .iter()
            .map(|a| match a.authorization() {
                MaybeSigned::Signature(s) => s.clone(),
                _ => unreachable!(),
            })
            .collect();
        let list: Vec<usize> = (0..n).filter(|k| st[*k].is_some()).collect();
        let (b2, meta2) = sut(sc.build(api, rng)?, "a bundle");
        let e2 = meffects(&b2);
        let st2 = owners(&sc, &meta2, e2.actions.len())?;
        let p2 = b2.clone().prepare(&mut *rng, sh);
        // A signature for another bundle of the same wallets fits nothing here.
        if let Some(k) = list.first() {
            match p2.append_signatures(&sigs[*k..=*k]) {
                Err(BuildError::InvalidExternalSignature) => ctx.event("refused: invalid"),
                other => return Err(format!("a signature for another bundle gave {:?}", other.map(|_| ()))),
            }
        }
        let mut signer = b2.clone().prepare(&mut *rng, sh);
        for w in 0..nw {
            signer = signer.sign(&mut *rng, &sc.wallets[w].ask);
        }
        let sigs2: Vec<Sig> = signer
            .actions()
            .iter()
            .map(|a| match a.authorization() {
                MaybeSigned::Signature(s) => Ok(s.clone()),
                _ => Err("an action stayed unsigned after every owner signed".to_string()),
            })
            .collect::<Result<_, _>>()?;
        let mut todo: Vec<usize> = (0..e2.actions.len()).filter(|k| st2[*k].is_some()).collect();
        todo.shuffle(rng);
        let cut = rng.gen_range(0..=todo.len());
        let mut cur = b2.prepare(&mut *rng, sh);
        let mut done: Vec<bool> = st2.iter().map(|o| o.is_none()).collect();
        for part in [&todo[..cut], &todo[cut..]] {
            let list: Vec<Sig> = part.iter().map(|k| sigs2[*k].clone()).collect();
            cur = cur
                .append_signatures(&list)
                .map_err(|e| format!("appending {} valid signatures of {} actions failed: {:?}", list.len(), e2.actions.len(), e))?;
            for k in part {
                done[*k] = true;
            }
            watch_signing(&cur, &e2, &done, &sh, &format!("append of {} signatures", list.len()))?;
            ctx.event("append ok");
        }
        Ok(())
    });
    // Two inputs with the same randomized key: one signature cannot tell them apart.
    ctx.run("same rk", ctx.n(2, 8), |i, rng| {
        let w = Wallet::random(rng);
        let (a1, a2) = (w.address(model::MScope::External, rand_index(rng)), w.address(model::MScope::Internal, rand_index(rng)));
        let notes = [rand_note(rng, a1, 10 + i), rand_note(rng, a2, 20)];
        let tree = model::SparseTree::new(&[(4, mnote(&notes[0]).cmx().unwrap()), (9, mnote(&notes[1]).cmx().unwrap())]);
        let anchor = tree.root();
        let wallets = vec![w];
        let out = rand_out(rng, &wallets, 5);
        let spends = [(4u32, notes[0]), (9, notes[1])]
            .iter()
            .zip(model::SCOPES)
            .map(|((pos, note), scope)| SpendReq { wallet: 0, scope, note: *note, pos: *pos, foreign_path: None })
            .collect();
        let sc = Scenario { bundle_type: BundleType::DEFAULT, wallets, spends, outs: vec![out], tree, anchor };
        // A generator that always yields the same bytes makes both randomizers equal.
        let (b, _) = sut(sc.build(Api::Builder, &mut Stuck::new(0x11 + i as u8))?, "a bundle");
        let e = meffects(&b);
        if e.actions[0].rk != e.actions[1].rk {
            ctx.event("refused: duplicate");
            ctx.event("distinct rk from a constant generator");
            return Ok(());
        }
        let proven = b.create_proof(pk(), &mut *rng).map_err(|e| format!("{:?}", e))?;
        let sh: [u8; 32] = bytes(rng);
        let full = proven.clone().apply_signatures(&mut *rng, sh, &sc.asks()).map_err(|e| format!("{:?}", e))?;
        let sigs: Vec<Sig> = full.actions().iter().map(|a| a.authorization().clone()).collect();
        match proven.clone().prepare(&mut *rng, sh).append_signatures(&sigs[..1]) {
            Err(BuildError::DuplicateSignature) => ctx.event("refused: duplicate"),
            other => return Err(format!("a signature valid for two inputs gave {:?}", other.map(|_| ()))),
        }
        let b = proven
            .prepare(&mut *rng, sh)
            .sign(&mut *rng, &sc.wallets[0].ask)
            .finalize()
            .map_err(|e| format!("{:?}", e))?;
        model_sigs_ok(&b, &sh)
    });
}

/// A generator stuck on one byte; it comes unstuck if drawn from very often, so that rejection
/// sampling terminates.
pub struct Stuck(u8, u32, Rng);
impl Stuck {
    pub fn new(b: u8) -> Stuck {
        Stuck(b, 0, rand::SeedableRng::from_seed([b; 32]))
    }
}
impl rand::RngCore for Stuck {
    fn next_u32(&mut self) -> u32 {
        rand_core_next(self) as u32
    }
    fn next_u64(&mut self) -> u64 {
        rand_core_next(self)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        self.1 += 1;
        if self.1 > 20_000 {
            self.2.fill_bytes(d)
        } else {
            d.fill(self.0)
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl rand::CryptoRng for Stuck {}
fn rand_core_next(s: &mut Stuck) -> u64 {
    let mut b = [0; 8];
    s.fill_bytes(&mut b);
    u64::from_le_bytes(b)
}

// ---------------------------------------------------------------- C09

pub fn c09(ctx: &Ctx) {
    ctx.rule(
        "random batches of valid and invalid bundles (bad proof, bad spend signature, bad binding \
         signature, wrong sighash, tampered effects), in random order with repeats and random bundle \
         sizes; the batch verdict must equal the conjunction of the individual verdicts. Distinct by \
         composition and order.",
    );
    ctx.require("batches accepted", 5);
    ctx.require("batches rejected", 20);
    ctx.run("empty", 1, |_, rng| {
        ensure!(batch_ok(&[], rng), "the empty batch is not valid");
        Ok(())
    });
    let pool = base_pool(ctx, ctx.n(4, 10));
    if pool.len() < 2 {
        return;
    }
    let raws: Vec<Raw> = pool.iter().map(|m| Raw::of(&m.auth)).collect();
    // A stock of bundles with known individual verdicts.
    let stock: Mutex<Vec<(u64, Auth, [u8; 32], bool, String)>> = Mutex::new(vec![]);
    ctx.setup(ctx.threads, "stock", ctx.n(40, 300), |i, rng| {
        let b = rng.gen_range(0..pool.len());
        let mut r = raws[b].clone();
        let mut what;
        let mut sh = pool[b].sighash;
        match i % 5 {
            0 => {
                what = "intact".to_string();
            }
            1 => {
                what = "wrong sighash".into();
                sh[rng.gen_range(0..32)] ^= 1;
            }
            // Signatures right, proof wrong: only the proof batch can tell.
            2 => {
                what = "proof only".into();
                let w = rng.gen_range(0..r.proof.len() / 32) * 32;
                match rng.gen_range(0..3) {
                    0 => r.proof[w] ^= 1,
                    1 => r.proof = raws[(b + 1) % raws.len()].proof.clone(),
                    _ => r.proof.truncate(w),
                }
            }
            3 => {
                what = "signature only".into();
                let k = rng.gen_range(0..=r.sigs.len());
                let at = rng.gen_range(0..64);
                if k == r.sigs.len() {
                    r.binding[at] ^= 1;
                } else {
                    r.sigs[k][at] ^= 1;
                }
            }
            _ => {
                what = tamper(rng, &mut r, &raws).0;
            }
        }
        if let Some(t) = r.assemble() {
            let v = valid(&t, &sh);
            if what == "intact" {
                ensure!(v, "an honest bundle does not verify");
            }
            what += &format!(" ({} actions)", r.effects.actions.len());
            ctx.event(if v { "stock: valid" } else { "stock: invalid" });
            stock.lock().unwrap().push((i, t, sh, v, what));
        }
        Ok(())
    });
    let mut stock = stock.into_inner().unwrap();
    stock.sort_by_key(|s| s.0);
    let (good, bad): (Vec<_>, Vec<_>) = stock.iter().partition(|s| s.3);
    if good.is_empty() || bad.is_empty() {
        return;
    }
    ctx.run("batches", ctx.n(90, 2500), |_, rng| {
        let len = *pick(rng, &[1usize, 2, 2, 3, 4, 6, 9]);
        let mut items = vec![];
        for _ in 0..len {
            items.push(*pick(rng, &good));
        }
        let nbad = *pick(rng, &[0usize, 1, 1, 1, 2]);
        for _ in 0..nbad.min(len) {
            // Anywhere, including first and last.
            let at = *pick(rng, &[0, len - 1, rng.clone().gen_range(0..len)]);
            items[at] = *pick(rng, &bad);
        }
        let want = items.iter().all(|s| s.3);
        let d = format!("{:?}", items.iter().map(|s| (s.0, s.4.as_str())).collect::<Vec<_>>());
        let refs: Vec<(&Auth, [u8; 32])> = items.iter().map(|s| (&s.1, s.2)).collect();
        let got = batch_ok(&refs, rng);
        same!(got, want, "verdict on the batch {}", d);
        ctx.event(if got { "batches accepted" } else { "batches rejected" });
        ctx.events("bundles batched", len as u64);
        ctx.distinct("batch", d.as_bytes());
        ctx.sample("batch", || d.clone());
        Ok(())
    });
    // Many bundles at once, of every total size, with at most one bad one anywhere, often last.
    let sig_bad: Vec<_> = bad.iter().filter(|s| !crate_sigs_ok(&s.1, &s.2)).copied().collect();
    let proof_bad: Vec<_> = bad.iter().filter(|s| crate_sigs_ok(&s.1, &s.2)).copied().collect();
    if sig_bad.is_empty() || proof_bad.is_empty() {
        return;
    }
    ctx.run("crowds", ctx.n(28, 400), |i, rng| {
        let kind = i % 4;
        // A bad signature makes the batch fail before its proofs are looked at, so those batches
        // can be large.
        let len = match (kind, ctx.n(0, 1)) {
            (1 | 2, _) => *pick(rng, &[17usize, 33, 64, 100, 129, 200, 257, 300]) + rng.gen_range(0..8),
            (_, 0) => rng.gen_range(10..36),
            _ => rng.gen_range(10..130),
        };
        let mut items: Vec<_> = (0..len).map(|_| *pick(rng, &good)).collect();
        let at = *pick(rng, &[0, len - 1, len - 1, len - 2, rng.clone().gen_range(0..len)]);
        match kind {
            1 | 2 => items[at] = *pick(rng, &sig_bad),
            3 => items[at] = *pick(rng, &proof_bad),
            _ => (),
        }
        let refs: Vec<(&Auth, [u8; 32])> = items.iter().map(|s| (&s.1, s.2)).collect();
        let got = batch_ok(&refs, rng);
        same!(got, kind == 0, "verdict on a batch of {} with {} at {}", len, items[at].4, at);
        ctx.event(if got { "batches accepted" } else { "batches rejected" });
        ctx.events("bundles batched", len as u64);
        ctx.distinct("large batch", format!("{} {} {}", len, at, kind).as_bytes());
        Ok(())
    });
    // A valid bundle together with twins that share its proof, its signatures or its effects but
    // differ elsewhere: nothing remembered about the one may vouch for the other.
    ctx.run("twins", ctx.n(48, 800), |i, rng| {
        let b = rng.gen_range(0..pool.len());
        let (orig, sh) = (&raws[b], pool[b].sighash);
        let mut t = orig.clone();
        let k = rng.gen_range(0..t.effects.actions.len());
        let mut tsh = sh;
        let what = match i % 8 {
            // Not covered by the signatures themselves when the verifier is given this sighash.
            0 => { t.effects.anchor = rand_base(rng).to_repr(); "anchor" }
            1 => { t.effects.flags ^= 1; "spends flag" }
            2 => { t.effects.flags ^= 2; "outputs flag" }
            3 => { t.effects.actions[k].nf = rand_base(rng).to_repr(); "nullifier" }
            4 => { t.effects.actions[k].cmx = rand_base(rng).to_repr(); "cmx" }
            5 => { let at = rng.gen_range(0..64); t.binding[at] ^= 1; "binding signature" }
            6 => { let at = rng.gen_range(0..64); t.sigs[k][at] ^= 1; "spend signature" }
            _ => { tsh[rng.gen_range(0..32)] ^= 1; "sighash" }
        };
        let (to, tt) = (sut(orig.assemble(), "bundle"), match t.assemble() { Some(t) => t, None => return Ok(()) });
        ensure!(!valid(&tt, &tsh), "a bundle with another {} is valid", what);
        let mut items = vec![(&to, sh), (&tt, tsh)];
        if rng.gen() {
            items.push((&to, sh));
        }
        if rng.gen_range(0..3) == 0 {
            items.swap(0, 1);
        }
        ensure!(!batch_ok(&items, rng), "a batch accepts a bundle whose {} differs, next to its valid twin", what);
        ctx.event("batches rejected");
        ctx.distinct("twin", what.as_bytes());
        Ok(())
    });
    // The two halves of one signature pair must not compensate each other across bundles: a
    // batch of two invalid items whose errors cancel in an unweighted sum.
    ctx.run("cancelling", ctx.n(12, 200), |i, rng| {
        let (a, b) = (rng.gen_range(0..pool.len()), rng.gen_range(0..pool.len()));
        let (mut ra, mut rb) = (raws[a].clone(), raws[b].clone());
        let d = rand_scalar(rng);
        let bump = |sig: &mut [u8; 64], d: model::Scalar| {
            let s = model::Scalar::from_repr(sig[32..].try_into().unwrap()).unwrap() + d;
            sig[32..].copy_from_slice(&s.to_repr());
        };
        if i % 2 == 0 {
            bump(&mut ra.binding, d);
            bump(&mut rb.binding, -d);
        } else {
            let (x, y) = (rng.gen_range(0..ra.sigs.len()), rng.gen_range(0..rb.sigs.len()));
            bump(&mut ra.sigs[x], d);
            bump(&mut rb.sigs[y], -d);
        }
        let (ta, tb) = (sut(ra.assemble(), "bundle"), sut(rb.assemble(), "bundle"));
        ensure!(!crate_sigs_ok(&ta, &pool[a].sighash) && !crate_sigs_ok(&tb, &pool[b].sighash), "a bumped signature verifies");
        ensure!(
            !batch_ok(&[(&ta, pool[a].sighash), (&tb, pool[b].sighash)], rng),
            "two invalid bundles pass as a batch"
        );
        ctx.event("batches rejected");
        Ok(())
    });
    // The proof batch on its own, through the pipeline API.
    ctx.run("proof pipeline", ctx.n(16, 300), |i, rng| {
        let mut want = true;
        let mut batch = plonk::BatchVerifier::<vesta::Affine>::new();
        for _ in 0..rng.gen_range(1..4) {
            let k = rng.gen_range(0..pool.len());
            let mut e = raws[k].effects.clone();
            if i % 2 == 1 && rng.gen() {
                let x = rng.gen_range(0..e.actions.len());
                e.actions[x].nf = rand_base(rng).to_repr();
            }
            let inst = instances_of(&e);
            let proof = pool[k].auth.authorization().proof();
            want &= proof.verify(vk(), &inst).is_ok();
            proof.add_to_batch(&mut batch, inst);
        }
        let (params, vkey) = halo2_keys();
        same!(batch.finalize(params, vkey), want, "verdict on a batch of proofs");
        ctx.event(if want { "batches accepted" } else { "batches rejected" });
        Ok(())
    });
}

/// A verifying key made outside the crate from the public circuit type, for the pipeline API.
pub fn halo2_keys() -> (
    &'static halo2_proofs::poly::commitment::Params<vesta::Affine>,
    &'static plonk::VerifyingKey<vesta::Affine>,
) {
    type K = (halo2_proofs::poly::commitment::Params<vesta::Affine>, plonk::VerifyingKey<vesta::Affine>);
    static P: OnceLock<K> = OnceLock::new();
    let k = P.get_or_init(|| {
        let params = halo2_proofs::poly::commitment::Params::new(11);
        let circuit: orchard::circuit::Circuit = Default::default();
        let vk = plonk::keygen_vk(&params, &circuit).unwrap();
        (params, vk)
    });
    (&k.0, &k.1)
}

// ---------------------------------------------------------------- C23

#[derive(Debug, Clone)]
struct Tagged;
impl orchard::bundle::Authorization for Tagged {
    type SpendAuth = (usize, u64);
}

pub fn c23(ctx: &Ctx) {
    ctx.rule(
        "random bundles taken through every lifecycle transition (prove, prepare, sign, append, \
         finalize, map and try_map of authorization and of value balance, re-parsing); a monitor \
         compares the complete effects, the commitment and the binding key after every step. \
         Distinct by request shape and by step.",
    );
    ctx.require("transitions observed", 200);
    ctx.require("request", 30);
    ctx.run("maps", ctx.n(160, 3000), |_, rng| {
        let sc = scenario(rng, &GenOpts { max_spends: 4, max_outs: 4, ..Default::default() });
        ctx.distinct("request", &sc.shape());
        let (b, _) = sut(sc.build(Api::Builder, rng)?, "a bundle");
        let e = meffects(&b);
        let c: [u8; 32] = b.commitment().into();
        let bvk: [u8; 32] = b.binding_validating_key().into();
        let n = e.actions.len();
        let step = |what: &str, e2: MEffects, c2: [u8; 32], bvk2: [u8; 32]| -> Verdict {
            ensure!(e2 == e, "{} changed the effects of the bundle", what);
            same!(c2, c, "commitment after {}", what);
            same!(bvk2, bvk, "binding key after {}", what);
            ctx.event("transitions observed");
            ctx.distinct("step", what.as_bytes());
            Ok(())
        };
        macro_rules! watch_step {
            ($what:expr, $b:expr) => {
                step($what, meffects(&$b), $b.commitment().into(), $b.binding_validating_key().into())
            };
        }
        watch_step!("clone", b.clone())?;
        let sh: [u8; 32] = bytes(rng);
        let mut p = b.clone().prepare(&mut *rng, sh);
        watch_step!("prepare", p)?;
        for a in sc.asks() {
            p = p.sign(&mut *rng, &a);
            watch_step!("sign", p)?;
        }
        p = p.append_signatures(&[]).map_err(|e| format!("appending nothing failed: {:?}", e))?;
        watch_step!("append", p)?;
        // Each action's authorization is mapped exactly once, in order.
        let mut count = 0usize;
        let t: Bundle<Tagged, i64> = b.clone().map_authorization(
            &mut count,
            |c, _, _| {
                *c += 1;
                (*c - 1, 7)
            },
            |c, _| {
                *c += 1000;
                Tagged
            },
        );
        same!(count, n + 1000, "number of authorizations mapped");
        same!(t.actions().iter().map(|a| a.authorization().0).collect::<Vec<_>>(), (0..n).collect::<Vec<_>>(), "order of mapped authorizations");
        watch_step!("map_authorization", t)?;
        let fail_at = rng.gen_range(0..=n);
        let mut seen: Vec<usize> = vec![];
        let r: Result<Bundle<Tagged, i64>, usize> = t.clone().try_map_authorization(
            &mut seen,
            |c, _, a| {
                c.push(a.0);
                if a.0 == fail_at {
                    Err(a.0)
                } else {
                    Ok((a.0 + 100, a.1))
                }
            },
            |c, x| {
                c.push(usize::MAX);
                Ok(x)
            },
        );
        // In order, each once, up to the failing one; the bundle's own authorization last.
        let mut want: Vec<usize> = (0..n.min(fail_at + 1)).collect();
        if fail_at == n {
            want.push(usize::MAX);
        }
        same!(seen, want, "order of the callbacks of try_map_authorization");
        match r {
            Ok(t2) => {
                ensure!(fail_at == n, "a failing authorization mapping succeeded");
                same!(t2.actions().iter().map(|a| a.authorization().0).collect::<Vec<_>>(), (100..100 + n).collect::<Vec<_>>(), "order of mapped authorizations");
                watch_step!("try_map_authorization", t2)?;
            }
            Err(x) => same!(x, fail_at, "which authorization mapping failed"),
        }
        let r: Result<Bundle<Tagged, i64>, ()> = t.clone().try_map_authorization(&mut (), |_, _, a| Ok(a), |_, _| Err(()));
        ensure!(r.is_err(), "a failing bundle authorization mapping succeeded");
        // Value balance mapping.
        let t2 = t.clone().try_map_value_balance(|v| Ok::<i64, ()>(v)).unwrap();
        watch_step!("try_map_value_balance", t2)?;
        let wide = t.clone().try_map_value_balance(|v| Ok::<i128, ()>(v as i128)).unwrap();
        same!(*wide.value_balance(), e.balance as i128, "mapped value balance");
        let back = wide.try_map_value_balance(|v| i64::try_from(v)).map_err(|_| "balance did not fit")?;
        watch_step!("value balance there and back", back)?;
        ensure!(t.clone().try_map_value_balance(|_| Err::<i64, u8>(9)).err() == Some(9), "a failing balance mapping succeeded");
        let delta = rng.gen_range(1..1000i64);
        let moved = t.clone().try_map_value_balance(|v| Ok::<i64, ()>(v.wrapping_add(delta))).unwrap();
        let e3 = meffects(&moved);
        same!(e3.balance, e.balance.wrapping_add(delta), "balance given by the mapping");
        same!(<[u8; 32]>::from(moved.commitment()), e3.txid_commitment(), "commitment after the balance changed");
        // Actions one by one.
        for a in t.actions().iter() {
            let m0 = maction(a);
            let a2 = a.clone().map(|x| x.0);
            ensure!(maction(&a2) == m0, "Action::map changed the action");
            same!(*a2.authorization(), a.authorization().0, "Action::map authorization");
            let a3 = a.clone().try_map(|x| Ok::<_, ()>(x.1)).unwrap();
            ensure!(maction(&a3) == m0, "Action::try_map changed the action");
            ensure!(a.clone().try_map(|_| Err::<u8, u8>(3)).err() == Some(3), "failing Action::try_map succeeded");
            ctx.event("transitions observed");
        }
        Ok(())
    });
    ctx.run_on(3, "authorized", ctx.n(4, 60), |i, rng| {
        let sc = scenario(rng, &small(i));
        let (b, _) = sut(sc.build(Api::Function, rng)?, "a bundle");
        let e = meffects(&b);
        let c: [u8; 32] = b.commitment().into();
        same!(c, e.txid_commitment(), "commitment");
        // Sign first, prove... either order is possible: prepare and sign an unproven bundle.
        let sh = sighash_of(&e);
        let auth: Auth = if i % 2 == 0 {
            let mut p = b.prepare(&mut *rng, sh);
            for a in sc.asks() {
                p = p.sign(&mut *rng, &a);
            }
            let p = p.create_proof(pk(), &mut *rng).map_err(|e| format!("proving a signed bundle: {:?}", e))?;
            ensure!(meffects(&p) == e, "create_proof changed the effects of a signed bundle");
            same!(<[u8; 32]>::from(p.commitment()), c, "commitment after create_proof");
            p.finalize().map_err(|e| format!("finalize: {:?}", e))?
        } else {
            let p = b.create_proof(pk(), &mut *rng).map_err(|e| format!("proving: {:?}", e))?;
            ensure!(meffects(&p) == e, "create_proof changed the effects");
            same!(<[u8; 32]>::from(p.commitment()), c, "commitment after create_proof");
            p.apply_signatures(&mut *rng, sh, &sc.asks()).map_err(|e| format!("signing: {:?}", e))?
        };
        ensure!(meffects(&auth) == e, "authorization changed the effects");
        same!(<[u8; 32]>::from(auth.commitment()), c, "commitment after authorization");
        ensure!(valid(&auth, &sh), "bundle authorized in either order does not verify");
        let raw = Raw::of(&auth);
        let again = sut(raw.assemble(), "re-read bundle");
        ensure!(meffects(&again) == e, "re-reading changed the effects");
        same!(
            auth_bytes(&again),
            model::auth_commitment(&raw.proof, &raw.sigs, &raw.binding),
            "authorizing commitment"
        );
        ctx.events("transitions observed", 5);
        ctx.event("bundles authorized");
        Ok(())
    });
}
