//! C18 randomness, C19 determinism and independence from threads and history, C21 RedPallas,
//! C22 value arithmetic.

use std::collections::{BTreeMap, BTreeSet};
use std::process::Command;
use std::sync::{Arc, Barrier, Mutex};

use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use incrementalmerkletree::{Hashable, Level};
use orchard::{
    builder::{BundleMetadata, BundleType},
    circuit::VerifyingKey,
    keys::{FullViewingKey, Scope, SpendValidatingKey, SpendingKey},
    note::ExtractedNoteCommitment,
    primitives::redpallas::{self, batch, Binding, Signature, SigType, SigningKey, SpendAuth, VerificationKey},
    tree::MerkleHashOrchard,
    value::{NoteValue, OverflowError, ValueCommitTrapdoor, ValueCommitment, ValueSum},
    Anchor,
};
use rand::{seq::SliceRandom, CryptoRng, Rng as _, RngCore, SeedableRng};
use ::zip32::AccountId;

use super::encryption::{plain_action, plain_bundle};
use super::proofs::{self, pk, Proven, Stuck};
use crate::model::{self, Base, MAction, MEffects, MScope, Point, Scalar};
use crate::mon::{sut, Ctx, Rng, Verdict};
use crate::world::*;
use crate::{ensure, same};

// ---------------------------------------------------------------- C18

/// A transactional request whose placement of spends and outputs is fully visible: as many
/// outputs as spends, give or take one.
fn visible(rng: &mut Rng, spends: usize, outs: usize) -> Scenario {
    loop {
        let wallets: Vec<Wallet> = (0..rng.gen_range(1..=2)).map(|_| Wallet::random(rng)).collect();
        let mut spends_v = vec![];
        let mut leaves = vec![];
        for i in 0..spends {
            let w = rng.gen_range(0..wallets.len());
            let s = rand_scope(rng);
            let ad = wallets[w].address(s, rand_index(rng));
            let v = rng.gen_range(0..1 << 40);
            let note = rand_note(rng, ad, v);
            leaves.push((i as u32 * 3, mnote(&note).cmx().unwrap()));
            spends_v.push(SpendReq { wallet: w, scope: s, note, pos: i as u32 * 3, foreign_path: None });
        }
        let outs_v: Vec<OutReq> = (0..outs)
            .map(|_| {
                let v = rng.gen_range(0..1 << 40);
                let mut o = rand_out(rng, &wallets, v);
                let w = rng.gen_range(0..wallets.len());
                let s = rand_scope(rng);
                o.owner = Some((w, s));
                o.recipient = wallets[w].address(s, rand_index(rng));
                o
            })
            .collect();
        let tree = SparseTree::new(&leaves);
        let anchor = tree.root();
        let sc = Scenario { bundle_type: BundleType::DEFAULT, wallets, spends: spends_v, outs: outs_v, tree, anchor };
        if sc.sums_safe() && sc.balance_fits() {
            return sc;
        }
    }
}

use crate::model::SparseTree;

/// Everything random about a bundle that can be seen from outside, per action.
struct Seen {
    nfs: Vec<[u8; 32]>,
    spend_at: Vec<usize>,
    out_at: Vec<usize>,
    /// (name, action) -> bytes that must be fresh
    fresh: BTreeMap<(&'static str, usize), Vec<u8>>,
}

fn observe(sc: &Scenario, b: &Unauth, meta: &BundleMetadata) -> Result<Seen, String> {
    let n = b.actions().len();
    let a: Vec<MAction> = b.actions().iter().map(|a| maction(a)).collect();
    let mut spend_of = vec![None; n];
    let mut out_of = vec![None; n];
    let mut spend_at = vec![];
    let mut out_at = vec![];
    for k in 0..sc.spends.len() {
        let i = sut::<usize>(meta.spend_action_index(k), "an action index for a requested spend");
        spend_of[i] = Some(k);
        spend_at.push(i);
    }
    for k in 0..sc.outs.len() {
        let i = sut::<usize>(meta.output_action_index(k), "an action index for a requested output");
        out_of[i] = Some(k);
        out_at.push(i);
    }
    let mut fresh = BTreeMap::new();
    for i in 0..n {
        let v_old = spend_of[i].map(|k: usize| sc.spends[k].note.value().inner()).unwrap_or(0) as i128;
        let v_new = out_of[i].map(|k: usize| sc.outs[k].value).unwrap_or(0) as i128;
        // The blinding part of the value commitment.
        let blind = model::point(&a[i].cv).ok_or("cv does not decode")? - model::value_commit(v_old - v_new, &Scalar::ZERO);
        fresh.insert(("rcv", i), blind.to_bytes().to_vec());
        let rk = model::point(&a[i].rk).ok_or("rk does not decode")?;
        match spend_of[i] {
            Some(k) => {
                // The randomizer part of the randomized validating key.
                let ak = sc.wallets[sc.spends[k].wallet].keys.fvk.ak;
                fresh.insert(("alpha", i), (rk - ak).to_bytes().to_vec());
            }
            None => {
                fresh.insert(("dummy rk", i), a[i].rk.to_vec());
                fresh.insert(("dummy nullifier", i), a[i].nf.to_vec());
            }
        }
        fresh.insert(("epk", i), a[i].epk.to_vec());
        fresh.insert(("cmx", i), a[i].cmx.to_vec());
        fresh.insert(("note ciphertext", i), a[i].enc.to_vec());
        fresh.insert(("outgoing ciphertext", i), a[i].out.to_vec());
        if let Some(k) = out_of[i] {
            if let Some((w, s)) = sc.outs[k].owner {
                let d = model::decrypt_ivk(&sc.wallets[w].mivk(s), &a[i].epk, &a[i].enc, &a[i].cmx, &model::base(&a[i].nf).unwrap())
                    .ok_or("an output does not open")?;
                fresh.insert(("rseed", i), d.note.rseed.to_vec());
            }
        }
    }
    // With the observation hooks, the secrets that nothing outside shows.
    #[cfg(orchard_verif)]
    {
        use orchard::verif_hooks::{bundle_circuits, ActionWitness};
        let circuits = bundle_circuits(b);
        same!(circuits.len(), n, "number of circuits");
        for (i, c) in circuits.iter().enumerate() {
            let w = sut::<ActionWitness>(ActionWitness::of(c), "a complete witness");
            fresh.insert(("witness alpha", i), w.alpha.to_repr().to_vec());
            fresh.insert(("witness rcv", i), w.rcv.to_repr().to_vec());
            fresh.insert(("new psi", i), w.psi_new.to_repr().to_vec());
            fresh.insert(("new rcm", i), w.rcm_new.to_repr().to_vec());
            if spend_of[i].is_none() {
                fresh.insert(("dummy rho", i), w.rho_old.to_repr().to_vec());
                fresh.insert(("dummy psi", i), w.psi_old.to_repr().to_vec());
                fresh.insert(("dummy rcm", i), w.rcm_old.to_repr().to_vec());
                fresh.insert(("dummy ak", i), w.ak.to_bytes().to_vec());
                fresh.insert(("dummy nk", i), w.nk.to_repr().to_vec());
                fresh.insert(("dummy rivk", i), w.rivk.to_repr().to_vec());
                fresh.insert(("dummy pk_d", i), w.pk_d_old.to_bytes().to_vec());
            }
            if out_of[i].is_none() {
                fresh.insert(("padding output pk_d", i), w.pk_d_new.to_bytes().to_vec());
            }
        }
    }
    Ok(Seen { nfs: a.iter().map(|a| a.nf).collect(), spend_at, out_at, fresh })
}

/// What a secret is derived from besides its own randomness: the part of the stream that drives
/// both does not count as its own.
fn derived_from(name: &str) -> Option<&'static str> {
    match name {
        "new psi" | "new rcm" | "epk" => Some("nf"),
        "dummy psi" | "dummy rcm" => Some("dummy rho"),
        _ => None,
    }
}

/// A generator that plays a recorded byte stream, with one 8-byte word of it altered.
struct Tape {
    source: Rng,
    at: usize,
    flip: Option<usize>,
}
impl Tape {
    fn new(seed: [u8; 32], flip: Option<usize>) -> Tape {
        Tape { source: Rng::from_seed(seed), at: 0, flip }
    }
}
impl RngCore for Tape {
    fn next_u32(&mut self) -> u32 {
        let mut b = [0; 4];
        self.fill_bytes(&mut b);
        u32::from_le_bytes(b)
    }
    fn next_u64(&mut self) -> u64 {
        let mut b = [0; 8];
        self.fill_bytes(&mut b);
        u64::from_le_bytes(b)
    }
    fn fill_bytes(&mut self, d: &mut [u8]) {
        for x in d.iter_mut() {
            let mut b = [0u8];
            self.source.fill_bytes(&mut b);
            *x = b[0];
            if self.flip == Some(self.at / 8) {
                *x ^= 0x5a;
            }
            self.at += 1;
        }
    }
    fn try_fill_bytes(&mut self, d: &mut [u8]) -> Result<(), rand::Error> {
        self.fill_bytes(d);
        Ok(())
    }
}
impl CryptoRng for Tape {}

/// How much of the generator's output each secret depends on, observed by re-running the build
/// with one word of the stream altered at a time.
fn entropy(ctx: &Ctx, rng: &mut Rng) -> Verdict {
    let (s, o) = *pick(rng, &[(2, 2), (2, 1), (1, 2), (2, 2), (3, 3), (1, 1)]);
    let sc = visible(rng, s, o);
    let seed: [u8; 32] = bytes(rng);
    let mut base_rng = Tape::new(seed, None);
    let (b, m) = sut(sc.build(Api::Builder, &mut base_rng)?, "a bundle");
    let base = observe(&sc, &b, &m)?;
    let words = (base_rng.at + 7) / 8;
    ctx.events("random words drawn", words as u64);
    let mut depends: BTreeMap<(&'static str, usize), u64> = BTreeMap::new();
    for w in 0..words {
        let mut r = Tape::new(seed, Some(w));
        let (b, m) = sut(sc.build(Api::Builder, &mut r)?, "a bundle");
        let got = observe(&sc, &b, &m)?;
        if got.spend_at != base.spend_at || got.out_at != base.out_at || r.at != base_rng.at {
            // A word that drives the shuffle: moves secrets around rather than changing them.
            ctx.event("words that drive the shuffle");
            continue;
        }
        let mut any = false;
        let changed = |name: &'static str, i: usize| match name {
            "nf" => got.nfs[i] != base.nfs[i],
            _ => got.fresh.get(&(name, i)) != base.fresh.get(&(name, i)),
        };
        for (k, v) in &base.fresh {
            if got.fresh.get(k) != Some(v) {
                any = true;
                if derived_from(k.0).map(|d| changed(d, k.1)).unwrap_or(false) {
                    continue;
                }
                *depends.entry(*k).or_default() += 1;
            }
        }
        ctx.event(if any { "words that drive a secret" } else { "words without visible effect" });
    }
    for (k, _) in &base.fresh {
        // The abscissa of a random point is redrawn until it fits the curve: which words matter
        // depends on their values. Its freshness is still observed.
        if k.0 == "dummy rho" {
            continue;
        }
        // The outgoing ciphertext under a viewing key needs no randomness of its own.
        let got = depends.get(k).copied().unwrap_or(0) * 8;
        ensure!(
            got >= 32,
            "{} of action {} depends on only {} bytes of the generator's output (of {} drawn)",
            k.0,
            k.1,
            got,
            words * 8
        );
        ctx.event("secrets traced to the generator");
        ctx.event(&format!("traced: {}", k.0));
    }
    ctx.distinct("entropy scenario", &sc.shape());
    Ok(())
}

fn fresh(ctx: &Ctx, rng: &mut Rng) -> Verdict {
    let s = rng.gen_range(0..=4);
    let o = rng.gen_range(0..=4);
    let sc = visible(rng, s, o.max(1));
    let mut all: BTreeMap<Vec<u8>, String> = BTreeMap::new();
    for round in 0..3 {
        let (b, m) = sut(sc.build(if round == 1 { Api::Function } else { Api::Builder }, rng)?, "a bundle");
        let seen = observe(&sc, &b, &m)?;
        for ((name, i), v) in seen.fresh {
            // Points that are each other's negatives would betray related scalars too.
            let mut key = name.as_bytes().to_vec();
            let mut v = v;
            if name == "rcv" || name == "alpha" {
                ensure!(v != vec![0; 32], "{} of action {} is zero", name, i);
                v[31] &= 0x7f;
            }
            key.extend_from_slice(&v);
            let here = format!("action {} of build {}", i, round);
            if let Some(before) = all.insert(key, here.clone()) {
                return Err(format!("{} is the same in {} and {} ({})", name, before, here, sc.describe()));
            }
            ctx.event("secrets compared for freshness");
            ctx.distinct("secret", &v);
        }
    }
    ctx.sample("scenario", || sc.describe());
    Ok(())
}

/// The value chi-squared exceeds with probability about 1e-9.
fn chi2_limit(df: f64) -> f64 {
    let z = 6.0;
    df * (1.0 - 2.0 / (9.0 * df) + z * (2.0 / (9.0 * df)).sqrt()).powi(3)
}

fn uniform(what: &str, counts: &BTreeMap<Vec<usize>, u64>, cells: usize) -> Verdict {
    let total: u64 = counts.values().sum();
    let e = total as f64 / cells as f64;
    ensure!(counts.len() <= cells, "{}: more outcomes than possible", what);
    let mut x: f64 = counts.values().map(|c| (*c as f64 - e).powi(2) / e).sum();
    x += (cells - counts.len()) as f64 * e;
    ensure!(
        x <= chi2_limit(cells as f64 - 1.0),
        "{} is not uniform: chi-squared {:.1} over {} samples in {} cells: {:?}",
        what,
        x,
        total,
        cells,
        counts
    );
    Ok(())
}

pub fn c18(ctx: &Ctx) {
    ctx.rule(
        "bundles built repeatedly from one request: every blinding value that is visible from \
         outside (alpha and rcv by subtracting the known part, dummy keys and nullifiers, seeds, \
         ephemeral keys, ciphertexts) must never repeat within or across builds; each must depend \
         on at least 32 bytes of the generator's output, observed by re-running the build with one \
         word of the random stream altered at a time; and the placement of spends and outputs must \
         be uniform and independent (chi-squared, false-alarm probability 1e-9). Distinct by \
         secret.",
    );
    ctx.event(if cfg!(orchard_verif) { "observation hooks active" } else { "observation hooks absent" });
    ctx.require("secrets compared for freshness", 1000);
    ctx.require("secrets traced to the generator", 60);
    ctx.require("words that drive the shuffle", 5);
    ctx.require("placements observed", 1000);
    ctx.run("fresh", ctx.n(120, 4000), |_, rng| fresh(ctx, rng));
    ctx.run("entropy", ctx.n(12, 200), |_, rng| entropy(ctx, rng));

    // Signatures: the nonce depends on the generator with its full strength.
    ctx.require("nonces traced to the generator", 20);
    ctx.run("nonces", ctx.n(40, 600), |i, rng| {
        let sk = rand_scalar(rng).to_repr();
        let msg: [u8; 32] = bytes(rng);
        let seed: [u8; 32] = bytes(rng);
        let sign = |flip: Option<usize>| -> (Vec<u8>, usize) {
            let mut t = Tape::new(seed, flip);
            let sig: [u8; 64] = if i % 2 == 0 {
                (&SigningKey::<SpendAuth>::try_from(sk).unwrap().sign(&mut t, &msg)).into()
            } else {
                (&SigningKey::<Binding>::try_from(sk).unwrap().sign(&mut t, &msg)).into()
            };
            (sig[..32].to_vec(), t.at)
        };
        let (r, drawn) = sign(None);
        let matter = (0..(drawn + 7) / 8).filter(|w| sign(Some(*w)).0 != r).count() * 8;
        ensure!(matter >= 32, "a signature's nonce depends on only {} bytes of the generator's output", matter);
        ctx.event("nonces traced to the generator");
        Ok(())
    });
    // The same through the builder, for every signature that is made while a bundle is prepared
    // and signed.
    ctx.run("signing", ctx.n(6, 100), |_, rng| {
        let sc = visible(rng, 2, 3);
        let seed: [u8; 32] = bytes(rng);
        let build: [u8; 32] = bytes(rng);
        let sh: [u8; 32] = bytes(rng);
        let run = |flip: Option<usize>| -> Result<(Vec<Vec<u8>>, usize), String> {
            let (b, _) = sut(sc.build(Api::Builder, &mut Rng::from_seed(build))?, "a bundle");
            let mut t = Tape::new(seed, flip);
            let mut p = b.prepare(&mut t, sh);
            for a in sc.asks() {
                p = p.sign(&mut t, &a);
            }
            let rs = p
                .actions()
                .iter()
                .map(|a| match a.authorization() {
                    orchard::builder::MaybeSigned::Signature(s) => Ok(<[u8; 64]>::from(s)[..32].to_vec()),
                    _ => Err("an action stayed unsigned".to_string()),
                })
                .collect::<Result<_, _>>()?;
            Ok((rs, t.at))
        };
        let (rs, drawn) = run(None)?;
        let mut matter = vec![0; rs.len()];
        for w in 0..(drawn + 7) / 8 {
            for (k, r) in run(Some(w))?.0.iter().enumerate() {
                matter[k] += (*r != rs[k]) as usize * 8;
            }
        }
        for (k, m) in matter.iter().enumerate() {
            ensure!(*m >= 32, "the nonce of signature {} depends on only {} bytes of the generator's output", k, m);
            ctx.event("nonces traced to the generator");
        }
        Ok(())
    });

    // Placement. (spends, outputs) -> joint counts.
    for (s, o) in [(3usize, 3usize), (1, 1), (2, 1)] {
        let joint = Mutex::new(BTreeMap::<Vec<usize>, u64>::new());
        let (spends, outs) = (Mutex::new(BTreeMap::new()), Mutex::new(BTreeMap::new()));
        let fixed = {
            let mut r: Rng = SeedableRng::seed_from_u64(ctx.seed ^ 0x5eed);
            visible(&mut r, s, o)
        };
        let n = ctx.n(if s == 3 { 1500 } else { 600 }, 20000);
        ctx.setup(ctx.threads, &format!("placement {}x{}", s, o), n, |_, rng| {
            let (b, m) = sut(fixed.build(Api::Builder, rng)?, "a bundle");
            let seen = observe_placement(&fixed, &b, &m)?;
            *spends.lock().unwrap().entry(seen.0.clone()).or_insert(0u64) += 1;
            *outs.lock().unwrap().entry(seen.1.clone()).or_insert(0u64) += 1;
            let mut k = seen.0;
            k.extend(seen.1);
            *joint.lock().unwrap().entry(k).or_insert(0u64) += 1;
            ctx.event("placements observed");
            Ok(())
        });
        ctx.run_seq(&format!("judge {}x{}", s, o), 1, |_, _| {
            let n = s.max(o).max(2);
            let arr = |k: usize| ((n - k + 1)..=n).product::<usize>();
            uniform("placement of spends", &spends.lock().unwrap(), arr(s))?;
            uniform("placement of outputs", &outs.lock().unwrap(), arr(o))?;
            uniform("joint placement of spends and outputs", &joint.lock().unwrap(), arr(s) * arr(o))
        });
    }

    // Proofs and signatures are blinded afresh.
    ctx.run_seq("blinded", ctx.n(1, 6), |_, rng| {
        let sc = visible(rng, 1, 1);
        let seed: [u8; 32] = bytes(rng);
        let mk = || -> Result<Unauth, String> {
            Ok(sut::<(Unauth, BundleMetadata)>(sc.build(Api::Builder, &mut Rng::from_seed(seed))?, "a bundle").0)
        };
        let p1: Proven = mk()?.create_proof(pk(), &mut *rng).map_err(|e| format!("{:?}", e))?;
        let p2: Proven = mk()?.create_proof(pk(), &mut *rng).map_err(|e| format!("{:?}", e))?;
        let sh = proofs::crate_sighash(&p1);
        let mut out = vec![];
        for p in [&p1, &p1, &p2] {
            let a = p.clone().apply_signatures(&mut *rng, sh, &sc.asks()).map_err(|e| format!("{:?}", e))?;
            out.push(Raw::of(&a));
        }
        ensure!(out[0].effects == out[2].effects, "building twice from one random stream gave different bundles");
        ensure!(out[0].proof == out[1].proof, "signing changed the proof");
        // Beyond chance: no 32-byte word of the blinded part is repeated at the same offset.
        let same_words = out[0].proof.chunks(32).zip(out[2].proof.chunks(32)).filter(|(a, b)| a == b).count();
        ensure!(same_words == 0, "two proofs of one statement share {} words", same_words);
        let mut rs = BTreeSet::new();
        for r in &out {
            for s in &r.sigs {
                ensure!(rs.insert(s[..32].to_vec()), "a spend signature nonce was used twice");
            }
            ensure!(rs.insert(r.binding[..32].to_vec()), "a binding signature nonce was used twice");
        }
        ctx.event("blinded proofs compared");
        Ok(())
    });
}

fn observe_placement(sc: &Scenario, b: &Unauth, m: &BundleMetadata) -> Result<(Vec<usize>, Vec<usize>), String> {
    let n = b.actions().len();
    let mut s = vec![];
    for k in 0..sc.spends.len() {
        // The nullifier's true place, not just what the metadata claims.
        let nk = sc.wallets[sc.spends[k].wallet].keys.fvk.nk;
        let nf = mnote(&sc.spends[k].note).nullifier(&nk).unwrap().to_repr();
        let i = b.actions().iter().position(|a| a.nullifier().to_bytes() == nf).ok_or("a spend is missing")?;
        same!(m.spend_action_index(k), Some(i), "place of spend {}", k);
        s.push(i);
    }
    let mut o = vec![];
    for k in 0..sc.outs.len() {
        let i = sut::<usize>(m.output_action_index(k), "an action index for a requested output");
        ensure!(i < n, "output index out of range");
        o.push(i);
    }
    Ok((s, o))
}

// ---------------------------------------------------------------- C19

const OPS: usize = 14;

/// A fixed menu of operations across the crate, each a function of (kind, seed).
fn op(kind: usize, seed: u64) -> [u8; 32] {
    let mut rng: Rng = SeedableRng::seed_from_u64(seed.wrapping_mul(0x9e37_79b9_7f4a_7c15) ^ kind as u64);
    let rng = &mut rng;
    let sk = loop {
        if let Some(sk) = Option::<SpendingKey>::from(SpendingKey::from_bytes(bytes(rng))) {
            break sk;
        }
    };
    let out: Vec<u8> = match kind {
        0 => FullViewingKey::from(&sk).to_bytes().to_vec(),
        1 => FullViewingKey::from(&sk).address_at(rand_index(rng), Scope::Internal).to_raw_address_bytes().to_vec(),
        2 => FullViewingKey::from(&sk).to_ivk(if rng.gen() { Scope::External } else { Scope::Internal }).to_bytes().to_vec(),
        3 => {
            let s: [u8; 40] = bytes(rng);
            SpendingKey::from_zip32_seed(&s, rng.gen_range(0..1 << 31), AccountId::try_from(rng.gen_range(0..1 << 31)).unwrap())
                .map(|k| k.to_bytes().to_vec())
                .unwrap_or_default()
        }
        4 => {
            let fvk = FullViewingKey::from(&sk);
            let ad = fvk.address_at(0u32, Scope::External);
            let n = rand_note(rng, ad, 5);
            [ExtractedNoteCommitment::from(n.commitment()).to_bytes(), n.nullifier(&fvk).to_bytes()].concat()
        }
        5 => {
            let l = rng.gen_range(0..32u8);
            let (a, b) = (MerkleHashOrchard::from_bytes(&rand_base(rng).to_repr()).unwrap(), MerkleHashOrchard::from_bytes(&rand_base(rng).to_repr()).unwrap());
            MerkleHashOrchard::combine(Level::from(l), &a, &b).to_bytes().to_vec()
        }
        6 => [
            MerkleHashOrchard::empty_root(Level::from(rng.gen_range(0..=32u8))).to_bytes(),
            Anchor::empty_tree().to_bytes(),
        ]
        .concat(),
        7 => {
            let mut path = [Base::ZERO; 32];
            path.iter_mut().for_each(|p| *p = rand_base(rng));
            path_of(rng.gen(), &path).root(ExtractedNoteCommitment::from_bytes(&rand_base(rng).to_repr()).unwrap()).to_bytes().to_vec()
        }
        8 => {
            let v = NoteValue::from_raw(rng.gen()) - NoteValue::from_raw(rng.gen());
            ValueCommitment::derive(v, ValueCommitTrapdoor::from_bytes(rand_scalar(rng).to_repr()).unwrap()).to_bytes().to_vec()
        }
        9 => {
            let k = SigningKey::<SpendAuth>::try_from(rand_scalar(rng).to_repr()).unwrap();
            let m: [u8; 32] = bytes(rng);
            let s = k.sign(&mut *rng, &m);
            let ok = VerificationKey::from(&k).verify(&m, &s).is_ok();
            let mut v = <[u8; 64]>::from(&s).to_vec();
            v.push(ok as u8);
            v
        }
        10 => {
            let sc = visible(rng, 1, 2);
            let (b, m) = sc.build(Api::Builder, rng).unwrap().unwrap();
            let c: [u8; 32] = b.commitment().into();
            let mut v = c.to_vec();
            v.push(m.spend_action_index(0).unwrap() as u8);
            v.push(m.output_action_index(1).unwrap() as u8);
            v
        }
        11 => {
            let m = rand_plain(rng, 3);
            let b = plain_bundle(&m, rng.gen());
            [<[u8; 32]>::from(b.commitment()), (&b.binding_validating_key()).into()].concat()
        }
        12 => {
            let sc = visible(rng, 1, 1);
            let (b, _) = sc.build(Api::Function, rng).unwrap().unwrap();
            let (w, s) = sc.outs[0].owner.unwrap();
            let keys = vec![sc.wallets[w].ivk(s), FullViewingKey::from(&sk).to_ivk(Scope::External)];
            b.decrypt_outputs_with_keys(&keys)
                .into_iter()
                .flat_map(|(i, k, n, a, memo)| {
                    let mut v = vec![i as u8, (k == keys[0]) as u8];
                    v.extend_from_slice(&a.to_raw_address_bytes());
                    v.extend_from_slice(&n.value().inner().to_le_bytes());
                    v.extend_from_slice(&memo);
                    v
                })
                .collect()
        }
        _ => {
            let k = SpendValidatingKey::from(FullViewingKey::from(&sk));
            <[u8; 32]>::from(&k.randomize(&rand_scalar(rng))).to_vec()
        }
    };
    model::blake2b_256(b"orchard-mon-op__", &[&[kind as u8], &out])
}

fn rand_plain(rng: &mut Rng, n: usize) -> Vec<MAction> {
    (0..n)
        .map(|_| MAction {
            nf: rand_base(rng).to_repr(),
            rk: (Point::generator() * rand_scalar(rng)).to_bytes(),
            cmx: rand_base(rng).to_repr(),
            cv: (Point::generator() * rand_scalar(rng)).to_bytes(),
            epk: bytes(rng),
            enc: bytes(rng),
            out: bytes(rng),
        })
        .collect()
}

/// One complete life of a bundle under a fixed random stream, as bytes.
fn life(seed: u64) -> Result<Vec<u8>, String> {
    let mut rng: Rng = SeedableRng::seed_from_u64(seed);
    let sc = visible(&mut rng, 1, 2);
    let (b, _) = sut(sc.build(Api::Builder, &mut rng)?, "a bundle");
    let p: Proven = b.create_proof(pk(), &mut rng).map_err(|e| format!("proving failed: {:?}", e))?;
    let sh = proofs::crate_sighash(&p);
    let a = p.apply_signatures(&mut rng, sh, &sc.asks()).map_err(|e| format!("signing failed: {:?}", e))?;
    ensure!(proofs::valid(&a, &sh), "an honest bundle does not verify");
    ensure!(proofs::batch_ok(&[(&a, sh), (&a, sh)], &mut rng), "an honest bundle does not verify in a batch");
    let r = Raw::of(&a);
    let mut v = r.effects.txid_commitment().to_vec();
    v.extend_from_slice(&r.proof);
    r.sigs.iter().for_each(|s| v.extend_from_slice(s));
    v.extend_from_slice(&r.binding);
    Ok(v)
}

/// Child process: first use of everything, from many threads at once. Prints digests.
pub fn child(args: &[String]) {
    let n: usize = args[2].parse().unwrap();
    let seed: u64 = args[3].parse().unwrap();
    if args[1] == "--life" {
        let _ = n;
        println!("{}", hex::encode(life(seed).expect("life")));
        return;
    }
    let barrier = Arc::new(Barrier::new(n));
    let hs: Vec<_> = (0..n)
        .map(|t| {
            let b = barrier.clone();
            std::thread::Builder::new()
                .stack_size(16 << 20)
                .spawn(move || {
                    let mut order: Vec<usize> = (0..OPS).collect();
                    let mut r: Rng = SeedableRng::seed_from_u64(seed * 1000 + t as u64);
                    order.shuffle(&mut r);
                    b.wait();
                    // Every thread starts with the same kind in half of the races.
                    if seed % 2 == 0 {
                        let k = (seed / 2) as usize % OPS;
                        order.retain(|x| *x != k);
                        order.insert(0, k);
                    }
                    let mut v: Vec<(usize, [u8; 32])> = order.iter().map(|k| (*k, op(*k, 7))).collect();
                    v.sort();
                    v
                })
                .unwrap()
        })
        .collect();
    for h in hs {
        let v = h.join().expect("race thread");
        println!("{}", v.iter().map(|(_, d)| hex::encode(d)).collect::<Vec<_>>().join(" "));
    }
}

fn related(ctx: &Ctx, rng: &mut Rng) -> Verdict {
    let wallets: Vec<Wallet> = (0..3).map(|_| Wallet::random(rng)).collect();
    // Diversifiers that agree in parts: prefixes, suffixes, permutations.
    let d0: [u8; 11] = bytes(rng);
    let mut ds = vec![d0];
    for k in 0..5 {
        let mut d = d0;
        match k {
            0 => d[10] ^= 1,
            1 => d[0] ^= 1,
            2 => d.swap(0, 10),
            3 => d.reverse(),
            _ => d[5] = d[5].wrapping_add(1),
        }
        ds.push(d);
    }
    let (rho0, seed0): (Base, [u8; 32]) = (rand_base(rng), bytes(rng));
    let mut indices = vec![[0u8; 11], rand_index(rng)];
    let mut near = indices[1];
    near[10] ^= 1;
    indices.push(near);
    // Notes that share everything but one thing.
    let mut notes = vec![];
    for k in 0..8 {
        let w = k % 3;
        let d = ds[if k < 3 { 0 } else { k % ds.len() }];
        let raw = model::address(&wallets[w].mivk(MScope::External), &d);
        let ad = sut(orchard::Address::from_raw_address_bytes(&raw), "address");
        let rho_v = if k % 4 == 3 { rand_base(rng) } else { rho0 };
        let v = if k % 5 == 4 { 6 } else { 5 };
        let mut seed = seed0;
        if k == 6 {
            seed[31] ^= 1;
        }
        if let Some(n) = make_note(ad, v, &rho_v, seed) {
            notes.push(n);
        }
    }
    let leaf = rand_base(rng);
    let mut path = [Base::ZERO; 32];
    path.iter_mut().for_each(|p| *p = rand_base(rng));
    let (r1, r2) = (rand_scalar(rng), rand_scalar(rng));
    let zseed: [u8; 64] = bytes(rng);
    let plain = rand_plain(rng, 2);
    let skey = rand_scalar(rng);
    let sk: SigningKey<SpendAuth> = sut(SigningKey::try_from(skey.to_repr()).ok(), "key");
    let vk = VerificationKey::from(&sk);
    let vkb: [u8; 32] = (&vk).into();
    let msgs: [[u8; 32]; 2] = [bytes(rng), bytes(rng)];
    let sigs: Vec<Signature<SpendAuth>> = msgs.iter().map(|m| sk.sign(&mut *rng, m)).collect();
    for step in 0..120 {
        let w = &wallets[rng.gen_range(0..3)];
        let n = pick(rng, &notes);
        let s = rand_scope(rng);
        let i = *pick(rng, &indices);
        match rng.gen_range(0..13) {
            0 | 1 => {
                let m = mnote(n);
                same!(n.nullifier(&w.fvk).to_bytes(), m.nullifier(&w.keys.fvk.nk).unwrap().to_repr(), "nullifier in step {} of related calls", step);
            }
            2 | 3 => {
                let c = ExtractedNoteCommitment::from(n.commitment());
                same!(c.to_bytes(), mnote(n).cmx().unwrap().to_repr(), "commitment in step {} of related calls", step);
            }
            4 => same!(
                w.fvk.address_at(i, scope(s)).to_raw_address_bytes(),
                w.keys.fvk.address_at(s, &i),
                "address in step {} of related calls",
                step
            ),
            5 => {
                let d = *pick(rng, &ds);
                let ad = w.fvk.to_ivk(scope(s)).address(orchard::keys::Diversifier::from_bytes(d));
                same!(ad.to_raw_address_bytes(), model::address(&w.mivk(s), &d), "address in step {} of related calls", step);
            }
            6 => {
                let of = &wallets[rng.gen_range(0..3)];
                let ad = of.fvk.address_at(i, scope(s));
                let want = (of.keys.fvk.to_bytes() == w.keys.fvk.to_bytes()).then_some(scope(s));
                same!(w.fvk.scope_for_address(&ad), want, "owner of an address in step {} of related calls", step);
            }
            7 => {
                let pos = *pick(rng, &[0u32, 1, 1 << 31, u32::MAX]);
                let l = *pick(rng, &[leaf, leaf + Base::ONE]);
                let mut p = path;
                if rng.gen() {
                    p[31] += Base::ONE;
                }
                same!(
                    path_of(pos, &p).root(ExtractedNoteCommitment::from_bytes(&l.to_repr()).unwrap()).to_bytes(),
                    model::merkle_root_from_path(&l, pos, &p).to_repr(),
                    "root in step {} of related calls",
                    step
                );
            }
            8 => {
                let v = *pick(rng, &[0u64, 5, 6]);
                let r = *pick(rng, &[r1, r2, Scalar::ZERO]);
                let neg = rng.gen();
                let (a, b) = (NoteValue::from_raw(if neg { 0 } else { v }), NoteValue::from_raw(if neg { v } else { 0 }));
                same!(
                    ValueCommitment::derive(a - b, ValueCommitTrapdoor::from_bytes(r.to_repr()).unwrap()).to_bytes(),
                    model::value_commit(if neg { -(v as i128) } else { v as i128 }, &r).to_bytes(),
                    "value commitment in step {} of related calls",
                    step
                );
            }
            9 => {
                let len = *pick(rng, &[32usize, 63, 64]);
                let (coin, acc) = (*pick(rng, &[133u32, 1]), rng.gen_range(0..3u32));
                let got = SpendingKey::from_zip32_seed(&zseed[..len], coin, AccountId::try_from(acc).unwrap()).map_err(|_| "zip32 refused")?;
                let want = model::zip32_derive(&zseed[..len], &[32, coin, acc]).0;
                same!(*got.to_bytes(), want, "derived key in step {} of related calls", step);
            }
            10 => {
                let mut m = plain.clone();
                let (a, f) = (rng.gen_range(0..2), rng.gen_range(0..5));
                match f {
                    0 => m[a].enc[579] ^= 1,
                    1 => m[a].out[79] ^= 1,
                    2 => m.swap(0, 1),
                    _ => (),
                }
                let bal = *pick(rng, &[0i64, 1, -1]);
                let e = MEffects { actions: m.clone(), flags: 3, balance: bal, anchor: Anchor::empty_tree().to_bytes() };
                let b = plain_bundle(&m, bal);
                same!(<[u8; 32]>::from(b.commitment()), e.txid_commitment(), "commitment in step {} of related calls", step);
                same!(Some((&b.binding_validating_key()).into()), e.balance_key(), "binding key in step {} of related calls", step);
            }
            11 => {
                let (m, g) = (rng.gen_range(0..2), rng.gen_range(0..2));
                same!(vk.verify(&msgs[m], &sigs[g]).is_ok(), m == g, "verdict on a signature in step {} of related calls", step);
                let sb: [u8; 64] = (&sigs[g]).into();
                same!(model::redpallas_verify(&model::spend_auth_base(), &vkb, &msgs[m], &sb), m == g, "harness");
            }
            _ => {
                let k = w.fvk.to_ivk(scope(s));
                let mut want = w.keys.fvk.scoped(s).dk_ovk().0.to_vec();
                want.extend_from_slice(&w.mivk(s).to_repr());
                same!(k.to_bytes().to_vec(), want, "incoming key in step {} of related calls", step);
                let ovk = w.fvk.to_ovk(scope(s));
                same!(*ovk.as_ref(), w.movk(s), "outgoing key in step {} of related calls", step);
            }
        }
        ctx.event("related calls");
    }
    Ok(())
}

pub fn c19(ctx: &Ctx) {
    ctx.rule(
        "the same operations (14 kinds across the whole API, and complete build-prove-sign-verify \
         lives under a fixed random stream) repeated in different orders, on many threads at once, \
         as the very first use in fresh processes raced from 2-16 threads, and with different \
         sizes of the proving thread pool: every result must be bit-identical. Distinct by \
         (operation, seed) and race.",
    );
    ctx.require("operations repeated", 200);
    ctx.require("first-use races", 6);
    ctx.require("lives compared", 3);
    // Reference results, computed one after another.
    let seeds = ctx.n(12, 60);
    let want: Mutex<BTreeMap<(usize, u64), [u8; 32]>> = Mutex::new(BTreeMap::new());
    ctx.setup(1, "reference", OPS as u64 * seeds, |i, _| {
        let (k, s) = (i as usize % OPS, i / OPS as u64);
        want.lock().unwrap().insert((k, s), op(k, s));
        ctx.distinct("operation", &[k as u8, s as u8]);
        Ok(())
    });
    let want = want.into_inner().unwrap();
    // Random histories: the same answers whatever came before and whatever runs alongside.
    ctx.run("history", ctx.n(200, 5000), |_, rng| {
        let len = rng.gen_range(3..30);
        for _ in 0..len {
            let k = rng.gen_range(0..OPS);
            let s = rng.gen_range(0..seeds);
            let got = op(k, s);
            if let Some(w) = want.get(&(k, s)) {
                same!(hex::encode(got), hex::encode(w), "operation {} with seed {} in another history", k, s);
                ctx.event("operations repeated");
            }
        }
        Ok(())
    });
    // Histories of calls whose arguments are related: they share keys, diversifiers (or parts of
    // them), seeds, positions, values or proofs. Whatever an earlier call left behind must not
    // answer for a later one. The memoryless model gives the reference.
    ctx.require("related calls", 2000);
    ctx.run("related", ctx.n(64, 1500), |_, rng| related(ctx, rng));
    let exe = std::env::current_exe().expect("own path");
    let run_child = |args: &[String], pool: Option<usize>| -> Result<String, String> {
        let mut c = Command::new(&exe);
        c.args(args);
        if let Some(n) = pool {
            c.env("RAYON_NUM_THREADS", n.to_string());
        }
        let o = c.output().map_err(|e| format!("harness: {}", e)).unwrap();
        if !o.status.success() {
            return Err(format!("a fresh process failed: {}", String::from_utf8_lossy(&o.stderr)));
        }
        Ok(String::from_utf8_lossy(&o.stdout).to_string())
    };
    ctx.run_on(2, "first use", ctx.n(24, 300), |i, rng| {
        let n = *pick(rng, &[2, 3, 4, 8, 16]);
        let out = run_child(&["--race".into(), n.to_string(), i.to_string()], None)?;
        let reference: Vec<String> = (0..OPS).map(|k| hex::encode(op(k, 7))).collect();
        let lines: Vec<&str> = out.lines().collect();
        same!(lines.len(), n, "threads that finished");
        for (t, l) in lines.iter().enumerate() {
            for (k, d) in l.split(' ').enumerate() {
                same!(d, reference[k], "operation {} raced as a first use on thread {} of {}", k, t, n);
                ctx.event("raced results compared");
            }
        }
        ctx.event("first-use races");
        ctx.distinct("race", &[n as u8, i as u8]);
        Ok(())
    });
    // Proving: independent of the thread pool, of concurrency and of the process.
    let lives = ctx.n(1, 4);
    for l in 0..lives {
        let seed = ctx.seed * 100 + l;
        let reference = Mutex::new(vec![]);
        ctx.setup(1, &format!("life {}", l), 1, |_, _| {
            *reference.lock().unwrap() = life(seed)?;
            Ok(())
        });
        let reference = reference.into_inner().unwrap();
        ctx.run_on(3, &format!("lives {}", l), 3, |i, _| {
            let got = match i {
                0 => hex::encode(life(seed)?),
                1 => run_child(&["--life".into(), "0".into(), seed.to_string()], Some(1))?.trim().to_string(),
                _ => run_child(&["--life".into(), "0".into(), seed.to_string()], Some(5))?.trim().to_string(),
            };
            ensure!(
                got == hex::encode(&reference),
                "a bundle made from the same random stream differs ({})",
                ["made concurrently", "one proving thread, fresh process", "five proving threads, fresh process"][i as usize]
            );
            ctx.event("lives compared");
            Ok(())
        });
    }
    // Verdicts do not depend on what was verified before: twins of a valid bundle that share its
    // proof or its signatures are refused between two acceptances of the original.
    ctx.run_seq("verdict history", ctx.n(1, 4), |_, rng| {
        let sc = visible(rng, 1, 2);
        let made = proofs::prove(sc, rng)?;
        let (raw, sh) = (Raw::of(&made.auth), made.sighash);
        let mut twins: Vec<(&str, Raw)> = vec![("nothing", raw.clone())];
        for f in 0..7 {
            let mut t = raw.clone();
            let what = match f {
                0 => { t.effects.anchor = rand_base(rng).to_repr(); "anchor" }
                1 => { t.effects.flags ^= 1; "flags" }
                2 => { t.effects.actions[0].cmx = rand_base(rng).to_repr(); "cmx" }
                3 => { t.effects.actions[1].nf = rand_base(rng).to_repr(); "nullifier" }
                4 => { t.proof[64] ^= 1; "proof" }
                5 => { t.binding[40] ^= 1; "binding signature" }
                _ => { t.sigs[1][40] ^= 1; "spend signature" }
            };
            twins.push((what, t));
        }
        for _ in 0..24 {
            let k = if rng.gen_range(0..3) == 0 { 0 } else { rng.gen_range(0..twins.len()) };
            let b = match twins[k].1.assemble() {
                Some(b) => b,
                None => continue,
            };
            let here = match rng.gen_range(0..3) {
                0 => proofs::valid(&b, &sh),
                1 => proofs::batch_ok(&[(&b, sh)], rng),
                _ => std::thread::scope(|s| s.spawn(|| proofs::valid(&b, &sh)).join().unwrap()),
            };
            same!(here, k == 0, "verdict on a bundle with another {} in a history of verdicts", twins[k].0);
            ctx.event("verdicts in histories");
        }
        Ok(())
    });
    // Keys built again, concurrently, verify the same things.
    ctx.run_seq("keys again", 1, |_, rng| {
        let sc = visible(rng, 1, 1);
        let made = proofs::prove(sc, rng)?;
        let vks: Vec<VerifyingKey> = std::thread::scope(|s| {
            let hs: Vec<_> = (0..2).map(|_| s.spawn(VerifyingKey::build)).collect();
            hs.into_iter().map(|h| h.join().unwrap()).collect()
        });
        let mut bad = Raw::of(&made.auth);
        bad.effects.actions[0].cmx = rand_base(rng).to_repr();
        let bad = sut::<orchard::Bundle<orchard::bundle::Authorized, i64>>(bad.assemble(), "a bundle");
        std::thread::scope(|s| {
            let hs: Vec<_> = (0..8)
                .map(|i| {
                    let (vk, good, bad) = (&vks[i % 2], &made.auth, &bad);
                    s.spawn(move || (good.verify_proof(vk).is_ok(), bad.verify_proof(vk).is_ok()))
                })
                .collect();
            for h in hs {
                same!(h.join().unwrap(), (true, false), "verdicts under rebuilt keys on concurrent threads");
                ctx.event("concurrent verdicts");
            }
            Ok(())
        })
    });
}

// ---------------------------------------------------------------- C21

fn sig_case<T: SigType>(ctx: &Ctx, rng: &mut Rng, base: Point, name: &str) -> Verdict
where
    SigningKey<T>: Clone,
{
    let sk_s = edge_scalar(rng);
    let sk: SigningKey<T> = sut(SigningKey::try_from(sk_s.to_repr()).ok(), "a canonical signing key");
    let vk = VerificationKey::<T>::from(&sk);
    let vkb: [u8; 32] = (&vk).into();
    same!(vkb, (base * sk_s).to_bytes(), "{} validating key of {:?}", name, sk_s);
    let mut msg = vec![0; *pick(rng, &[0, 1, 31, 32, 32, 32, 33, 64, 500])];
    rng.fill_bytes(&mut msg);
    let sig = sk.sign(&mut *rng, &msg);
    let sb: [u8; 64] = (&sig).into();
    ensure!(model::redpallas_verify(&base, &vkb, &msg, &sb), "{} signature does not satisfy the equation", name);
    ensure!(vk.verify(&msg, &sig).is_ok(), "{} signature refused", name);
    ctx.event("signatures made");
    ctx.distinct("signature", &sb);
    ctx.sample(name, || format!("vk={} msg={} bytes sig={}", hex::encode(vkb), msg.len(), hex::encode(sb)));
    // A signature by the specification, with an edge nonce.
    let nonce = edge_scalar(rng);
    let ms = model::redpallas_sign(&base, &sk_s, &nonce, &msg);
    ensure!(vk.verify(&msg, &Signature::<T>::from(ms)).is_ok(), "{} signature by the specification refused (nonce {:?})", name, nonce);

    // Anything else: the crate and the equation must agree.
    let other = SigningKey::<T>::try_from(rand_scalar(rng).to_repr()).unwrap();
    for _ in 0..10 {
        let (mut v, mut m, mut s) = (vkb, msg.clone(), sb);
        let what = match rng.gen_range(0..12) {
            0 => {
                s[rng.gen_range(0..32)] ^= 1 << rng.gen_range(0..8);
                "R altered"
            }
            1 => {
                s[32 + rng.gen_range(0..32usize)] ^= 1 << rng.gen_range(0..8);
                "S altered"
            }
            2 => {
                if m.is_empty() {
                    m.push(0);
                } else {
                    let k = rng.gen_range(0..m.len());
                    m[k] ^= 1 << rng.gen_range(0..8);
                }
                "message altered"
            }
            3 => {
                m.push(0);
                "message extended"
            }
            4 => {
                v = (&VerificationKey::from(&other)).into();
                "other key"
            }
            5 => {
                v[31] ^= 0x80;
                "negated key"
            }
            6 => {
                s[31] ^= 0x80;
                "negated R"
            }
            7 => {
                // S plus the group order: the same scalar, not canonically encoded.
                let q = num_bigint::BigUint::parse_bytes(b"40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001", 16).unwrap();
                let x = num_bigint::BigUint::from_bytes_le(&s[32..]) + q;
                let b = x.to_bytes_le();
                s[32..].fill(0);
                s[32..32 + b.len()].copy_from_slice(&b);
                "S not reduced"
            }
            8 => {
                let r = Option::<Scalar>::from(Scalar::from_repr(s[32..].try_into().unwrap())).unwrap();
                s[32..].copy_from_slice(&(-r).to_repr());
                "S negated"
            }
            9 => {
                s = [0; 64];
                "all-zero signature"
            }
            10 => {
                // Under the identity key anybody can sign, by the equation.
                v = [0; 32];
                let n = rand_scalar(rng);
                s = model::redpallas_sign(&base, &Scalar::ZERO, &n, &m);
                "identity key"
            }
            _ => {
                s = bytes(rng);
                "noise"
            }
        };
        let vk2 = match VerificationKey::<T>::try_from(v) {
            Ok(k) => k,
            Err(_) => continue,
        };
        let want = model::redpallas_verify(&base, &v, &m, &s);
        same!(vk2.verify(&m, &Signature::<T>::from(s)).is_ok(), want, "{} verdict with {}", name, what);
        ctx.event(if want { "unusual signatures accepted" } else { "forgeries refused" });
        ctx.distinct("kinds of forgery", what.as_bytes());
    }
    // Nonces: a stuck generator must not make two messages share one.
    let b = rng.gen_range(0..0x40);
    let s1: [u8; 64] = (&sk.sign(Stuck::new(b), b"one message")).into();
    let s2: [u8; 64] = (&sk.sign(Stuck::new(b), b"another one")).into();
    ensure!(s1[..32] != s2[..32], "two messages were signed with one nonce");
    let s3: [u8; 64] = (&other.sign(Stuck::new(b), b"one message")).into();
    ensure!(s1[..32] != s3[..32], "two keys signed with one nonce");
    let s4: [u8; 64] = (&sk.sign(&mut *rng, b"one message")).into();
    ensure!(s1 != s4, "signing ignores the generator");
    ctx.event("nonce pairs compared");
    Ok(())
}

pub fn c21(ctx: &Ctx) {
    ctx.rule(
        "signatures of both kinds under edge and random keys, messages and nonces, made by the \
         crate and by the specification; altered in 12 ways; accepted exactly when the RedDSA \
         equation holds with canonical encodings; key randomization commutes with derivation; \
         batches accept exactly when every item does. Distinct by signature.",
    );
    ctx.require("signatures made", 100);
    ctx.require("forgeries refused", 500);
    ctx.require("kinds of forgery", 12);
    ctx.require("batches accepted", 10);
    ctx.require("batches refused", 10);
    ctx.run("spend authorization", ctx.n(2400, 8000), |_, rng| {
        sig_case::<SpendAuth>(ctx, rng, model::spend_auth_base(), "spend authorization")
    });
    ctx.run("binding", ctx.n(2400, 8000), |_, rng| sig_case::<Binding>(ctx, rng, model::rcv_base(), "binding"));
    ctx.run("randomize", ctx.n(2000, 8000), |_, rng| {
        let (sk_s, alpha, beta) = (edge_scalar(rng), edge_scalar(rng), edge_scalar(rng));
        let sk: SigningKey<SpendAuth> = sut(SigningKey::try_from(sk_s.to_repr()).ok(), "a canonical signing key");
        let vk = VerificationKey::from(&sk);
        let rsk = sk.randomize(&alpha);
        let rvk = vk.randomize(&alpha);
        same!(<[u8; 32]>::from(&rsk), (sk_s + alpha).to_repr(), "randomized signing key");
        same!(<[u8; 32]>::from(&rvk), (model::spend_auth_base() * (sk_s + alpha)).to_bytes(), "randomized validating key");
        ensure!(VerificationKey::from(&rsk) == rvk, "randomizing the two halves of a key disagrees");
        same!(<[u8; 32]>::from(&rvk.randomize(&beta)), (model::spend_auth_base() * (sk_s + alpha + beta)).to_bytes(), "randomized twice");
        let m: [u8; 32] = bytes(rng);
        let s = rsk.sign(&mut *rng, &m);
        ensure!(rvk.verify(&m, &s).is_ok(), "a signature under a randomized key is refused");
        if alpha != Scalar::ZERO {
            ensure!(vk.verify(&m, &s).is_err(), "a signature under a randomized key verifies under the original");
        }
        ctx.event("randomizations");
        Ok(())
    });
    ctx.run("batch", ctx.n(1500, 5000), |_, rng| {
        let n = rng.gen_range(0..12);
        let mut v = batch::Verifier::<SpendAuth, Binding>::new();
        let mut want = true;
        for _ in 0..n {
            let m: [u8; 32] = bytes(rng);
            let k = edge_scalar(rng);
            let forge = rng.gen_range(0..8) == 0;
            let spend: bool = rng.gen();
            let base = if spend { model::spend_auth_base() } else { model::rcv_base() };
            let mut s = model::redpallas_sign(&base, &k, &rand_scalar(rng), &m);
            if forge {
                // Forge so that errors of equal size and opposite sign could cancel.
                let x = Option::<Scalar>::from(Scalar::from_repr(s[32..].try_into().unwrap())).unwrap();
                let d = Scalar::from(rng.gen_range(1..3));
                s[32..].copy_from_slice(&(if rng.gen() { x + d } else { x - d }).to_repr());
            }
            let vkb = (base * k).to_bytes();
            let ok = model::redpallas_verify(&base, &vkb, &m, &s);
            want &= ok;
            if spend {
                let vk: VerificationKey<SpendAuth> = sut(VerificationKey::try_from(vkb).ok(), "a validating key");
                let item = vk.create_batch_item(Signature::from(s), &m);
                same!(item.clone().verify_single().is_ok(), ok, "verdict on a batch item alone");
                v.queue(item);
            } else {
                let vk: VerificationKey<Binding> = sut(VerificationKey::try_from(vkb).ok(), "a validating key");
                let item = vk.create_batch_item(Signature::from(s), &m);
                same!(item.clone().verify_single().is_ok(), ok, "verdict on a batch item alone");
                v.queue(item);
            }
        }
        same!(v.verify(&mut *rng).is_ok(), want, "verdict on a batch of {}", n);
        ctx.event(if want { "batches accepted" } else { "batches refused" });
        Ok(())
    });
    let _ = redpallas::batch::Verifier::<SpendAuth, Binding>::new();
}

// ---------------------------------------------------------------- C22

pub fn c22(ctx: &Ctx) {
    ctx.rule(
        "note values over the whole 64-bit range and sums of up to 12 of their differences, \
         compared with exact integer arithmetic (results and refusals); value commitments compared \
         with the specification, added, subtracted and summed; binding keys of assembled bundles \
         at every extreme of the value balance. Distinct by operands.",
    );
    ctx.require("sums in range", 100);
    ctx.require("sums refused", 100);
    ctx.require("commitments compared", 100);
    ctx.require("binding keys compared", 50);
    const MAX: i128 = u64::MAX as i128;
    let i64_of = |v: ValueSum| i64::try_from(v).ok();
    ctx.run("arithmetic", ctx.n(8000, 200000), |_, rng| {
        let n = rng.gen_range(1..=12);
        let small = rng.gen_range(0..3) == 0;
        let mut vs: Vec<(ValueSum, i128)> = vec![];
        for _ in 0..n {
            let (a, b) = if small { (edge_u64(rng) >> 32, edge_u64(rng) >> 32) } else { (edge_u64(rng), edge_u64(rng)) };
            let d = NoteValue::from_raw(a) - NoteValue::from_raw(b);
            let e = a as i128 - b as i128;
            same!(i64_of(d), i64::try_from(e).ok(), "{} - {}", a, b);
            vs.push((d, e));
            ctx.distinct("difference", &e.to_le_bytes());
        }
        // Pairs.
        let (x, y) = (*pick(rng, &vs), *pick(rng, &vs));
        let sum = x.0 + y.0;
        let e = x.1 + y.1;
        same!(sum.is_some(), e.abs() <= MAX, "whether {} + {} is in range", x.1, y.1);
        if let Some(s) = sum {
            same!(i64_of(s), i64::try_from(e).ok(), "{} + {}", x.1, y.1);
            // Beyond 64 bits, look at it through subtraction back into range.
            let zero = s + (NoteValue::from_raw((-e).max(0) as u64) - NoteValue::from_raw(e.max(0) as u64));
            same!(zero.map(|z| z == ValueSum::default()), Some(true), "{} + {} less itself", x.1, y.1);
        }
        same!(x.0 == y.0, x.1 == y.1, "comparison of {} and {}", x.1, y.1);
        // Whole sums.
        let exact: i128 = vs.iter().map(|v| v.1).sum();
        let mut acc = 0i128;
        let steps_ok = vs.iter().all(|v| {
            acc += v.1;
            acc.abs() <= MAX
        });
        let by_value: Result<ValueSum, OverflowError> = vs.iter().map(|v| v.0).collect::<Vec<_>>().into_iter().sum();
        let refs: Vec<ValueSum> = vs.iter().map(|v| v.0).collect();
        let by_ref: Result<ValueSum, OverflowError> = refs.iter().sum();
        for s in [by_value, by_ref] {
            match s {
                Ok(s) => {
                    ensure!(exact.abs() <= MAX, "a sum of {} was not refused", exact);
                    same!(i64_of(s), i64::try_from(exact).ok(), "sum of {:?}", vs.iter().map(|v| v.1).collect::<Vec<_>>());
                    let zero = s + (NoteValue::from_raw((-exact).max(0) as u64) - NoteValue::from_raw(exact.max(0) as u64));
                    same!(zero.map(|z| z == ValueSum::default()), Some(true), "a sum less itself");
                    ctx.event("sums in range");
                }
                Err(_) => {
                    ensure!(!steps_ok, "a sum within range was refused: {:?}", vs.iter().map(|v| v.1).collect::<Vec<_>>());
                    ctx.event("sums refused");
                }
            }
        }
        Ok(())
    });
    ctx.run("commitments", ctx.n(4000, 10000), |_, rng| {
        let mut total = 0i128;
        let mut total_r = Scalar::ZERO;
        let mut cvs = vec![];
        let mut traps = vec![];
        for _ in 0..rng.gen_range(1..6) {
            let (a, b) = (edge_u64(rng), edge_u64(rng));
            let v = a as i128 - b as i128;
            let r = edge_scalar(rng);
            let t: ValueCommitTrapdoor = sut(ValueCommitTrapdoor::from_bytes(r.to_repr()), "a canonical trapdoor");
            let cv = ValueCommitment::derive(NoteValue::from_raw(a) - NoteValue::from_raw(b), t.clone());
            same!(cv.to_bytes(), model::value_commit(v, &r).to_bytes(), "commitment to {} with {:?}", v, r);
            ctx.event("commitments compared");
            ctx.distinct("commitment", &cv.to_bytes());
            total += v;
            total_r += r;
            cvs.push(cv);
            traps.push(t);
        }
        let want = model::value_commit(total, &total_r).to_bytes();
        same!(cvs.iter().sum::<ValueCommitment>().to_bytes(), want, "sum of commitments");
        same!(cvs.iter().cloned().sum::<ValueCommitment>().to_bytes(), want, "sum of commitments, by value");
        let mut acc = cvs[0].clone();
        for c in &cvs[1..] {
            acc = acc + c;
        }
        same!(acc.to_bytes(), want, "commitments added one by one");
        for c in cvs.iter().rev() {
            acc = acc - c.clone();
        }
        same!(acc.to_bytes(), [0; 32], "commitments taken away again");
        same!(Vec::<ValueCommitment>::new().iter().sum::<ValueCommitment>().to_bytes(), [0; 32], "the empty sum");
        // Sums of trapdoors.
        let t: ValueCommitTrapdoor = traps.iter().sum();
        same!(ValueCommitment::derive(ValueSum::default(), t).to_bytes(), (model::rcv_base() * total_r).to_bytes(), "sum of trapdoors");
        let mut t = traps[0].clone();
        for u in &traps[1..] {
            t = t + u;
        }
        same!(ValueCommitment::derive(ValueSum::default(), t).to_bytes(), (model::rcv_base() * total_r).to_bytes(), "trapdoors added");
        Ok(())
    });
    ctx.run("binding keys", ctx.n(3000, 8000), |i, rng| {
        let n = rng.gen_range(1..6);
        let mut ms = rand_plain(rng, n);
        let balance = match i % 8 {
            0 => i64::MAX,
            1 => i64::MIN,
            2 => i64::MIN + 1,
            3 => 0,
            4 => *pick(rng, &[1, -1, 2, -2]),
            _ => rng.gen(),
        };
        // Sometimes arrange that the key is one we hold: values that balance.
        let bsk = rand_scalar(rng);
        let own = rng.gen();
        if own {
            let mut rest = bsk;
            let mut left = balance as i128;
            for (k, m) in ms.iter_mut().enumerate() {
                let (v, r) = if k + 1 == n {
                    (left, rest)
                } else {
                    (edge_u64(rng) as i128 - edge_u64(rng) as i128, rand_scalar(rng))
                };
                left -= v;
                rest -= r;
                m.cv = model::value_commit(v, &r).to_bytes();
            }
        }
        let e = MEffects { actions: ms.clone(), flags: 3, balance, anchor: Anchor::empty_tree().to_bytes() };
        let b = plain_bundle(&ms, balance);
        let got: [u8; 32] = (&b.binding_validating_key()).into();
        same!(got, e.balance_key().unwrap(), "binding validating key at balance {}", balance);
        if own {
            same!(got, (model::rcv_base() * bsk).to_bytes(), "binding validating key of a balanced bundle");
            let k: SigningKey<Binding> = sut(SigningKey::try_from(bsk.to_repr()).ok(), "a signing key");
            let m: [u8; 32] = bytes(rng);
            ensure!(b.binding_validating_key().verify(&m, &k.sign(&mut *rng, &m)).is_ok(), "binding signature of a balanced bundle refused");
            // One unit off the declared balance, it is refused.
            let off = plain_bundle(&ms, balance.wrapping_add(if rng.gen() { 1 } else { -1 }));
            ensure!(off.binding_validating_key().verify(&m, &k.sign(&mut *rng, &m)).is_err(), "binding signature accepted at another balance");
        }
        ctx.event("binding keys compared");
        Ok(())
    });
    let _ = plain_action;
}
