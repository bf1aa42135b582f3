//! C20: nothing an untrusted party can send makes the library panic, and no malformed bundle is
//! accepted.

use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use halo2_proofs::plonk::BatchVerifier;
use memuse::DynamicUsage;
use orchard::{
    bundle::{Authorized, BatchValidator, Bundle, Flags},
    circuit::Instance,
    keys::{
        Diversifier, FullViewingKey, IncomingViewingKey, OutgoingViewingKey,
        PreparedIncomingViewingKey, Scope, SpendAuthorizingKey, SpendValidatingKey, SpendingKey,
    },
    note::{ExtractedNoteCommitment, Nullifier, RandomSeed, Rho},
    note_encryption::{CompactAction, OrchardDomain},
    primitives::redpallas::{self, Binding, SpendAuth, VerificationKey},
    tree::{MerkleHashOrchard, MerklePath},
    value::{NoteValue, ValueCommitment},
    Action, Address, Anchor, Note, Proof,
};
use rand::Rng as _;
use zcash_note_encryption::{
    batch, try_compact_note_decryption, try_note_decryption, try_output_recovery_with_ovk, Domain, EphemeralKeyBytes,
    ShieldedOutput,
};
use ::zip32::AccountId;

use super::encodings::tricky;
use super::encryption::hostile;
use super::proofs::{self, batch_ok, instances_of, vk, Made};
use crate::model::{self, Base, MAction, MEffects, Point};
use crate::mon::{Ctx, Rng, Verdict};
use crate::world::*;
use crate::ensure;

/// A field of an action as an attacker may choose it: something that parses more often than not.
fn evil_point(rng: &mut Rng) -> [u8; 32] {
    match rng.gen_range(0..8) {
        0 => [0; 32],
        1 => model::spend_auth_base().to_bytes(),
        2 => model::value_base().to_bytes(),
        3 => (-model::rcv_base()).to_bytes(),
        4 => tricky(rng),
        _ => Point::random(&mut *rng).to_bytes(),
    }
}

fn evil_base(rng: &mut Rng) -> [u8; 32] {
    match rng.gen_range(0..8) {
        0 => tricky(rng),
        _ => edge_base(rng).to_repr(),
    }
}

fn evil_action(rng: &mut Rng, w: &Wallet) -> MAction {
    if rng.gen_range(0..3) == 0 {
        let ovk = w.movk(model::MScope::External);
        let mut a = hostile(rng, w, &ovk).0;
        if rng.gen_range(0..3) == 0 {
            a.rk = evil_point(rng);
        }
        return a;
    }
    let mut a = MAction {
        nf: evil_base(rng),
        rk: evil_point(rng),
        cmx: evil_base(rng),
        cv: evil_point(rng),
        epk: evil_point(rng),
        enc: [0; 580],
        out: [0; 80],
    };
    let fill = rng.gen_range(0..3);
    if fill > 0 {
        a.enc = bytes(rng);
        a.out = bytes(rng);
    }
    if fill > 1 {
        a.enc = [0xff; 580];
        a.out = [0xff; 80];
    }
    a
}

fn evil_balance(rng: &mut Rng) -> i64 {
    *pick(rng, &[0, 1, -1, i64::MAX, i64::MIN, i64::MIN + 1, 21_000_000 * 100_000_000, -21_000_000 * 100_000_000, 12345])
}

fn evil_sig(rng: &mut Rng) -> [u8; 64] {
    let mut s = [0; 64];
    s[..32].copy_from_slice(&evil_point(rng));
    let t = tricky(rng);
    s[32..].copy_from_slice(&t);
    s
}

/// Proof bytes of an attacker: random, structured, or a mangled real proof.
fn evil_proof(rng: &mut Rng, real: &[u8], actions: usize) -> (Vec<u8>, &'static str) {
    let honest_len = 2720 + 2272 * actions;
    match rng.gen_range(0..14) {
        0 => (vec![], "empty proof"),
        1 => (vec![0; honest_len], "zero proof"),
        2 => (vec![0xff; honest_len], "all-ones proof"),
        3 => ((0..honest_len).map(|_| rng.gen()).collect(), "random proof"),
        4 => ((0..rng.gen_range(0..100_000)).map(|_| rng.gen()).collect(), "random proof of any length"),
        5 => {
            // Words that each decode, as points or scalars.
            let mut v = vec![];
            while v.len() < honest_len {
                v.extend_from_slice(&Point::random(&mut *rng).to_bytes());
            }
            (v, "points")
        }
        6 => {
            let g = pasta_curves::vesta::Point::generator().to_bytes();
            (g.iter().cycle().take(honest_len).cloned().collect(), "one point all over")
        }
        7 => {
            let cut = rng.gen_range(0..=real.len());
            (real[..cut].to_vec(), "truncated proof")
        }
        8 => {
            let cut = rng.gen_range(0..=real.len() / 32) * 32;
            (real[..cut].to_vec(), "proof truncated at a word")
        }
        9 => {
            let mut v = real.to_vec();
            let w = rng.gen_range(0..v.len() / 32) * 32;
            v[w..w + 32].fill(0);
            (v, "a word of the proof zeroed")
        }
        10 => {
            let mut v = real.to_vec();
            let w = rng.gen_range(0..v.len() / 32) * 32;
            let t = tricky(rng);
            v[w..w + 32].copy_from_slice(&t);
            (v, "a tricky word in the proof")
        }
        11 => {
            let mut v = real.to_vec();
            for _ in 0..rng.gen_range(1..20) {
                let i = rng.gen_range(0..v.len());
                v[i] ^= 1 << rng.gen_range(0..8);
            }
            (v, "bits of the proof flipped")
        }
        12 => {
            let mut v = real.to_vec();
            let w = rng.gen_range(0..v.len() / 32) * 32;
            let k = rng.gen_range(0..v.len() / 32) * 32;
            let x: Vec<u8> = v[w..w + 32].to_vec();
            v[k..k + 32].copy_from_slice(&x);
            if w == k {
                v[w] ^= 1;
            }
            (v, "words of the proof moved")
        }
        _ => (real.to_vec(), "proof of something else"),
    }
}

/// What a hostile peer can send: any bundle that parses.
fn evil_bundle(ctx: &Ctx, rng: &mut Rng, pool: &[Raw]) -> (Option<Bundle<Authorized, i64>>, String, MEffects) {
    let w = Wallet::random(rng);
    let real = pick(rng, pool).clone();
    let mut r = real.clone();
    let mut what = String::new();
    if rng.gen() {
        let n = *pick(rng, &[1, 1, 2, 2, 3, 4, 5, 8, 17]);
        r.effects.actions = (0..n).map(|_| evil_action(rng, &w)).collect();
        r.sigs = (0..n).map(|_| evil_sig(rng)).collect();
        what.push_str("made-up actions");
    } else {
        // A real bundle with fields replaced by edges.
        for _ in 0..rng.gen_range(1..4) {
            let i = rng.gen_range(0..r.effects.actions.len());
            match rng.gen_range(0..8) {
                0 | 1 => {
                    r.effects.actions[i].rk = evil_point(rng);
                    what.push_str("rk ");
                }
                2 => {
                    r.effects.actions[i].cv = evil_point(rng);
                    what.push_str("cv ");
                }
                3 => {
                    r.effects.actions[i].nf = evil_base(rng);
                    what.push_str("nf ");
                }
                4 => {
                    r.effects.actions[i].cmx = evil_base(rng);
                    what.push_str("cmx ");
                }
                5 => {
                    r.effects.actions[i].epk = evil_point(rng);
                    what.push_str("epk ");
                }
                6 => {
                    r.sigs[i] = evil_sig(rng);
                    what.push_str("sig ");
                }
                _ => {
                    let a = evil_action(rng, &w);
                    r.effects.actions[i] = a;
                    what.push_str("action ");
                }
            }
        }
    }
    if rng.gen() {
        r.effects.anchor = evil_base(rng);
        what.push_str(" anchor");
    }
    if rng.gen() {
        r.effects.flags = *pick(rng, &[0, 1, 2, 3, 3, 3, 4, 255]);
        what.push_str(" flags");
    }
    if rng.gen() {
        r.effects.balance = evil_balance(rng);
        what.push_str(" balance");
    }
    if rng.gen() {
        r.binding = evil_sig(rng);
        what.push_str(" binding");
    }
    if rng.gen_range(0..3) != 0 {
        let (p, k) = evil_proof(rng, &real.proof, r.effects.actions.len());
        ctx.event(&format!("proof: {}", k));
        r.proof = p;
        what.push_str(" ");
        what.push_str(k);
    }
    ctx.distinct("hostile shape", what.as_bytes());
    if r.effects == real.effects && r.proof == real.proof && r.sigs == real.sigs && r.binding == real.binding {
        r.binding[0] ^= 1;
    }
    if r.effects.actions.iter().any(|a| a.rk == [0; 32]) {
        ctx.event("bundles with an identity rk");
    }
    if r.effects.actions.iter().any(|a| a.cv == [0; 32]) {
        ctx.event("bundles with an identity cv");
    }
    (r.assemble(), what, r.effects)
}

/// Everything a node or wallet does with a bundle from the network.
fn consume(ctx: &Ctx, rng: &mut Rng, b: &Bundle<Authorized, i64>, e: &MEffects, what: &str, heavy: bool) -> Verdict {
    let sh: [u8; 32] = proofs::crate_sighash(b);
    let _ = proofs::auth_bytes(b);
    let _ = (b.flags().to_byte(), b.value_balance(), b.anchor().to_bytes());
    let _ = b.binding_validating_key();
    let _ = (b.dynamic_usage(), b.dynamic_usage_bounds());
    let text = format!("{:?} {:#?}", b, b);
    ensure!(!text.is_empty(), "no debug output");
    let sigs = crate_sigs_ok(b, &sh);
    for a in b.actions() {
        let i = a.to_instance(*b.flags(), *b.anchor());
        let _ = format!("{:?}", i);
        let c = CompactAction::from(a);
        let _ = (c.nullifier(), c.cmx(), c.rho(), a.rho());
    }
    ctx.event("bundles parsed and inspected");
    if heavy {
        let single = b.verify_proof(vk()).is_ok();
        let inst: Vec<Instance> = b.actions().iter().map(|a| a.to_instance(*b.flags(), *b.anchor())).collect();
        let by_parts = b.authorization().proof().verify(vk(), &inst).is_ok();
        ensure!(single == by_parts, "the two ways to verify a proof disagree on {}", what);
        ensure!(!(single && sigs), "a made-up bundle verifies: {} {:?}", what, e);
        ensure!(!batch_ok(&[(b, sh)], rng), "a made-up bundle passes batch validation: {}", what);
        ctx.event("hostile proofs judged");
    } else {
        let mut v = BatchValidator::new();
        v.add_bundle(b, sh);
        ctx.event("hostile bundles queued");
    }
    Ok(())
}

fn scan(ctx: &Ctx, rng: &mut Rng, b: &Bundle<Authorized, i64>, w: &Wallet) -> Verdict {
    // A hostile set of keys too: whatever decodes.
    let mut ivks: Vec<IncomingViewingKey> = vec![w.ivk(model::MScope::External), w.ivk(model::MScope::Internal)];
    let mut ovks: Vec<OutgoingViewingKey> = vec![OutgoingViewingKey::from(w.movk(model::MScope::External))];
    for _ in 0..3 {
        let mut k = [0; 64];
        let t = tricky(rng);
        k[..32].copy_from_slice(&t);
        k[32..].copy_from_slice(&edge_base(rng).to_repr());
        if let Some(k) = IncomingViewingKey::from_bytes(&k).into() {
            ivks.push(k);
        }
        ovks.push(OutgoingViewingKey::from(tricky(rng)));
    }
    let _ = b.decrypt_outputs_with_keys(&ivks);
    let _ = b.recover_outputs_with_ovks(&ovks);
    let n = b.actions().len();
    for i in [0, n - 1, n, n + 1, usize::MAX] {
        let _ = b.decrypt_output_with_key(i, &ivks[0]);
        let _ = b.recover_output_with_ovk(i, &ovks[0]);
    }
    let prepared: Vec<_> = ivks.iter().map(PreparedIncomingViewingKey::new).collect();
    let full: Vec<(OrchardDomain, Action<redpallas::Signature<SpendAuth>>)> =
        b.actions().iter().map(|a| (OrchardDomain::for_action(a), a.clone())).collect();
    let compact: Vec<(OrchardDomain, CompactAction)> = b
        .actions()
        .iter()
        .map(|a| {
            let c = CompactAction::from(a);
            (OrchardDomain::for_compact_action(&c), c)
        })
        .collect();
    let _ = batch::try_note_decryption(&prepared, &full);
    let _ = batch::try_compact_note_decryption(&prepared, &compact);
    for (d, a) in &full {
        let _ = try_note_decryption(d, &prepared[0], a);
        let mut out = a.encrypted_note().out_ciphertext;
        let t = tricky(rng);
        out[..32].copy_from_slice(&t);
        let _ = try_output_recovery_with_ovk(d, &ovks[0], a, a.cv_net(), &out);
        let _ = (a.ephemeral_key(), a.cmstar_bytes(), a.enc_ciphertext().len());
    }
    for (d, c) in &compact {
        let _ = try_compact_note_decryption(d, &prepared[0], c);
    }
    ctx.event("hostile bundles scanned");
    Ok(())
}

/// Every decoder, on arbitrary bytes; whatever is accepted is then used.
fn decoders(ctx: &Ctx, rng: &mut Rng) -> Verdict {
    let t = tricky(rng);
    let u = tricky(rng);
    let fvk = Wallet::random(rng).fvk;
    let mut used = 0u64;
    let cmx = Option::<ExtractedNoteCommitment>::from(ExtractedNoteCommitment::from_bytes(&t));
    let nf = Option::<Nullifier>::from(Nullifier::from_bytes(&t));
    let h = Option::<MerkleHashOrchard>::from(MerkleHashOrchard::from_bytes(&t));
    if let (Some(cmx), Some(h)) = (cmx, h) {
        let path = MerklePath::from_parts(rng.gen(), [h; 32]);
        let _ = path.root(cmx);
        let _ = path.root(ExtractedNoteCommitment::from_bytes(&Base::ZERO.to_repr()).unwrap());
        used += 1;
    }
    if let Some(nf) = nf {
        let _ = format!("{:?}", nf);
        used += 1;
    }
    if let Some(k) = SpendingKey::from_bytes(t).into() {
        let k: SpendingKey = k;
        let f = FullViewingKey::from(&k);
        let _ = (f.to_bytes(), f.address_at(rand_index(rng), Scope::Internal), f.to_ovk(Scope::External));
        let _ = SpendAuthorizingKey::from(&k).randomize(&edge_scalar(rng)).sign(&mut *rng, &t);
        let _ = SpendValidatingKey::from(f).randomize(&edge_scalar(rng));
        used += 1;
    }
    let mut raw = [0u8; 96];
    raw[..32].copy_from_slice(&t);
    raw[32..64].copy_from_slice(&u);
    raw[64..].copy_from_slice(&edge_scalar(rng).to_repr());
    if let Some(f) = FullViewingKey::from_bytes(&raw) {
        for s in [Scope::External, Scope::Internal] {
            let ad = f.address_at(rand_index(rng), s);
            let _ = f.to_ivk(s).prepare();
            let _ = f.to_ivk(s).diversifier_index(&ad);
            let _ = f.scope_for_address(&ad);
        }
        used += 1;
    }
    let len = rng.gen_range(0..200);
    let noise: Vec<u8> = (0..len).map(|_| rng.gen()).collect();
    let _ = FullViewingKey::read(&noise[..]);
    let mut addr = [0u8; 43];
    addr[..11].copy_from_slice(&t[..11]);
    addr[11..].copy_from_slice(&u);
    if let Some(ad) = Address::from_raw_address_bytes(&addr).into() {
        let ad: Address = ad;
        let _ = (fvk.scope_for_address(&ad), fvk.to_ivk(Scope::External).diversifier_index(&ad), format!("{:?}", ad));
        // A note to it, of any value, from any seed.
        if let Some(r) = Option::<Rho>::from(Rho::from_bytes(&edge_base(rng).to_repr())) {
            if let Some(seed) = Option::<RandomSeed>::from(RandomSeed::from_bytes(t, &r)) {
                if let Some(n) = Option::<Note>::from(Note::from_parts(ad, NoteValue::from_raw(edge_u64(rng)), r, seed)) {
                    let _ = (n.commitment(), n.nullifier(&fvk), format!("{:?}", n));
                    used += 1;
                }
            }
        }
    }
    let mut ivk = [0u8; 64];
    ivk[..32].copy_from_slice(&u);
    ivk[32..].copy_from_slice(&t);
    if let Some(k) = IncomingViewingKey::from_bytes(&ivk).into() {
        let k: IncomingViewingKey = k;
        let ad = k.address_at(rand_index(rng));
        let _ = (k.diversifier_index(&ad), k.prepare(), k.to_bytes());
        used += 1;
    }
    let d = Diversifier::from_bytes(t[..11].try_into().unwrap());
    let _ = fvk.address(d, Scope::External);
    if let Ok(k) = VerificationKey::<SpendAuth>::try_from(t) {
        let s = redpallas::Signature::<SpendAuth>::from(evil_sig(rng));
        let _ = (k.verify(&u, &s), k.randomize(&edge_scalar(rng)), format!("{:?}", k));
        let mut v = redpallas::batch::Verifier::new();
        v.queue(k.create_batch_item(s, &u));
        let _ = v.verify(&mut *rng);
        used += 1;
    }
    if let Ok(k) = VerificationKey::<Binding>::try_from(t) {
        let _ = k.verify(&[], &redpallas::Signature::<Binding>::from(evil_sig(rng)));
        used += 1;
    }
    if let Some(cv) = ValueCommitment::from_bytes(&t).into() {
        let cv: ValueCommitment = cv;
        let _ = (cv.to_bytes(), cv.clone() + &cv, cv.clone() - cv.clone());
        used += 1;
    }
    if let Some(a) = Option::<Anchor>::from(Anchor::from_bytes(t)) {
        let _ = (a.to_bytes(), format!("{:?}", a));
        used += 1;
    }
    let _ = Flags::from_byte(t[0]);
    // Seeds of any length the documentation admits (others are documented to panic), any coin
    // and account.
    let l = *pick(rng, &[32usize, 33, 64, 251, 252]);
    let seed: Vec<u8> = (0..l).map(|_| rng.gen()).collect();
    let account = edge_u32(rng) & 0x7fff_ffff;
    let coin = edge_u32(rng);
    let got = crate::mon::watch(|| SpendingKey::from_zip32_seed(&seed, coin, AccountId::try_from(account).unwrap()));
    match got {
        Ok(Ok(_)) => ctx.event("seeds accepted"),
        Ok(Err(_)) => ctx.event("seeds refused"),
        Err((loc, m)) => return Err(format!("from_zip32_seed panicked on a {}-byte seed at {}: {}", l, loc, m)),
    }
    // Plaintexts chosen by a sender, straight into the parser.
    let ad = fvk.address_at(rand_index(rng), Scope::External);
    let dom_nf = Nullifier::from_bytes(&edge_base(rng).to_repr()).unwrap();
    let c = CompactAction::from_parts(
        dom_nf,
        ExtractedNoteCommitment::from_bytes(&edge_base(rng).to_repr()).unwrap(),
        EphemeralKeyBytes(t),
        {
            let mut x = [0u8; 52];
            rng.fill(&mut x[..]);
            x
        },
    );
    let d = OrchardDomain::for_compact_action(&c);
    let mut np = vec![0u8; *pick(rng, &[52usize, 564])];
    rng.fill(&mut np[..]);
    np[0] = *pick(rng, &[0u8, 1, 2, 2, 2, 3, 255]);
    if rng.gen() {
        np[1..12].copy_from_slice(ad.diversifier().as_array());
    }
    let ivk = fvk.to_ivk(Scope::External).prepare();
    let _ = d.parse_note_plaintext_without_memo_ivk(&ivk, &np[..52]);
    if let Some(pk_d) = OrchardDomain::extract_pk_d(&op(rng)) {
        let mut p = [0u8; 564];
        p[..52].copy_from_slice(&np[..52]);
        let _ = d.parse_note_plaintext_without_memo_ovk(&pk_d, &zcash_note_encryption::NotePlaintextBytes(p));
        used += 1;
    }
    let _ = OrchardDomain::extract_esk(&op(rng));
    if np.len() == 564 {
        let mut p = [0u8; 564];
        p.copy_from_slice(&np);
        let _ = d.extract_memo(&zcash_note_encryption::NotePlaintextBytes(p));
    }
    let _ = try_compact_note_decryption(&d, &ivk, &c);
    let _ = OrchardDomain::epk(&EphemeralKeyBytes(t)).map(OrchardDomain::prepare_epk);
    ctx.events("decoded values used", used);
    ctx.distinct("decoder input", &t);
    Ok(())
}

fn op(rng: &mut Rng) -> zcash_note_encryption::OutPlaintextBytes {
    let mut b = [0u8; 64];
    b[..32].copy_from_slice(&evil_point(rng));
    let t = tricky(rng);
    b[32..].copy_from_slice(&t);
    zcash_note_encryption::OutPlaintextBytes(b)
}

pub fn c20(ctx: &Ctx) {
    ctx.rule(
        "hostile bytes into every decoder, and everything that decodes used; bundles assembled \
         from edge-case fields (identity points, edge scalars, any flags, balance and anchor) with \
         made-up or mangled proofs, then parsed, hashed, printed, scanned with honest and hostile \
         keys, and verified singly, by parts and in batches. Any panic in the crate or below it is \
         a violation, and so is accepting any of it. Runtime assertions and integer-overflow \
         detection are compiled in. Distinct by shape of hostility.",
    );
    ctx.require("bundles parsed and inspected", 200);
    ctx.require("hostile proofs judged", 80);
    ctx.require("hostile bundles scanned", 100);
    ctx.require("decoded values used", 1000);
    ctx.require("bundles with an identity rk", 10);
    ctx.require("bundles with an identity cv", 10);
    let pool: Vec<Made> = proofs::base_pool(ctx, ctx.n(2, 6));
    if pool.is_empty() {
        return;
    }
    let raws: Vec<Raw> = pool.iter().map(|m| Raw::of(&m.auth)).collect();
    ctx.run("decoders", ctx.n(4000, 150_000), |_, rng| decoders(ctx, rng));
    ctx.run("bundles", ctx.n(3000, 20_000), |i, rng| {
        let (b, what, e) = evil_bundle(ctx, rng, &raws);
        match b {
            Some(b) => consume(ctx, rng, &b, &e, &what, i % 2 == 0),
            None => {
                ctx.event("bundles refused when parsed");
                Ok(())
            }
        }
    });
    ctx.run("scanning", ctx.n(2000, 12_000), |_, rng| {
        let w = Wallet::random(rng);
        let (b, _, _) = evil_bundle(ctx, rng, &raws);
        match b {
            Some(b) => scan(ctx, rng, &b, &w),
            None => Ok(()),
        }
    });
    // Hostile bundles must not disturb the rest of what is queued with them.
    ctx.run("mixed batches", ctx.n(300, 600), |_, rng| {
        let mut v = BatchValidator::new();
        let mut bad = 0;
        for _ in 0..rng.gen_range(0..6) {
            if rng.gen() {
                let m = &pool[rng.gen_range(0..pool.len())];
                v.add_bundle(&m.auth, m.sighash);
            } else if let (Some(b), _, _) = evil_bundle(ctx, rng, &raws) {
                v.add_bundle(&b, proofs::crate_sighash(&b));
                bad += 1;
            }
        }
        ensure!(v.validate(vk(), &mut *rng) == (bad == 0), "wrong verdict on a batch with {} hostile bundles", bad);
        ctx.event(if bad > 0 { "hostile batches refused" } else { "honest batches accepted" });
        Ok(())
    });
    // A proof judged against the wrong number of instances.
    ctx.run("instance counts", ctx.n(40, 600), |_, rng| {
        let r = pick(rng, &raws);
        let mut inst = instances_of(&r.effects);
        let n = inst.len();
        let m = *pick(rng, &[0, 1, n - 1, n + 1, 2 * n, 40]);
        if m == n {
            return Ok(());
        }
        while inst.len() < m {
            let x = inst[rng.gen_range(0..n)].clone();
            inst.push(x);
        }
        inst.truncate(m);
        let p = Proof::new(r.proof.clone());
        ensure!(p.verify(vk(), &inst).is_err(), "a proof of {} actions verifies for {}", n, m);
        let _ = format!("{:?} {:#?}", p, p);
        let mut b = BatchVerifier::new();
        p.add_to_batch(&mut b, inst);
        let (params, hvk) = proofs::halo2_keys();
        ensure!(!b.finalize(params, hvk), "a proof of {} actions passes a batch for {}", n, m);
        ctx.event("wrong instance counts");
        Ok(())
    });
}
