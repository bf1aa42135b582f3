//! C10 note encryption round trips, C11 hostile ciphertexts.

use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use nonempty::NonEmpty;
use orchard::{
    bundle::{Authorization, Bundle, Flags},
    keys::{IncomingViewingKey, OutgoingViewingKey, PreparedIncomingViewingKey},
    note::{ExtractedNoteCommitment, Nullifier, TransmittedNoteCiphertext},
    note_encryption::{CompactAction, OrchardDomain, OrchardNoteEncryption},
    primitives::redpallas,
    value::ValueCommitment,
    Action, Anchor,
};
use rand::Rng as _;
use zcash_note_encryption::{
    batch, try_compact_note_decryption, try_note_decryption, try_output_recovery_with_ovk, Domain,
    EphemeralKeyBytes, ShieldedOutput,
};

use crate::model::{self, Base, MAction, MDecrypted, MNote, Point, Scalar};
use crate::mon::{sut, Ctx, Rng};
use crate::world::*;
use crate::{ensure, same};

#[derive(Debug, Clone)]
pub struct Plain;
impl Authorization for Plain {
    type SpendAuth = ();
}

pub fn plain_action(m: &MAction) -> Action<()> {
    Action::from_parts(
        sut(Nullifier::from_bytes(&m.nf), "nullifier"),
        sut(redpallas::VerificationKey::try_from(m.rk).ok(), "rk"),
        sut(ExtractedNoteCommitment::from_bytes(&m.cmx), "cmx"),
        TransmittedNoteCiphertext { epk_bytes: m.epk, enc_ciphertext: m.enc, out_ciphertext: m.out },
        sut(ValueCommitment::from_bytes(&m.cv), "cv"),
        (),
    )
}

pub fn plain_bundle(ms: &[MAction], balance: i64) -> Bundle<Plain, i64> {
    Bundle::from_parts(
        sut(NonEmpty::from_vec(ms.iter().map(plain_action).collect()), "actions"),
        Flags::ENABLED,
        balance,
        Anchor::empty_tree(),
        Plain,
    )
}

/// Incoming keys in play, with what the model knows about them.
#[derive(Clone)]
pub struct Ivk {
    pub real: IncomingViewingKey,
    pub model: Base,
}

#[derive(Default)]
pub struct Tally {
    pub opened: u64,
    pub refused: u64,
    pub compact_only: u64,
    pub recovered: u64,
}

/// Runs every decryption path of the crate over a set of actions and key lists, and compares
/// each answer with the model's.
pub fn compare_all(ms: &[MAction], ivks: &[Ivk], ovks: &[[u8; 32]]) -> Result<Tally, String> {
    let mut tally = Tally::default();
    let actions: Vec<Action<()>> = ms.iter().map(plain_action).collect();
    let bundle = plain_bundle(ms, 0);
    let prepared: Vec<PreparedIncomingViewingKey> = ivks.iter().map(|k| PreparedIncomingViewingKey::new(&k.real)).collect();

    let mut full_want = vec![]; // [action][ivk]
    let mut compact_want = vec![];
    for m in ms {
        let rho_v = model::base(&m.nf).unwrap();
        full_want.push(
            ivks.iter()
                .map(|k| model::decrypt_ivk(&k.model, &m.epk, &m.enc, &m.cmx, &rho_v))
                .collect::<Vec<_>>(),
        );
        compact_want.push(
            ivks.iter()
                .map(|k| model::decrypt_ivk(&k.model, &m.epk, &m.enc[..52], &m.cmx, &rho_v))
                .collect::<Vec<_>>(),
        );
    }
    // One at a time.
    for (i, a) in actions.iter().enumerate() {
        let dom = OrchardDomain::for_action(a);
        let ca = CompactAction::from(a);
        same!(ca.nullifier().to_bytes(), ms[i].nf, "nullifier of a compact action");
        same!(ca.cmx().to_bytes(), ms[i].cmx, "cmx of a compact action");
        same!(ca.rho().to_bytes(), ms[i].nf, "rho of a compact action");
        same!(a.rho().to_bytes(), ms[i].nf, "rho of an action");
        same!(ShieldedOutput::<OrchardDomain, 52>::ephemeral_key(&ca).0, ms[i].epk, "epk of a compact action");
        same!(ShieldedOutput::<OrchardDomain, 52>::enc_ciphertext(&ca)[..], ms[i].enc[..52], "ciphertext of a compact action");
        let ca2 = CompactAction::from_parts(*a.nullifier(), *a.cmx(), EphemeralKeyBytes(ms[i].epk), ms[i].enc[..52].try_into().unwrap());
        let cdom = OrchardDomain::for_compact_action(&ca2);
        for (k, p) in prepared.iter().enumerate() {
            let got = match try_note_decryption(&dom, p, a) {
                Some((n, ad, memo)) => Some(mdec(&n, &ad, Some(memo))?),
                None => None,
            };
            same!(got, full_want[i][k], "decryption of action {} with incoming key {}", i, k);
            match got {
                Some(_) => tally.opened += 1,
                None => tally.refused += 1,
            }
            for (d, c) in [(&dom, &ca), (&cdom, &ca2)] {
                let got = match try_compact_note_decryption(d, p, c) {
                    Some((n, ad)) => Some(mdec(&n, &ad, None)?),
                    None => None,
                };
                same!(got, compact_want[i][k], "compact decryption of action {} with incoming key {}", i, k);
                if got.is_some() && full_want[i][k].is_none() {
                    tally.compact_only += 1;
                }
            }
            let got = match bundle.decrypt_output_with_key(i, &ivks[k].real) {
                Some((n, ad, memo)) => Some(mdec(&n, &ad, Some(memo))?),
                None => None,
            };
            same!(got, full_want[i][k], "decrypt_output_with_key({}) with incoming key {}", i, k);
        }
        let rho_v = model::base(&ms[i].nf).unwrap();
        for (k, ovk) in ovks.iter().enumerate() {
            let m = &ms[i];
            let want = model::decrypt_ovk(ovk, &m.cv, &m.cmx, &m.epk, &m.enc, &m.out, &rho_v);
            let o = OutgoingViewingKey::from(*ovk);
            let got = match try_output_recovery_with_ovk(&dom, &o, a, a.cv_net(), &m.out) {
                Some((n, ad, memo)) => Some(mdec(&n, &ad, Some(memo))?),
                None => None,
            };
            same!(got, want, "recovery of action {} with outgoing key {}", i, k);
            let got = match bundle.recover_output_with_ovk(i, &o) {
                Some((n, ad, memo)) => Some(mdec(&n, &ad, Some(memo))?),
                None => None,
            };
            same!(got, want, "recover_output_with_ovk({}) with outgoing key {}", i, k);
            match got {
                Some(_) => tally.recovered += 1,
                None => tally.refused += 1,
            }
        }
    }
    // Out-of-range indices.
    for i in [ms.len(), ms.len() + 7, usize::MAX] {
        if let Some(k) = ivks.first() {
            ensure!(bundle.decrypt_output_with_key(i, &k.real).is_none(), "an action out of range was decrypted");
        }
        if let Some(o) = ovks.first() {
            ensure!(
                bundle.recover_output_with_ovk(i, &OutgoingViewingKey::from(*o)).is_none(),
                "an action out of range was recovered"
            );
        }
    }
    // Whole-bundle paths: one result per action, from the first key in order that opens it.
    let want: Vec<(usize, [u8; 64], MDecrypted)> = (0..ms.len())
        .filter_map(|i| {
            (0..ivks.len()).find_map(|k| full_want[i][k].clone().map(|d| (i, ivks[k].real.to_bytes(), d)))
        })
        .collect();
    let keys: Vec<IncomingViewingKey> = ivks.iter().map(|k| k.real.clone()).collect();
    let mut got = vec![];
    for (i, k, n, a, m) in bundle.decrypt_outputs_with_keys(&keys) {
        got.push((i, k.to_bytes(), mdec(&n, &a, Some(m))?));
    }
    same!(got, want, "decrypt_outputs_with_keys with {} keys", keys.len());
    let want: Vec<(usize, [u8; 32], MDecrypted)> = ms
        .iter()
        .enumerate()
        .filter_map(|(i, m)| {
            let rho_v = model::base(&m.nf).unwrap();
            ovks.iter().find_map(|o| {
                model::decrypt_ovk(o, &m.cv, &m.cmx, &m.epk, &m.enc, &m.out, &rho_v).map(|d| (i, *o, d))
            })
        })
        .collect();
    let okeys: Vec<OutgoingViewingKey> = ovks.iter().map(|o| OutgoingViewingKey::from(*o)).collect();
    let mut got = vec![];
    for (i, k, n, a, m) in bundle.recover_outputs_with_ovks(&okeys) {
        got.push((i, *k.as_ref(), mdec(&n, &a, Some(m))?));
    }
    same!(got, want, "recover_outputs_with_ovks with {} keys", okeys.len());
    // Batched paths.
    let outputs: Vec<(OrchardDomain, Action<()>)> = actions.iter().map(|a| (OrchardDomain::for_action(a), a.clone())).collect();
    let res = batch::try_note_decryption(&prepared, &outputs);
    same!(res.len(), ms.len(), "number of batch results");
    for (i, r) in res.into_iter().enumerate() {
        let want = (0..ivks.len()).find_map(|k| full_want[i][k].clone().map(|d| (d, k)));
        let got = match r {
            Some(((n, a, m), k)) => Some((mdec(&n, &a, Some(m))?, k)),
            None => None,
        };
        same!(got, want, "batch decryption of action {}", i);
    }
    let outputs: Vec<(OrchardDomain, CompactAction)> = actions
        .iter()
        .map(|a| {
            let c = CompactAction::from(a);
            (OrchardDomain::for_compact_action(&c), c)
        })
        .collect();
    let res = batch::try_compact_note_decryption(&prepared, &outputs);
    same!(res.len(), ms.len(), "number of compact batch results");
    for (i, r) in res.into_iter().enumerate() {
        let want = (0..ivks.len()).find_map(|k| compact_want[i][k].clone().map(|d| (d, k)));
        let got = match r {
            Some(((n, a), k)) => Some((mdec(&n, &a, None)?, k)),
            None => None,
        };
        same!(got, want, "compact batch decryption of action {}", i);
    }
    Ok(tally)
}

pub fn ivks_of(wallets: &[Wallet]) -> Vec<Ivk> {
    wallets
        .iter()
        .flat_map(|w| model::SCOPES.iter().map(move |s| Ivk { real: w.ivk(*s), model: w.mivk(*s) }))
        .collect()
}

fn shuffled<T: Clone>(rng: &mut Rng, v: &[T]) -> Vec<T> {
    use rand::seq::SliceRandom;
    let mut v = v.to_vec();
    v.shuffle(rng);
    let n = rng.gen_range(0..=v.len());
    // Sometimes with a repeated key.
    v.truncate(n.max(1).min(v.len()));
    if rng.gen_range(0..4) == 0 && !v.is_empty() {
        let x = v[rng.gen_range(0..v.len())].clone();
        v.push(x);
    }
    v
}

fn record(ctx: &Ctx, t: &Tally) {
    ctx.events("opened with an incoming key", t.opened);
    ctx.events("recovered with an outgoing key", t.recovered);
    ctx.events("refused", t.refused);
    ctx.events("opened by the compact path only", t.compact_only);
}

pub fn c10(ctx: &Ctx) {
    ctx.rule(
        "outputs produced by the builder and by the note-encryption API for random recipients, \
         values and memos; every single, compact, batch and whole-bundle decryption path is run with \
         random key lists and compared with an independent model of encryption and decryption.",
    );
    ctx.require("opened with an incoming key", 100);
    ctx.require("recovered with an outgoing key", 50);
    ctx.require("refused", 100);
    let opts = GenOpts { max_spends: 3, max_outs: 5, ..Default::default() };
    ctx.run("built", ctx.n(160, 2500), |_, rng| {
        let sc = scenario(rng, &opts);
        ctx.distinct("request", &sc.shape());
        ctx.sample("request", || sc.describe());
        let (b, meta) = sut(sc.build(Api::Builder, rng)?, "a bundle");
        let e = meffects(&b);
        // What was asked for is what each recipient and sender gets.
        for (k, o) in sc.outs.iter().enumerate() {
            let i = sut(meta.output_action_index(k), "an index for a requested output");
            ensure!(i < e.actions.len(), "index out of range");
            if let Some((w, s)) = o.owner {
                let (n, a, m) = b
                    .decrypt_output_with_key(i, &sc.wallets[w].ivk(s))
                    .ok_or_else(|| format!("recipient could not decrypt output {}", k))?;
                same!(a.to_raw_address_bytes(), o.recipient.to_raw_address_bytes(), "recipient");
                same!(n.value().inner(), o.value, "value");
                ensure!(m == memo_or_default(&o.memo), "memo differs");
            }
            if let Some(ovk) = o.ovk {
                let (n, a, m) = b
                    .recover_output_with_ovk(i, &OutgoingViewingKey::from(ovk))
                    .ok_or_else(|| format!("sender could not recover output {}", k))?;
                same!(a.to_raw_address_bytes(), o.recipient.to_raw_address_bytes(), "recovered recipient");
                same!(n.value().inner(), o.value, "recovered value");
                ensure!(m == memo_or_default(&o.memo), "recovered memo differs");
            }
        }
        let ivks = shuffled(rng, &ivks_of(&sc.wallets));
        let mut ovks: Vec<[u8; 32]> = sc.outs.iter().filter_map(|o| o.ovk).collect();
        ovks.extend(sc.wallets.iter().flat_map(|w| model::SCOPES.iter().map(move |s| w.movk(*s))));
        ovks.push(bytes(rng));
        let ovks = shuffled(rng, &ovks);
        let t = compare_all(&e.actions, &ivks, &ovks)?;
        record(ctx, &t);
        Ok(())
    });
    // Scanning a chain: outputs of many bundles in one batch, with junk among them that must not
    // disturb the rest, and many keys.
    ctx.run("scan", ctx.n(16, 240), |i, rng| {
        let mut ms = vec![];
        let mut wallets = vec![];
        let bundles = 1 + i % 5;
        for _ in 0..bundles {
            let sc = scenario(rng, &opts);
            let (b, _) = sut(sc.build(Api::Builder, rng)?, "a bundle");
            ms.extend(meffects(&b).actions);
            wallets.extend(sc.wallets);
        }
        for _ in 0..rng.gen_range(1..4) {
            let mut m = ms[rng.gen_range(0..ms.len())].clone();
            match rng.gen_range(0..6) {
                0 => m.epk = [0; 32],
                1 => m.epk = [0xff; 32],
                2 => m.epk = bytes(rng),
                3 => m.enc.fill(0),
                4 => m.cmx = rand_base(rng).to_repr(),
                // A copy of an output in another place.
                _ => (),
            }
            let at = *pick(rng, &[0, ms.len() / 2, ms.len()]);
            ms.insert(at, m);
            ctx.event("junk outputs in a batch");
        }
        let keys = ivks_of(&wallets);
        let ivks = shuffled(rng, &keys[..keys.len().min(8)]);
        let t = compare_all(&ms, &ivks, &[bytes(rng)])?;
        ctx.events("outputs scanned in batches", ms.len() as u64);
        ctx.distinct("scan", format!("{} {}", ms.len(), ivks.len()).as_bytes());
        record(ctx, &t);
        Ok(())
    });
    // The encryption API itself, against the model, byte for byte.
    ctx.run("api", ctx.n(300, 5000), |_, rng| {
        let w = Wallet::random(rng);
        let s = rand_scope(rng);
        let v = edge_u64(rng);
        let note = { let ad = w.address(s, rand_index(rng)); rand_note(rng, ad, v) };
        let m = mnote(&note);
        let memo = memo_or_default(&rand_memo(rng));
        let ovk = rng.gen::<bool>().then(|| bytes::<32>(rng));
        let cv = model::value_commit(edge_u64(rng) as i128, &rand_scalar(rng)).to_bytes();
        let cmx = m.cmx().unwrap().to_repr();
        let want = model::encrypt_note(&m, &memo, ovk.as_ref(), &cv, &cmx);
        let enc = OrchardNoteEncryption::new(ovk.map(OutgoingViewingKey::from), note, memo);
        same!(OrchardDomain::epk_bytes(enc.epk()).0, want.epk, "ephemeral key");
        let got_enc = enc.encrypt_note_plaintext();
        ensure!(got_enc == want.enc, "note ciphertext differs from the specification's for {:?}", m);
        let cvc = sut(ValueCommitment::from_bytes(&cv), "value commitment");
        let cmxc = sut(ExtractedNoteCommitment::from_bytes(&cmx), "cmx");
        let got_out = enc.encrypt_outgoing_plaintext(&cvc, &cmxc, &mut *rng);
        if ovk.is_some() {
            ensure!(got_out == want.out, "outgoing ciphertext differs from the specification's for {:?}", m);
        }
        let esk = sut(OrchardDomain::derive_esk(&note), "esk");
        let op = OrchardDomain::outgoing_plaintext_bytes(&note, &esk);
        same!(op.0[..32], m.pk_d()[..], "pk_d in the outgoing plaintext");
        same!(op.0[32..], m.esk().to_repr()[..], "esk in the outgoing plaintext");
        ensure!(OrchardDomain::note_plaintext_bytes(&note, &memo).0[..] == m.plaintext(&memo)[..], "note plaintext");
        same!(OrchardDomain::cmstar(&note).to_bytes(), cmx, "cmx");
        ctx.event("encryptions compared");
        ctx.distinct("note", &want.enc);
        // And back.
        let a = MAction {
            nf: m.rho.to_repr(),
            rk: model::spend_auth_base().to_bytes(),
            cmx,
            cv,
            epk: want.epk,
            enc: got_enc,
            out: got_out,
        };
        let other = Wallet::random(rng);
        let ivks = ivks_of(&[w, other]);
        let mut ovks = vec![bytes(rng)];
        ovks.extend(ovk);
        let t = compare_all(&[a], &ivks, &ovks)?;
        same!(t.opened, 1u64, "number of incoming keys that open an honest note");
        same!(t.recovered, ovk.is_some() as u64, "number of outgoing keys that recover an honest note");
        record(ctx, &t);
        Ok(())
    });
}

/// One attacker-made output towards `w`, and a label for what is wrong with it.
pub fn hostile(rng: &mut Rng, w: &Wallet, ovk: &[u8; 32]) -> (MAction, &'static str) {
    let s = rand_scope(rng);
    let addr = w.keys.fvk.address_at(s, &rand_index(rng));
    let rho_v = rand_base(rng);
    let mut m = MNote { address: addr, value: edge_u64(rng), rho: rho_v, rseed: bytes(rng) };
    while m.cmx().is_none() {
        m.rseed = bytes(rng);
    }
    let memo = bytes::<512>(rng);
    let cv = model::value_commit(edge_u64(rng) as i128, &rand_scalar(rng)).to_bytes();
    let cmx = m.cmx().unwrap().to_repr();
    let e = model::encrypt_note(&m, &memo, Some(ovk), &cv, &cmx);
    let mut a = MAction {
        nf: rho_v.to_repr(),
        rk: model::spend_auth_base().to_bytes(),
        cmx,
        cv,
        epk: e.epk,
        enc: e.enc,
        out: e.out,
    };
    let pk_d = model::nonid(&m.pk_d()).unwrap();
    // Re-seals everything with an arbitrary esk, epk, plaintext and outgoing plaintext.
    let reseal = |a: &mut MAction, esk: &Scalar, epk: [u8; 32], np: &[u8], op_pk_d: [u8; 32], op_esk: [u8; 32]| {
        let key = model::kdf(&(pk_d * esk), &epk);
        a.epk = epk;
        a.enc = model::seal(&key, np).try_into().unwrap();
        let mut op = op_pk_d.to_vec();
        op.extend_from_slice(&op_esk);
        a.out = model::seal(&model::prf_ock(ovk, &a.cv, &a.cmx, &epk), &op).try_into().unwrap();
    };
    let esk = m.esk();
    let np = m.plaintext(&memo);
    let label = match rng.gen_range(0..26) {
        0 => "honest",
        1 => {
            let mut np = np.clone();
            np[0] = *pick(rng, &[0u8, 1, 3, 0x82, 0xff]);
            reseal(&mut a, &esk, e.epk, &np, m.pk_d(), esk.to_repr());
            "wrong lead byte"
        }
        2 => {
            // An ephemeral secret not derived from the note's seed.
            let esk2 = rand_scalar(rng);
            let epk = (m.g_d() * esk2).to_bytes();
            reseal(&mut a, &esk2, epk, &np, m.pk_d(), esk2.to_repr());
            "esk not from rseed"
        }
        3 => {
            // An ephemeral key over the wrong base.
            let epk = (Point::random(&mut *rng) * esk).to_bytes();
            reseal(&mut a, &esk, epk, &np, m.pk_d(), esk.to_repr());
            "epk over another base"
        }
        4 => {
            let mut m2 = m.clone();
            m2.value = m.value.wrapping_add(1);
            let np2 = m2.plaintext(&memo);
            reseal(&mut a, &esk, e.epk, &np2, m.pk_d(), esk.to_repr());
            "value not the committed one"
        }
        5 => {
            let mut m2 = m.clone();
            m2.rseed[rng.gen_range(0..32)] ^= 1 << rng.gen_range(0..8);
            let esk2 = m2.esk();
            let epk = (m2.g_d() * esk2).to_bytes();
            reseal(&mut a, &esk2, epk, &m2.plaintext(&memo), m.pk_d(), esk2.to_repr());
            "seed not the committed one"
        }
        6 => {
            a.cmx = rand_base(rng).to_repr();
            reseal(&mut a, &esk, e.epk, &np, m.pk_d(), esk.to_repr());
            "cmx of something else"
        }
        7 => {
            a.nf = rand_base(rng).to_repr();
            "rho of another action"
        }
        8 => {
            a.enc[rng.gen_range(0..52)] ^= 1 << rng.gen_range(0..8);
            "bit flip in the compact part"
        }
        9 => {
            a.enc[rng.gen_range(52..564)] ^= 1 << rng.gen_range(0..8);
            "bit flip in the memo"
        }
        10 => {
            a.enc[rng.gen_range(564..580)] ^= 1 << rng.gen_range(0..8);
            "bit flip in the tag"
        }
        11 => {
            a.out[rng.gen_range(0..80)] ^= 1 << rng.gen_range(0..8);
            "bit flip in the outgoing ciphertext"
        }
        12 => {
            a.epk = match rng.gen_range(0..4) {
                0 => [0; 32],
                1 => [0xff; 32],
                2 => bytes(rng),
                _ => {
                    let mut b = e.epk;
                    b[31] ^= 0x80;
                    b
                }
            };
            "ephemeral key replaced"
        }
        13 => {
            let epk = [0; 32];
            let key = model::kdf(&Point::identity(), &epk);
            a.epk = epk;
            a.enc = model::seal(&key, &np).try_into().unwrap();
            "identity ephemeral key"
        }
        14 => {
            a.cv = model::value_commit(1, &rand_scalar(rng)).to_bytes();
            "another value commitment"
        }
        15 => {
            // The outgoing plaintext names somebody else's transmission key. The sender's view
            // must not report that recipient.
            let other = w.keys.fvk.address_at(s, &bytes(rng));
            reseal(&mut a, &esk, e.epk, &np, other[11..].try_into().unwrap(), esk.to_repr());
            "outgoing plaintext with another pk_d"
        }
        16 => {
            // As above, with the note ciphertext sealed to that key too.
            let other = w.keys.fvk.address_at(s, &bytes(rng));
            let pk2: [u8; 32] = other[11..].try_into().unwrap();
            let key = model::kdf(&(model::nonid(&pk2).unwrap() * esk), &e.epk);
            a.enc = model::seal(&key, &np).try_into().unwrap();
            let mut op = pk2.to_vec();
            op.extend_from_slice(&esk.to_repr());
            a.out = model::seal(&model::prf_ock(ovk, &a.cv, &a.cmx, &a.epk), &op).try_into().unwrap();
            "note sealed to another pk_d"
        }
        17 => {
            let op_esk = match rng.gen_range(0..4) {
                0 => [0; 32],
                1 => [0xff; 32],
                2 => rand_scalar(rng).to_repr(),
                _ => (-esk).to_repr(),
            };
            reseal(&mut a, &esk, e.epk, &np, m.pk_d(), op_esk);
            "outgoing plaintext with another esk"
        }
        18 => {
            let op_pk = match rng.gen_range(0..3) {
                0 => [0; 32],
                1 => [0xff; 32],
                _ => {
                    let mut b = m.pk_d();
                    b[31] ^= 0x80;
                    b
                }
            };
            reseal(&mut a, &esk, e.epk, &np, op_pk, esk.to_repr());
            "outgoing plaintext with a malformed pk_d"
        }
        19 => {
            // A diversifier that is not the committed one.
            let mut np2 = np.clone();
            np2[1 + rng.gen_range(0..11)] ^= 1 << rng.gen_range(0..8);
            reseal(&mut a, &esk, e.epk, &np2, m.pk_d(), esk.to_repr());
            "diversifier not the committed one"
        }
        20 => {
            // Self-consistent outgoing data with an ephemeral key the seed does not determine:
            // the sender tricks its own records, or an ovk holder.
            let esk2 = rand_scalar(rng);
            let epk = (m.g_d() * esk2).to_bytes();
            let key = model::kdf(&(pk_d * esk2), &epk);
            a.epk = epk;
            a.enc = model::seal(&key, &np).try_into().unwrap();
            let mut op = m.pk_d().to_vec();
            op.extend_from_slice(&esk2.to_repr());
            a.out = model::seal(&model::prf_ock(ovk, &a.cv, &a.cmx, &epk), &op).try_into().unwrap();
            "self-consistent foreign esk"
        }
        21 => {
            // A note committed to an address that nobody's diversifier maps to: pk_d of an
            // unrelated point, correctly committed and sealed.
            let pk = Point::random(&mut *rng);
            let mut m2 = m.clone();
            m2.address[11..].copy_from_slice(&pk.to_bytes());
            if let Some(c) = m2.cmx() {
                a.cmx = c.to_repr();
                let e2 = model::encrypt_note(&m2, &memo, Some(ovk), &a.cv, &a.cmx);
                a.epk = e2.epk;
                a.enc = e2.enc;
                a.out = e2.out;
            }
            "note to an unowned address"
        }
        22 => {
            a.enc = bytes(rng);
            a.out = bytes(rng);
            "random ciphertexts"
        }
        23 => {
            // The note's commitment with the opposite sign has the same x-coordinate.
            a.epk[31] ^= 0x80;
            let epk = a.epk;
            let key = model::kdf(&(-(pk_d * esk)), &epk);
            a.enc = model::seal(&key, &np).try_into().unwrap();
            "negated ephemeral key"
        }
        24 => {
            // Shared secret consistent, but plaintext for the sibling scope's address.
            let sib = if s == model::MScope::External { model::MScope::Internal } else { model::MScope::External };
            let other = w.keys.fvk.address_at(sib, &rand_index(rng));
            let mut np2 = np.clone();
            np2[1..12].copy_from_slice(&other[..11]);
            reseal(&mut a, &esk, e.epk, &np2, m.pk_d(), esk.to_repr());
            "diversifier of the sibling scope"
        }
        _ => {
            // Zero value and edge rho, honest otherwise.
            let r = edge_base(rng);
            let mut m2 = MNote { address: addr, value: 0, rho: r, rseed: bytes(rng) };
            while m2.cmx().is_none() {
                m2.rseed = bytes(rng);
            }
            a.nf = r.to_repr();
            a.cmx = m2.cmx().unwrap().to_repr();
            let e2 = model::encrypt_note(&m2, &memo, Some(ovk), &a.cv, &a.cmx);
            a.epk = e2.epk;
            a.enc = e2.enc;
            a.out = e2.out;
            "honest with edge values"
        }
    };
    (a, label)
}

pub fn c11(ctx: &Ctx) {
    ctx.rule(
        "attacker-made outputs in 25 ways (lead byte, esk not from the seed, wrong commitment, \
         swapped pk_d, malformed keys, tampering of every ciphertext region, ...) mixed with honest \
         ones into bundles; every decryption path is compared with the specification's model. \
         Distinct by attack kind and ciphertext.",
    );
    ctx.require("opened with an incoming key", 20);
    ctx.require("recovered with an outgoing key", 20);
    ctx.require("refused", 500);
    ctx.require("opened by the compact path only", 5);
    ctx.require("attack kinds", 20);
    ctx.run("hostile", ctx.n(320, 8000), |_, rng| {
        let wallets: Vec<Wallet> = (0..rng.gen_range(1..=2)).map(|_| Wallet::random(rng)).collect();
        let ovk = if rng.gen() { wallets[0].movk(rand_scope(rng)) } else { bytes(rng) };
        let n = rng.gen_range(1..=6);
        let mut ms = vec![];
        for _ in 0..n {
            let w = rng.gen_range(0..wallets.len());
            let (a, label) = hostile(rng, &wallets[w], &ovk);
            ctx.event(&format!("kind: {}", label));
            ctx.distinct("attack kinds", label.as_bytes());
            ctx.distinct("ciphertext", &a.enc);
            ctx.sample("attack", || format!("{}: nf={} cmx={} epk={}", label, hex::encode(a.nf), hex::encode(a.cmx), hex::encode(a.epk)));
            ms.push(a);
        }
        let mut ivks = ivks_of(&wallets);
        if rng.gen() {
            ivks = shuffled(rng, &ivks);
        }
        // A key whose ivk is at the edge of its range.
        if rng.gen_range(0..4) == 0 {
            let mut b = [7u8; 64];
            let k = if rng.gen() { Base::ONE } else { -Base::ONE };
            b[32..].copy_from_slice(&k.to_repr());
            ivks.push(Ivk { real: sut(IncomingViewingKey::from_bytes(&b), "ivk"), model: k });
        }
        let mut ovks = vec![ovk, bytes(rng)];
        if rng.gen() {
            ovks.reverse();
        }
        let t = compare_all(&ms, &ivks, &ovks)?;
        record(ctx, &t);
        Ok(())
    });
    // Blind bit flips over honest transmissions: never a different note, at most a clean refusal.
    ctx.run("flips", ctx.n(40, 800), |_, rng| {
        let w = Wallet::random(rng);
        let ovk: [u8; 32] = bytes(rng);
        let addr = w.keys.fvk.address_at(model::MScope::External, &rand_index(rng));
        let mut m = MNote { address: addr, value: 5, rho: rand_base(rng), rseed: bytes(rng) };
        while m.cmx().is_none() {
            m.rseed = bytes(rng);
        }
        let cv = model::value_commit(3, &rand_scalar(rng)).to_bytes();
        let cmx = m.cmx().unwrap().to_repr();
        let e = model::encrypt_note(&m, &[1; 512], Some(&ovk), &cv, &cmx);
        let base = MAction { nf: m.rho.to_repr(), rk: model::spend_auth_base().to_bytes(), cmx, cv, epk: e.epk, enc: e.enc, out: e.out };
        let ivks = vec![Ivk { real: w.ivk(model::MScope::External), model: w.mivk(model::MScope::External) }];
        let t = compare_all(&[base.clone()], &ivks, &[ovk])?;
        ensure!(t.opened == 1 && t.recovered == 1, "the honest note did not open");
        for _ in 0..12 {
            let mut a = base.clone();
            let bit = rng.gen_range(0..(32 + 580 + 80) * 8usize);
            let (byte, mask) = (bit / 8, 1u8 << (bit % 8));
            if byte < 32 {
                a.epk[byte] ^= mask;
            } else if byte < 612 {
                a.enc[byte - 32] ^= mask;
            } else {
                a.out[byte - 612] ^= mask;
            }
            let t = compare_all(&[a], &ivks, &[ovk])?;
            if byte < 612 {
                same!((t.opened, t.recovered), (0, 0), "openings after flipping bit {}", bit);
            } else {
                same!((t.opened, t.recovered), (1, 0), "openings after flipping bit {} of the outgoing part", bit);
            }
            ctx.event("bits flipped");
            record(ctx, &t);
        }
        Ok(())
    });
}
