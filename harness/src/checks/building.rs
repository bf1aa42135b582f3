//! C02 value conservation, C03 builder fidelity, C04 builder refusals.

use ff::{Field, PrimeField};
use group::GroupEncoding as _;
use orchard::{
    builder::{
        bundle, BuildError, Builder, BundleType, InputView, OutputInfo, OutputView, SpendError, SpendInfo,
    },
    bundle::Flags,
    circuit::Circuit,
    keys::OutgoingViewingKey,
    value::{NoteValue, ValueCommitTrapdoor},
};
use rand::{Rng as _, RngCore};

use crate::model::{self, Base, SparseTree};
use crate::mon::{sut, Ctx, Rng, Verdict};
use crate::world::*;
use crate::{ensure, same};

/// A balance type admitting only |v| <= 21e14, as zcash's Amount does.
#[derive(Clone, Copy, Debug, PartialEq)]
pub struct Amount(i64);
const MAX_MONEY: i64 = 21_000_000 * 100_000_000;
impl TryFrom<i64> for Amount {
    type Error = ();
    fn try_from(v: i64) -> Result<Self, ()> {
        if (-MAX_MONEY..=MAX_MONEY).contains(&v) {
            Ok(Amount(v))
        } else {
            Err(())
        }
    }
}
impl From<Amount> for i64 {
    fn from(a: Amount) -> i64 {
        a.0
    }
}

fn check_value<V: TryFrom<i64> + Copy + Into<i128>>(sc: &Scenario, name: &str, rng: &mut Rng) -> Verdict {
    let truth = sc.balance();
    let fits = i64::try_from(truth).ok().and_then(|i| V::try_from(i).ok()).is_some();
    let b = sc.builder()?;
    match b.value_balance::<V>() {
        Ok(v) => {
            same!(v.into(), truth, "value_balance::<{}>() of {}", name, sc.describe());
            ensure!(fits, "value_balance::<{}>() accepted an unrepresentable balance {}", name, truth);
        }
        Err(_) => ensure!(
            !(fits && sc.sums_safe()),
            "value_balance::<{}>() refused representable balance {} of {}",
            name,
            truth,
            sc.describe()
        ),
    }
    let r = if rng.gen() {
        b.build::<V>(&mut *rng)
    } else {
        bundle::<V>(&mut *rng, anchor_of(&sc.anchor), sc.bundle_type, sc.spend_infos()?, sc.output_infos())
    };
    match r {
        Ok(Some((bun, _))) => {
            same!((*bun.value_balance()).into(), truth, "balance ({}) of the built bundle for {}", name, sc.describe());
        }
        Ok(None) => {
            same!(sc.expected_actions(), 0usize, "no bundle was built, but actions expected for {}", sc.describe());
        }
        Err(BuildError::ValueSum(_)) => ensure!(
            !(fits && sc.sums_safe()),
            "build::<{}> refused representable balance {} of {}",
            name,
            truth,
            sc.describe()
        ),
        Err(e) => return Err(format!("build::<{}> failed with {:?} for {}", name, e, sc.describe())),
    }
    Ok(())
}

pub fn c02(ctx: &Ctx) {
    ctx.rule(
        "random build requests (all bundle types, 0-5 spends and outputs, edge-heavy u64 values, \
         scopes, positions); the exact balance is computed in i128 from the request. A case is \
         distinct by bundle type, owners, scopes and value magnitudes of every spend and output.",
    );
    ctx.require("balance in range", 50);
    ctx.require("balance out of range", 20);
    let opts = GenOpts { max_spends: 5, max_outs: 5, ..Default::default() };
    ctx.run("safe", ctx.n(400, 6000), |_, rng| {
        let sc = scenario(rng, &opts);
        ctx.event("balance in range");
        ctx.distinct("request", &sc.shape());
        ctx.sample("request", || sc.describe());
        let (b, _) = sut(sc.build(Api::Builder, rng)?, "a bundle for a non-empty request");
        same!(*b.value_balance() as i128, sc.balance(), "bundle balance for {}", sc.describe());
        // The bundle's binding key commits to exactly this balance.
        let e = meffects(&b);
        let bvk: [u8; 32] = b.binding_validating_key().into();
        same!(Some(bvk), e.balance_key(), "binding validating key");
        // The value that left through outputs is what was asked for.
        let mut seen: u128 = 0;
        for o in &sc.outs {
            if let Some((w, s)) = o.owner {
                let got: Vec<u64> = e
                    .actions
                    .iter()
                    .filter_map(|a| {
                        model::decrypt_ivk(&sc.wallets[w].mivk(s), &a.epk, &a.enc, &a.cmx, &model::base(&a.nf)?)
                    })
                    .filter(|d| d.note.address == o.recipient.to_raw_address_bytes())
                    .map(|d| d.note.value)
                    .collect();
                ensure!(got.contains(&o.value), "output of {} not found in the bundle", o.value);
                seen += o.value as u128;
                ctx.event("outputs opened");
            }
        }
        ensure!(seen <= sc.out_sum(), "more value than requested left the bundle");
        check_value::<i64>(&sc, "i64", rng)
    });
    let any = GenOpts { max_spends: 5, max_outs: 5, values: Values::Any, allow_empty: true, force_type: None };
    ctx.run("any", ctx.n(1200, 20000), |i, rng| {
        let sc = scenario(rng, &any);
        ctx.event(if sc.balance_fits() { "balance in range" } else { "balance out of range" });
        ctx.distinct("request", &sc.shape());
        match i % 4 {
            0 | 1 => check_value::<i64>(&sc, "i64", rng),
            2 => check_value::<i32>(&sc, "i32", rng),
            _ => check_value::<u64>(&sc, "u64", rng),
        }
    });
    // Balances at and around the i64 limits and a restricted amount type.
    ctx.run("edges", ctx.n(200, 2000), |_, rng| {
        let w = Wallet::random(rng);
        let target: i128 = match rng.gen_range(0..8) {
            0 => i64::MAX as i128,
            1 => i64::MAX as i128 + 1,
            2 => i64::MIN as i128,
            3 => i64::MIN as i128 - 1,
            4 => MAX_MONEY as i128 + rng.gen_range(-1..=1),
            5 => -(MAX_MONEY as i128) + rng.gen_range(-1..=1),
            6 => u64::MAX as i128 * if rng.gen() { 1 } else { -1 },
            _ => 0,
        };
        let extra: u64 = rng.gen_range(0..=(u64::MAX as i128 - target.abs())) as u64;
        let (s, o) = if target >= 0 {
            (extra as u128 + target as u128, extra as u128)
        } else {
            (extra as u128, extra as u128 + (-target) as u128)
        };
        let split = |rng: &mut Rng, total: u128| -> Vec<u64> {
            let k = rng.gen_range(1..=3);
            let mut left = total;
            let mut v = vec![];
            for _ in 0..k - 1 {
                let x = rng.gen_range(0..=left);
                v.push(x as u64);
                left -= x;
            }
            v.push(left as u64);
            v
        };
        let (sv, ov) = (split(rng, s), split(rng, o));
        let wallets = vec![w];
        let mut spends = vec![];
        for (i, v) in sv.iter().enumerate() {
            let sc = rand_scope(rng);
            let note = { let ad = wallets[0].address(sc, rand_index(rng)); rand_note(rng, ad, *v) };
            spends.push(SpendReq { wallet: 0, scope: sc, note, pos: i as u32 * 77, foreign_path: None });
        }
        let outs: Vec<OutReq> = ov.iter().map(|v| rand_out(rng, &wallets, *v)).collect();
        let tree = SparseTree::new(
            &spends.iter().map(|s| (s.pos, mnote(&s.note).cmx().unwrap())).collect::<Vec<_>>(),
        );
        let anchor = tree.root();
        let sc = Scenario { bundle_type: BundleType::DEFAULT, wallets, spends, outs, tree, anchor };
        same!(sc.balance(), target, "harness arithmetic");
        ctx.event(if sc.balance_fits() { "balance in range" } else { "balance out of range" });
        ctx.distinct("edge", &target.to_le_bytes());
        check_value::<i64>(&sc, "i64", rng)?;
        // Restricted amounts: refused exactly outside their range.
        let ok = target.abs() <= MAX_MONEY as i128;
        let r = sc.builder()?.value_balance::<Amount>();
        same!(r.as_ref().ok().map(|a| a.0 as i128), ok.then_some(target), "value_balance::<Amount>");
        let r = sc.builder()?.build::<Amount>(&mut *rng);
        match r {
            Ok(Some((b, _))) => {
                same!(b.value_balance().0 as i128, target, "balance of a build with a restricted amount type");
                ensure!(ok, "a balance outside the amount type's range was built");
            }
            Ok(None) => return Err("no bundle".into()),
            Err(e) => ensure!(!ok, "a balance {} inside the amount type's range was refused: {:?}", target, e),
        }
        Ok(())
    });
}

pub fn c03(ctx: &Ctx) {
    ctx.rule(
        "random build requests as in C02, built through Builder and through the free function, then \
         every action of the bundle is opened by a model of note decryption with every key in play \
         and matched against the request through the returned metadata.",
    );
    ctx.require("spends located", 100);
    ctx.require("outputs located", 100);
    ctx.require("padding actions", 50);
    let opts = GenOpts { max_spends: 5, max_outs: 5, allow_empty: true, ..Default::default() };
    ctx.run("requests", ctx.n(700, 10000), |i, rng| {
        let sc = scenario(rng, &opts);
        ctx.distinct("request", &sc.shape());
        ctx.sample("request", || sc.describe());
        let api = if i % 2 == 0 { Api::Builder } else { Api::Function };
        match sc.build(api, rng)? {
            None => {
                same!(sc.expected_actions(), 0usize, "bundle for {}", sc.describe());
                ctx.event("no bundle");
            }
            Some((b, meta)) => {
                ctx.events("spends located", sc.spends.len() as u64);
                ctx.events("outputs located", sc.outs.len() as u64);
                ctx.events("padding actions", (b.actions().len() * 2 - sc.spends.len() - sc.outs.len()) as u64);
                check_fidelity(&sc, &b, &meta)?;
                ctx.distinct(
                    "arrangement",
                    format!("{} {:?} {:?}", b.actions().len(), (0..5).map(|k| meta.spend_action_index(k)).collect::<Vec<_>>(), (0..5).map(|k| meta.output_action_index(k)).collect::<Vec<_>>()).as_bytes(),
                );
            }
        }
        Ok(())
    });
    // Larger bundles.
    ctx.run("large", ctx.n(12, 150), |i, rng| {
        let sc = loop {
            let sc = scenario(rng, &GenOpts { max_spends: 24, max_outs: 24, ..Default::default() });
            if sc.expected_actions() > 8 {
                break sc;
            }
        };
        let api = if i % 2 == 0 { Api::Builder } else { Api::Function };
        let (b, meta) = sut(sc.build(api, rng)?, "a bundle");
        ctx.events("spends located", sc.spends.len() as u64);
        ctx.events("outputs located", sc.outs.len() as u64);
        check_fidelity(&sc, &b, &meta)
    });
    // The views of the builder show what was added, in order.
    ctx.run("views", ctx.n(100, 1000), |_, rng| {
        let sc = scenario(rng, &opts);
        let b = sc.builder()?;
        let s: Vec<u64> = b.spends().iter().map(|s| InputView::value(s)).collect();
        let o: Vec<u64> = b.outputs().iter().map(|o| OutputView::value(o)).collect();
        same!(s, sc.spends.iter().map(|s| s.note.value().inner()).collect::<Vec<_>>(), "spends() view");
        same!(o, sc.outs.iter().map(|o| o.value).collect::<Vec<_>>(), "outputs() view");
        Ok(())
    });
}

fn all_types() -> Vec<BundleType> {
    let mut v = vec![BundleType::Coinbase, BundleType::DEFAULT, BundleType::DISABLED];
    for f in 0..4u8 {
        for r in [false, true] {
            v.push(BundleType::Transactional { flags: sut(Flags::from_byte(f), "flags"), bundle_required: r });
        }
    }
    v
}

fn model_flags(t: &BundleType) -> (bool, bool) {
    match t {
        BundleType::Coinbase => (false, true),
        BundleType::Transactional { flags, .. } => {
            let b = flags.to_byte();
            (b & 1 != 0, b & 2 != 0)
        }
    }
}

pub fn c04(ctx: &Ctx) {
    ctx.rule(
        "random sequences of add_spend/add_output calls, valid and invalid in every documented way \
         (disabled flag, foreign viewing key, wrong anchor), on every bundle type; each answer is \
         compared with the rules, then the bundle is built and compared with the accepted requests.",
    );
    for e in [
        "refused: spends disabled",
        "refused: wrong key",
        "refused: anchor",
        "refused: outputs disabled",
        "accepted spend",
        "accepted output",
    ] {
        ctx.require(e, 10);
    }
    ctx.run("rules", 1, |_, _| {
        same!(BundleType::DEFAULT.flags().to_byte(), 3u8, "flags of DEFAULT");
        same!(BundleType::DISABLED.flags().to_byte(), 0u8, "flags of DISABLED");
        same!(BundleType::Coinbase.flags().to_byte(), 2u8, "flags of a coinbase bundle");
        same!(Flags::ENABLED.to_byte(), 3u8, "Flags::ENABLED");
        same!(Flags::SPENDS_DISABLED.to_byte(), 2u8, "Flags::SPENDS_DISABLED");
        same!(Flags::OUTPUTS_DISABLED.to_byte(), 1u8, "Flags::OUTPUTS_DISABLED");
        for t in all_types() {
            let (se, oe) = model_flags(&t);
            same!((t.flags().spends_enabled(), t.flags().outputs_enabled()), (se, oe), "flags of {:?}", t);
            let nums = [0usize, 1, 2, 3, 4, 5, 7, 100, 1000, usize::MAX / 2, usize::MAX];
            for s in nums {
                for o in nums {
                    let m = s.max(o);
                    let want = if (!se && s > 0) || (!oe && o > 0) {
                        None
                    } else {
                        Some(match t {
                            BundleType::Coinbase => m,
                            BundleType::Transactional { bundle_required, .. } => {
                                if m == 0 && !bundle_required {
                                    0
                                } else {
                                    m.max(2)
                                }
                            }
                        })
                    };
                    same!(t.num_actions(s, o).ok(), want, "num_actions({}, {}) of {:?}", s, o, t);
                    ctx.event("num_actions evaluated");
                }
            }
        }
        Ok(())
    });
    ctx.run("sequences", ctx.n(500, 8000), |_, rng| {
        let types = all_types();
        let t = *pick(rng, &types);
        let (se, oe) = model_flags(&t);
        let wallets: Vec<Wallet> = (0..2).map(|_| Wallet::random(rng)).collect();
        // Pre-made notes in one tree.
        let mut notes = vec![];
        let mut tree = SparseTree::new(&[]);
        for k in 0..rng.gen_range(1..5u32) {
            let w = rng.gen_range(0..2);
            let s = rand_scope(rng);
            let v = if rng.gen_range(0..3) == 0 { 0 } else { 1 + rng.next_u32() as u64 };
            let note = { let ad = wallets[w].address(s, rand_index(rng)); rand_note(rng, ad, v) };
            let pos = loop {
                // A different quarter of the tree or a different edge each time.
                let p = if rng.gen() { edge_u32(rng) } else { rng.next_u32() ^ k << 30 };
                if notes.iter().all(|(_, _, _, q)| *q != p) {
                    break p;
                }
            };
            tree.set(pos, mnote(&note).cmx().unwrap());
            notes.push((w, s, note, pos));
        }
        let anchor = tree.root();
        let mut b = Builder::new(t, anchor_of(&anchor));
        let mut sc = Scenario {
            bundle_type: t,
            wallets: wallets.clone(),
            spends: vec![],
            outs: vec![],
            tree: tree.clone(),
            anchor,
        };
        let mut log = format!("{:?}:", t);
        for (w, s, note, pos) in &notes {
            let use_w = if rng.gen_range(0..4) == 0 { 1 - w } else { *w };
            let mut path = tree.path(*pos);
            let mut use_pos = *pos;
            let mut foreign = None;
            match rng.gen_range(0..6) {
                0 => path[rng.gen_range(0..32)] = rand_base(rng),
                1 => path[0] += Base::ONE,
                2 => path[31] += Base::ONE,
                3 => use_pos ^= 1 << rng.gen_range(0..32),
                _ => (),
            }
            let leaf = mnote(note).cmx().unwrap();
            let path_ok = model::merkle_root_from_path(&leaf, use_pos, &path) == anchor;
            if path != tree.path(*pos) || use_pos != *pos {
                foreign = Some(path);
            }
            let owned = use_w == *w;
            let anchored = path_ok || note.value().inner() == 0;
            let r = b.add_spend(wallets[use_w].fvk.clone(), *note, path_of(use_pos, &path));
            log += &format!(" spend(v={},owned={},path={})={:?}", note.value().inner(), owned, path_ok, r);
            match r {
                Ok(()) => {
                    ensure!(se && owned && anchored, "a forbidden spend was accepted: {}", log);
                    ctx.event("accepted spend");
                    sc.spends.push(SpendReq { wallet: *w, scope: *s, note: *note, pos: use_pos, foreign_path: foreign });
                }
                Err(e) => {
                    let justified = match e {
                        SpendError::SpendsDisabled => !se,
                        SpendError::FvkMismatch => !owned,
                        SpendError::AnchorMismatch => !anchored,
                    };
                    ensure!(justified, "a spend was refused without reason: {}", log);
                    ctx.event(match e {
                        SpendError::SpendsDisabled => "refused: spends disabled",
                        SpendError::FvkMismatch => "refused: wrong key",
                        SpendError::AnchorMismatch => "refused: anchor",
                    });
                }
            }
        }
        for _ in 0..rng.gen_range(0..4) {
            let o = { let v = rng.next_u32() as u64; rand_out(rng, &wallets, v) };
            let r = b.add_output(o.ovk.map(OutgoingViewingKey::from), o.recipient, NoteValue::from_raw(o.value), o.memo);
            log += &format!(" output={:?}", r);
            match r {
                Ok(()) => {
                    ensure!(oe, "a forbidden output was accepted: {}", log);
                    ctx.event("accepted output");
                    sc.outs.push(o);
                }
                Err(_) => {
                    ensure!(!oe, "an output was refused without reason: {}", log);
                    ctx.event("refused: outputs disabled");
                }
            }
        }
        ctx.distinct("sequence", log.as_bytes());
        ctx.sample("sequence", || log.clone());
        let sv: Vec<u64> = b.spends().iter().map(|s| InputView::value(s)).collect();
        same!(sv.len(), sc.spends.len(), "number of spends held by the builder after {}", log);
        same!(b.outputs().len(), sc.outs.len(), "number of outputs held by the builder after {}", log);
        match b.build::<i64>(&mut *rng) {
            Ok(None) => same!(sc.expected_actions(), 0usize, "expected actions after {}", log),
            Ok(Some((bun, meta))) => check_fidelity(&sc, &bun, &meta)?,
            Err(e) => return Err(format!("accepted requests could not be built ({:?}): {}", e, log)),
        }
        Ok(())
    });
    // The free function enforces the same rules on whatever it is handed.
    ctx.run("function", ctx.n(400, 5000), |_, rng| {
        let types = all_types();
        let t = *pick(rng, &types);
        let (se, oe) = model_flags(&t);
        let w = Wallet::random(rng);
        let mut tree = SparseTree::new(&[]);
        let ns = rng.gen_range(0..4u32);
        let mut infos = vec![];
        let mut all_anchored = true;
        let mut made = vec![];
        for k in 0..ns {
            let s = rand_scope(rng);
            let v = if rng.gen_range(0..4) == 0 { 0 } else { 1 + rng.next_u32() as u64 };
            let note = { let ad = w.address(s, rand_index(rng)); rand_note(rng, ad, v) };
            let pos = (k * 3 + rng.gen_range(0..3)) | *pick(rng, &[0u32, 0, 1 << 31, 0xffff_fff0, 1 << 16]);
            if made.iter().any(|(_, _, q)| *q == pos) {
                continue;
            }
            tree.set(pos, mnote(&note).cmx().unwrap());
            made.push((s, note, pos));
        }
        let ns = made.len() as u32;
        let anchor = tree.root();
        // Break at most one of them, anywhere in the list.
        let bad = (ns > 0 && rng.gen_range(0..3) == 0).then(|| rng.gen_range(0..ns as usize));
        let mut spends = vec![];
        for (k, (s, note, pos)) in made.iter().enumerate() {
            let mut path = tree.path(*pos);
            let mut fp = None;
            if bad == Some(k) {
                path[rng.gen_range(0..32)] += Base::ONE;
                fp = Some(path);
                if note.value().inner() != 0 {
                    all_anchored = false;
                }
            }
            spends.push(SpendReq { wallet: 0, scope: *s, note: *note, pos: *pos, foreign_path: fp });
            infos.push(sut(SpendInfo::new(w.fvk.clone(), *note, path_of(*pos, &path)), "SpendInfo of an owned note"));
        }
        let no = rng.gen_range(0..4);
        let wallets = vec![w];
        let outs: Vec<OutReq> = (0..no).map(|_| { let v = rng.next_u32() as u64; rand_out(rng, &wallets, v) }).collect();
        let sc = Scenario { bundle_type: t, wallets, spends, outs, tree, anchor };
        let oinfos: Vec<OutputInfo> = sc.output_infos();
        let r = bundle::<i64>(&mut *rng, anchor_of(&anchor), t, infos, oinfos);
        let d = format!("{:?} {} spends (bad {:?}) {} outputs", t, ns, bad, no);
        ctx.distinct("function call", d.as_bytes());
        let spends_ok = se || ns == 0;
        let outs_ok = oe || no == 0;
        match r {
            Ok(x) => {
                ensure!(spends_ok && outs_ok && all_anchored, "a forbidden bundle was built: {}", d);
                match x {
                    None => same!(sc.expected_actions(), 0usize, "actions for {}", d),
                    Some((b, m)) => check_fidelity(&sc, &b, &m)?,
                }
                ctx.event("function: built");
            }
            Err(e) => {
                let ok = match e {
                    BuildError::SpendsDisabled => !spends_ok,
                    BuildError::OutputsDisabled => !outs_ok,
                    BuildError::AnchorMismatch => !all_anchored,
                    BuildError::BundleTypeNotSatisfiable => !spends_ok || !outs_ok,
                    _ => false,
                };
                ensure!(ok, "an allowed bundle was refused with {:?}: {}", e, d);
                ctx.event("function: refused");
            }
        }
        Ok(())
    });
    // Custom-builder entry points.
    ctx.run("custom", ctx.n(300, 3000), |_, rng| {
        let (w, other) = (Wallet::random(rng), Wallet::random(rng));
        let s = rand_scope(rng);
        let addr = w.address(s, rand_index(rng));
        let note = rand_note(rng, addr, 7);
        let p = {
            let mut p = [Base::ZERO; 32];
            p.iter_mut().for_each(|x| *x = rand_base(rng));
            p
        };
        let pos = edge_u32(rng);
        ensure!(SpendInfo::new(w.fvk.clone(), note, path_of(pos, &p)).is_some(), "SpendInfo refused to the owner");
        ensure!(SpendInfo::new(other.fvk.clone(), note, path_of(pos, &p)).is_none(), "SpendInfo made for a foreign note");
        // A frankenstein address: the diversifier of one, the key of another.
        let mut raw = addr.to_raw_address_bytes();
        // Or the diversifier of one with its own key negated.
        let theirs = other.address(s, rand_index(rng)).to_raw_address_bytes();
        if theirs[..11] == raw[..11] || rng.gen_range(0..3) == 0 {
            let own: [u8; 32] = raw[11..].try_into().unwrap();
            let pk_d: model::Point = sut(model::point(&own), "transmission key");
            raw[11..].copy_from_slice(&(-pk_d).to_bytes());
        } else {
            raw[11..].copy_from_slice(&theirs[11..]);
        }
        let mixed = sut(orchard::Address::from_raw_address_bytes(&raw), "address");
        let stray = rand_note(rng, mixed, 5);
        ensure!(
            SpendInfo::new(w.fvk.clone(), stray, path_of(pos, &p)).is_none()
                && SpendInfo::new(other.fvk.clone(), stray, path_of(pos, &p)).is_none(),
            "SpendInfo made for a note nobody owns"
        );
        // Circuits are only made for outputs chained to the spent nullifier.
        let nf = mnote(&note).nullifier(&w.keys.fvk.nk).unwrap();
        let chained = rng.gen();
        let r = if chained { nf } else if rng.gen() { nf + Base::ONE } else { rand_base(rng) };
        let out_note = loop {
            if let Some(n) = make_note(other.address(s, rand_index(rng)), 7, &r, bytes(rng)) {
                break n;
            }
        };
        let si = sut(SpendInfo::new(w.fvk.clone(), note, path_of(pos, &p)), "spend info");
        let rcv = sut(ValueCommitTrapdoor::from_bytes(rand_scalar(rng).to_repr()), "trapdoor");
        let c = Circuit::from_action_context(si, out_note, rand_scalar(rng), rcv);
        same!(c.is_some(), chained, "circuit for an output whose rho is{} the spent nullifier", if chained { "" } else { " not" });
        ctx.event(if chained { "context accepted" } else { "context refused" });
        ctx.distinct("custom", &raw);
        Ok(())
    });
}
