//! C12 the key hierarchy, C17 ZIP 32 derivation.

use std::collections::BTreeMap;

use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use orchard::{
    keys::{Diversifier, FullViewingKey, IncomingViewingKey, Scope, SpendAuthorizingKey, SpendValidatingKey, SpendingKey},
    primitives::redpallas::{self, SpendAuth},
    zip32, Address,
};
use rand::Rng as _;
use ::zip32::AccountId;

use crate::model::{self, Base, MFvk, MKeys, MScope, Point, Scalar, SCOPES};
use crate::mon::{sut, watch, Ctx, Rng, Verdict};
use crate::world::*;
use crate::{ensure, same};

/// Everything derivable from a full viewing key, against the model.
fn check_fvk(ctx: &Ctx, rng: &mut Rng, fvk: &FullViewingKey, m: &MFvk) -> Verdict {
    same!(fvk.to_bytes(), m.to_bytes(), "full viewing key bytes");
    let ak = SpendValidatingKey::from(fvk.clone());
    let alpha = edge_scalar(rng);
    let rk: [u8; 32] = (&ak.randomize(&alpha)).into();
    same!(rk, (m.ak + model::spend_auth_base() * alpha).to_bytes(), "randomized validating key, alpha={:?}", alpha);
    let mut dks = vec![];
    for s in SCOPES {
        let sc = m.scoped(s);
        let (dk, ovk) = sc.dk_ovk();
        let ivk = sc.ivk().unwrap();
        let real = fvk.to_ivk(scope(s));
        let mut want = [0u8; 64];
        want[..32].copy_from_slice(&dk);
        want[32..].copy_from_slice(&ivk.to_repr());
        same!(real.to_bytes(), want, "{:?} incoming viewing key", s);
        let real_ovk = fvk.to_ovk(scope(s));
        same!(*real_ovk.as_ref(), ovk, "{:?} outgoing viewing key", s);
        dks.push(dk);
        for _ in 0..3 {
            let j = rand_index(rng);
            let addr = fvk.address_at(j, scope(s));
            let want = m.address_at(s, &j);
            same!(addr.to_raw_address_bytes(), want, "{:?} address at {:?}", s, j);
            same!(real.address_at(j), addr, "address by way of the incoming key");
            let d = addr.diversifier();
            same!(*d.as_array(), want[..11], "diversifier");
            same!(fvk.address(d, scope(s)), addr, "address for a diversifier");
            same!(real.address(d), addr, "address for a diversifier by way of the incoming key");
            // Recognition.
            same!(
                real.diversifier_index(&addr).map(|i| *i.as_bytes()),
                Some(j),
                "diversifier index of an own {:?} address",
                s
            );
            same!(fvk.scope_for_address(&addr), Some(scope(s)), "scope of an own {:?} address", s);
            ctx.event("own addresses recognised");
            ctx.distinct("address", &want);

            // The same diversifier under the other scope belongs to that scope.
            let o = if s == MScope::External { MScope::Internal } else { MScope::External };
            let sib = fvk.address(d, scope(o));
            same!(fvk.scope_for_address(&sib), Some(scope(o)), "scope of the sibling address");
            same!(real.diversifier_index(&sib).is_some(), false, "the {:?} key claims a {:?} address", s, o);
            ctx.event("sibling addresses told apart");

            // The same diversifier with somebody else's key is nobody's.
            let mut b = want;
            b[11..].copy_from_slice(&match rng.gen_range(0..3) {
                0 => (-model::point(&want[11..].try_into().unwrap()).unwrap()).to_bytes(),
                1 => (Point::generator() * Scalar::random(&mut *rng)).to_bytes(),
                _ => (model::point(&want[11..].try_into().unwrap()).unwrap() * Scalar::from(2)).to_bytes(),
            });
            let foreign: Address = sut(Address::from_raw_address_bytes(&b), "valid address bytes");
            same!(fvk.scope_for_address(&foreign), None, "scope of a foreign address with an own diversifier");
            same!(real.diversifier_index(&foreign).is_some(), false, "a foreign address was claimed");
            // An own transmission key with another diversifier, likewise.
            let mut b = want;
            b[rng.gen_range(0..11)] ^= 1 << rng.gen_range(0..8);
            let foreign: Address = sut(Address::from_raw_address_bytes(&b), "valid address bytes");
            same!(fvk.scope_for_address(&foreign), None, "scope of an own key with a foreign diversifier");
            ctx.event("foreign addresses refused");
        }
        // Any diversifier at all gives an address of this key.
        let d: [u8; 11] = match rng.gen_range(0..3) {
            0 => [0; 11],
            1 => [0xff; 11],
            _ => bytes(rng),
        };
        let a = fvk.address(Diversifier::from_bytes(d), scope(s));
        same!(a.to_raw_address_bytes(), model::address(&ivk, &d), "address for a chosen diversifier");
        same!(
            real.diversifier_index(&a).map(|i| *i.as_bytes()),
            Some(model::diversifier_index(&dk, &d)),
            "index for a chosen diversifier"
        );
        same!(fvk.scope_for_address(&a), Some(scope(s)), "scope for a chosen diversifier");
    }
    ensure!(dks[0] != dks[1], "both scopes share a diversifier key");
    Ok(())
}

fn rand_fvk(rng: &mut Rng) -> (MFvk, [u8; 96]) {
    loop {
        let mut ak = model::spend_auth_base() * edge_scalar(rng);
        if bool::from(ak.is_identity()) {
            continue;
        }
        if ak.to_bytes()[31] >> 7 == 1 {
            ak = -ak;
        }
        let m = MFvk { ak, nk: edge_base(rng), rivk: edge_scalar(rng) };
        if SCOPES.iter().all(|s| m.scoped(*s).ivk().is_some()) {
            let b = m.to_bytes();
            return (m, b);
        }
    }
}

pub fn c12(ctx: &Ctx) {
    ctx.rule(
        "spending keys (random and structured), viewing keys not derived from any spending key \
         (edge nk, rivk), bare incoming viewing keys; every derived key and address compared with \
         the specification's derivation, and address recognition probed with own, sibling-scope \
         and near-miss foreign addresses. Distinct by key and address bytes.",
    );
    ctx.require("spending keys checked", 40);
    ctx.require("ak sign adjustment needed", 8);
    ctx.require("ak sign adjustment not needed", 8);
    ctx.require("own addresses recognised", 200);
    ctx.require("foreign addresses refused", 200);
    ctx.run("from spending key", ctx.n(600, 4000), |i, rng| {
        let b: [u8; 32] = match i {
            0 => [0; 32],
            1 => [0xff; 32],
            2..=20 => {
                let mut b = [0; 32];
                b[(i as usize - 2) % 32] = 1 << (i % 8);
                b
            }
            _ => bytes(rng),
        };
        let m = MKeys::from_sk(b);
        let sk = Option::<SpendingKey>::from(SpendingKey::from_bytes(b));
        same!(sk.is_some(), m.is_some(), "acceptance of spending key {}", hex::encode(b));
        let (m, sk) = match (m, sk) {
            (Some(m), Some(sk)) => (m, sk),
            _ => return Ok(()),
        };
        same!(*sk.to_bytes(), b, "spending key bytes");
        ctx.distinct("spending key", &b);
        ctx.sample("spending key", || format!("sk={} ak={}", hex::encode(b), hex::encode(m.fvk.ak.to_bytes())));
        let plain = model::to_scalar(model::prf_expand(&b, &[&[0x06]]));
        ctx.event(if plain == m.ask { "ak sign adjustment not needed" } else { "ak sign adjustment needed" });

        let ask = SpendAuthorizingKey::from(&sk);
        for alpha in [Scalar::ZERO, edge_scalar(rng), -m.ask] {
            let rsk = ask.randomize(&alpha);
            let got: [u8; 32] = rsk.clone().into();
            same!(got, (m.ask + alpha).to_repr(), "randomized signing key");
            let vk = redpallas::VerificationKey::<SpendAuth>::from(&rsk);
            let got: [u8; 32] = (&vk).into();
            same!(got, (model::spend_auth_base() * (m.ask + alpha)).to_bytes(), "its validating key");
            let got: [u8; 32] = (&SpendValidatingKey::from(&ask).randomize(&alpha)).into();
            same!(got, (m.fvk.ak + model::spend_auth_base() * alpha).to_bytes(), "randomized validating key");
        }
        let fvk = FullViewingKey::from(&sk);
        check_fvk(ctx, rng, &fvk, &m.fvk)?;
        // The derivation is a function: the same key again, and from its own encoding.
        let again = FullViewingKey::from(&SpendingKey::from_bytes(b).unwrap());
        ensure!(again == fvk && FullViewingKey::from_bytes(&fvk.to_bytes()).as_ref() == Some(&fvk), "derivation is not a function");
        ctx.event("spending keys checked");
        Ok(())
    });
    ctx.run("from viewing key", ctx.n(400, 2500), |_, rng| {
        let (m, b) = rand_fvk(rng);
        let fvk = sut(FullViewingKey::from_bytes(&b), "valid viewing key bytes");
        ctx.distinct("viewing key", &b);
        check_fvk(ctx, rng, &fvk, &m)?;
        // Another holder of the same diversifiers but different keys claims nothing.
        let w = Wallet::random(rng);
        for s in SCOPES {
            let a = fvk.address_at(rand_index(rng), scope(s));
            same!(w.fvk.scope_for_address(&a), None, "an unrelated key claims an address");
        }
        Ok(())
    });
    ctx.run("from incoming key", ctx.n(300, 2500), |_, rng| {
        let dk: [u8; 32] = if rng.gen_range(0..4) == 0 { [rng.gen::<u8>() & 1; 32] } else { bytes(rng) };
        let ivk = loop {
            let k = edge_base(rng);
            if k != Base::ZERO {
                break k;
            }
        };
        let mut b = [0; 64];
        b[..32].copy_from_slice(&dk);
        b[32..].copy_from_slice(&ivk.to_repr());
        let k: IncomingViewingKey = sut(IncomingViewingKey::from_bytes(&b), "valid incoming viewing key");
        for _ in 0..4 {
            let j = rand_index(rng);
            let want = model::address(&ivk, &model::diversifier(&dk, &j));
            let a = k.address_at(j);
            same!(a.to_raw_address_bytes(), want, "address at {:?} of ivk {:?}", j, ivk);
            same!(k.diversifier_index(&a).map(|i| *i.as_bytes()), Some(j), "index of an own address");
            ctx.distinct("address", &want);
            ctx.event("own addresses recognised");
            // Keys that differ only in dk recognise the address at another index; keys that
            // differ only in ivk do not recognise it.
            let mut b2 = b;
            b2[rng.gen_range(0..32)] ^= 1 << rng.gen_range(0..8);
            let dk2: [u8; 32] = b2[..32].try_into().unwrap();
            let k2: IncomingViewingKey = sut(IncomingViewingKey::from_bytes(&b2), "valid incoming viewing key");
            same!(
                k2.diversifier_index(&a).map(|i| *i.as_bytes()),
                Some(model::diversifier_index(&dk2, &want[..11].try_into().unwrap())),
                "index under another diversifier key"
            );
            let ivk3 = if rng.gen() { -ivk } else { ivk + Base::ONE };
            if ivk3 != Base::ZERO {
                let mut b3 = b;
                b3[32..].copy_from_slice(&ivk3.to_repr());
                let k3: IncomingViewingKey = sut(IncomingViewingKey::from_bytes(&b3), "valid incoming viewing key");
                ensure!(k3.diversifier_index(&a).is_none(), "another ivk claims the address");
            }
        }
        Ok(())
    });
    // The order on keys is a total order compatible with equality.
    ctx.run("order", ctx.n(20, 300), |_, rng| {
        let ks: Vec<FullViewingKey> = (0..4)
            .map(|_| sut(FullViewingKey::from_bytes(&rand_fvk(rng).1), "valid viewing key bytes"))
            .collect();
        let is: Vec<IncomingViewingKey> = ks.iter().flat_map(|k| [k.to_ivk(Scope::External), k.to_ivk(Scope::Internal)]).collect();
        fn total<T: Ord + Clone, B: Eq>(v: &[T], key: impl Fn(&T) -> B) -> Verdict {
            for a in v {
                for b in v {
                    ensure!((a.cmp(b) == std::cmp::Ordering::Equal) == (key(a) == key(b)), "order disagrees with equality of keys");
                    ensure!((a == b) == (key(a) == key(b)), "equality disagrees with the encodings");
                    ensure!(a.cmp(b) == b.cmp(a).reverse(), "order is not antisymmetric");
                    ensure!(a.partial_cmp(b) == Some(a.cmp(b)), "the two orders disagree");
                }
            }
            let mut s = v.to_vec();
            s.sort();
            ensure!(s.windows(2).all(|w| w[0] <= w[1]), "sorting did not sort");
            Ok(())
        }
        total(&ks, |k| k.to_bytes())?;
        total(&is, |k| k.to_bytes().to_vec())
    });
}

fn seed(rng: &mut Rng) -> Vec<u8> {
    let n = match rng.gen_range(0..8) {
        0 => 32,
        1 => 252,
        2 => *pick(rng, &[33, 63, 64, 65, 127, 128, 129, 251]),
        3 => 64,
        _ => rng.gen_range(32..=252),
    };
    let mut s = vec![0; n];
    match rng.gen_range(0..6) {
        0 => (),
        1 => s.fill(0xff),
        _ => rand::RngCore::fill_bytes(rng, &mut s),
    }
    s
}

pub fn c17(ctx: &Ctx) {
    ctx.rule(
        "seeds of every legal length, coin types and accounts at and around every power of two \
         and the hardened boundary, compared with ZIP 32 derivation by the model; out-of-range \
         inputs must be refused; and sibling derivations must never collide. Distinct by \
         (seed, coin, account).",
    );
    ctx.require("derivations compared", 200);
    ctx.require("out of range refused", 20);
    ctx.run("derive", ctx.n(3000, 15000), |i, rng| {
        let s = if i < 221 {
            // every legal seed length once
            let mut v = vec![0u8; 32 + i as usize];
            rand::RngCore::fill_bytes(rng, &mut v);
            v
        } else {
            seed(rng)
        };
        let coin = edge_u32(rng);
        let acc_raw = edge_u32(rng);
        ctx.sample("derivation", || format!("seed len {} coin {:#x} account {:#x}", s.len(), coin, acc_raw));
        let acc = AccountId::try_from(acc_raw & 0x7fff_ffff).unwrap();
        let got = SpendingKey::from_zip32_seed(&s, coin, acc);
        if coin >= 1 << 31 {
            same!(got.err(), Some(zip32::Error::InvalidChildIndex(coin)), "coin type {:#x}", coin);
            ctx.event("out of range refused");
            return Ok(());
        }
        // Each node on the path must itself be a valid spending key.
        let path = [32, coin, u32::from(acc)];
        let valid = (0..=3).all(|k| MKeys::from_sk(model::zip32_derive(&s, &path[..k]).0).is_some());
        let want = model::zip32_derive(&s, &path).0;
        match got {
            Ok(sk) => {
                ensure!(valid, "derived through an invalid key");
                same!(*sk.to_bytes(), want, "key at coin {:#x}, account {:#x}, seed length {}", coin, acc_raw, s.len());
                ctx.event("derivations compared");
                ctx.distinct("derived key", &want);
            }
            Err(e) => ensure!(!valid, "refused a valid derivation: {:?}", e),
        }
        Ok(())
    });
    ctx.run("siblings", ctx.n(60, 400), |_, rng| {
        let s = seed(rng);
        let coin = edge_u32(rng) & 0x7fff_ffff;
        let mut seen: BTreeMap<[u8; 32], (u32, u32)> = BTreeMap::new();
        let mut at = vec![];
        for k in 0..4u32 {
            at.push((coin, k));
            at.push((coin, 1 << (7 + k * 8).min(30)));
            at.push((coin ^ (1 << (8 * k)), 0));
            at.push((coin ^ (1 << (8 * k)), 1));
        }
        at.push((coin, 0x7fff_ffff));
        at.sort();
        at.dedup();
        for (c, a) in at {
            let sk = SpendingKey::from_zip32_seed(&s, c, AccountId::try_from(a).unwrap())
                .map_err(|e| format!("refused coin {} account {}: {:?}", c, a, e))?;
            let again = SpendingKey::from_zip32_seed(&s, c, AccountId::try_from(a).unwrap()).unwrap();
            same!(again.to_bytes(), sk.to_bytes(), "deriving twice");
            same!(*sk.to_bytes(), model::zip32_derive(&s, &[32, c, a]).0, "key at coin {} account {}", c, a);
            if let Some(other) = seen.insert(*sk.to_bytes(), (c, a)) {
                return Err(format!("accounts {:?} and {:?} of one seed share a key", other, (c, a)));
            }
            ctx.event("sibling keys");
        }
        Ok(())
    });
    // Seeds outside the legal lengths never yield a key.
    ctx.run("bad seeds", ctx.n(40, 40), |i, rng| {
        let n = if i < 32 { i as usize } else { 253 + 3 * (i as usize - 32) * (i as usize - 32) };
        let mut s = vec![0; n];
        rand::RngCore::fill_bytes(rng, &mut s);
        let r = watch(|| SpendingKey::from_zip32_seed(&s, 133, AccountId::ZERO));
        ensure!(!matches!(r, Ok(Ok(_))), "a {}-byte seed was accepted", n);
        ctx.event("out of range refused");
        Ok(())
    });
}
