#![cfg_attr(not(orchard_verif), allow(unused_imports))]
//! C06 no proof for a false Action statement, C07 every true one can be proven.
//!
//! The verdict of the real circuit (synthesized by the crate, with every constraint evaluated on
//! the concrete witness) is compared with a model of the Action statement. With the crate's
//! observation hooks (`--cfg orchard_verif`) arbitrary witnesses can be given to the circuit and
//! the builder's own witnesses can be read; without them, only witnesses that
//! `Circuit::from_action_context` makes.

use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use halo2_proofs::dev::MockProver;
use orchard::{
    builder::SpendInfo,
    circuit::{Circuit, Instance},
    keys::Diversifier,
    primitives::redpallas,
    value::ValueCommitTrapdoor,
    Proof,
};
use rand::Rng as _;

use super::proofs::{pk, vk};
use crate::model::{self, Base, Point, Public, Scalar, Statement};
use crate::mon::{sut, Ctx, Rng, Verdict};
use crate::world::*;
use crate::{ensure, same};

/// What the circuit says.
fn satisfied(c: &Circuit, inputs: &[Base; 9]) -> bool {
    match MockProver::run(11, c, vec![inputs.to_vec()]) {
        Ok(p) => p.verify().is_ok(),
        Err(_) => false,
    }
}

fn instance(p: &Public) -> Instance {
    Instance::from_parts(
        anchor_of(&p.anchor),
        sut(orchard::value::ValueCommitment::from_bytes(&p.cv.to_bytes()), "cv"),
        sut(orchard::note::Nullifier::from_bytes(&p.nf.to_repr()), "nf"),
        sut(redpallas::VerificationKey::try_from(p.rk.to_bytes()).ok(), "rk"),
        sut(orchard::note::ExtractedNoteCommitment::from_bytes(&p.cmx.to_repr()), "cmx"),
        p.enable_spends,
        p.enable_outputs,
    )
}

/// The public inputs for which a witness makes the statement true (if it can be).
fn publics(w: &Statement, enable_spends: bool, enable_outputs: bool) -> Option<Public> {
    let nf = model::derive_nullifier(&w.nk, &w.rho_old, &w.psi_old, &w.cm_old);
    let cm_new = model::note_commit(&w.g_d_new.to_bytes(), &w.pk_d_new.to_bytes(), w.v_new, &nf, &w.psi_new, &w.rcm_new)?;
    Some(Public {
        anchor: model::merkle_root_from_path(&model::extract_p(&w.cm_old), w.pos, &w.path),
        cv: model::value_commit(w.v_old as i128 - w.v_new as i128, &w.rcv),
        nf,
        rk: w.ak + model::spend_auth_base() * w.alpha,
        cmx: model::extract_p(&cm_new),
        enable_spends,
        enable_outputs,
    })
}

/// A true statement from the public API's own inputs, with its circuit.
struct Case {
    w: Statement,
    p: Public,
    circuit: Circuit,
}

fn case(rng: &mut Rng, opts: &dyn Fn(&mut Rng) -> (u64, u64)) -> Case {
    loop {
        let wallet = Wallet::random(rng);
        let s = rand_scope(rng);
        let (v_old, v_new) = opts(rng);
        let addr = wallet.address(s, rand_index(rng));
        let rho_v = edge_base(rng);
        let note = match make_note(addr, v_old, &rho_v, bytes(rng)) {
            Some(n) => n,
            None => continue,
        };
        let m = mnote(&note);
        let pos = edge_u32(rng);
        let mut path = [Base::ZERO; 32];
        let edgy = rng.gen::<bool>();
        for (l, x) in path.iter_mut().enumerate() {
            *x = match rng.gen_range(0..3) {
                0 => model::empty_roots()[l],
                1 if edgy => edge_base(rng),
                _ => rand_base(rng),
            };
        }
        let nk = wallet.keys.fvk.nk;
        let nf = m.nullifier(&nk).unwrap();
        let other = Wallet::random(rng);
        let out_addr = if rng.gen() {
            other.address(rand_scope(rng), rand_index(rng))
        } else {
            let d = Diversifier::from_bytes(bytes(rng));
            other.fvk.address(d, scope(rand_scope(rng)))
        };
        let out = match make_note(out_addr, v_new, &nf, bytes(rng)) {
            Some(n) => n,
            None => continue,
        };
        let mo = mnote(&out);
        // Now and then, the randomizer that makes rk the identity, and a commitment that is it.
        let alpha = if rng.gen_range(0..12) == 0 { -wallet.keys.ask } else { edge_scalar(rng) };
        let rcv = if rng.gen_range(0..12) == 0 { Scalar::ZERO } else { edge_scalar(rng) };
        let si = sut(SpendInfo::new(wallet.fvk.clone(), note, path_of(pos, &path)), "SpendInfo of an owned note");
        let circuit = sut(
            Circuit::from_action_context(si, out, alpha, sut(ValueCommitTrapdoor::from_bytes(rcv.to_repr()), "trapdoor")),
            "circuit for a consistent action",
        );
        let scoped = wallet.keys.fvk.scoped(s);
        let w = Statement {
            path,
            pos,
            g_d_old: m.g_d(),
            pk_d_old: model::point(&m.pk_d()).unwrap(),
            v_old,
            rho_old: m.rho,
            psi_old: m.psi(),
            rcm_old: m.rcm(),
            cm_old: m.cm().unwrap(),
            alpha,
            ak: scoped.ak,
            nk: scoped.nk,
            rivk: scoped.rivk,
            g_d_new: mo.g_d(),
            pk_d_new: model::point(&mo.pk_d()).unwrap(),
            v_new,
            psi_new: mo.psi(),
            rcm_new: mo.rcm(),
            rcv,
        };
        let (mut es, mut eo) = (true, true);
        if v_old == 0 {
            es = rng.gen();
        }
        if v_new == 0 {
            eo = rng.gen();
        }
        if let Some(mut p) = publics(&w, es, eo) {
            if v_old == 0 && rng.gen() {
                p.anchor = edge_base(rng);
            }
            return Case { w, p, circuit };
        }
    }
}

fn any_values(rng: &mut Rng) -> (u64, u64) {
    match rng.gen_range(0..5) {
        0 => (0, edge_u64(rng)),
        1 => (edge_u64(rng), 0),
        2 => {
            let v = edge_u64(rng);
            (v, v)
        }
        _ => (edge_u64(rng), edge_u64(rng)),
    }
}

/// Changes one public input, leaving the witness alone.
fn forge_public(rng: &mut Rng, p: &mut Public) -> &'static str {
    match rng.gen_range(0..13) {
        0 => { p.anchor = rand_base(rng); "another anchor" }
        1 => { p.anchor += Base::ONE; "anchor plus one" }
        2 => { p.cv = -p.cv; "negated cv" }
        3 => { p.cv += model::value_base(); "cv plus one unit" }
        4 => { p.cv += model::rcv_base(); "cv plus one unit of randomness" }
        5 => { p.nf += Base::ONE; "nf plus one" }
        6 => { p.nf = -p.nf; "negated nf" }
        7 => { p.rk = -p.rk; "negated rk" }
        8 => { p.rk += model::spend_auth_base(); "rk re-randomized" }
        9 => { p.cmx += Base::ONE; "cmx plus one" }
        10 => { p.enable_spends = !p.enable_spends; "enableSpends flipped" }
        11 => { p.enable_outputs = !p.enable_outputs; "enableOutputs flipped" }
        _ => { p.enable_spends = !p.enable_spends; p.enable_outputs = !p.enable_outputs; "both flags flipped" }
    }
}

#[cfg(orchard_verif)]
mod hooked {
    use super::*;
    use orchard::verif_hooks::ActionWitness;

    pub fn witness(w: &Statement) -> ActionWitness {
        ActionWitness {
            path: w.path,
            pos: w.pos,
            g_d_old: w.g_d_old,
            pk_d_old: w.pk_d_old,
            v_old: w.v_old,
            rho_old: w.rho_old,
            psi_old: w.psi_old,
            rcm_old: w.rcm_old,
            cm_old: w.cm_old,
            alpha: w.alpha,
            ak: w.ak,
            nk: w.nk,
            rivk: w.rivk,
            g_d_new: w.g_d_new,
            pk_d_new: w.pk_d_new,
            v_new: w.v_new,
            psi_new: w.psi_new,
            rcm_new: w.rcm_new,
            rcv: w.rcv,
        }
    }

    pub fn statement(w: &ActionWitness) -> Statement {
        Statement {
            path: w.path,
            pos: w.pos,
            g_d_old: w.g_d_old,
            pk_d_old: w.pk_d_old,
            v_old: w.v_old,
            rho_old: w.rho_old,
            psi_old: w.psi_old,
            rcm_old: w.rcm_old,
            cm_old: w.cm_old,
            alpha: w.alpha,
            ak: w.ak,
            nk: w.nk,
            rivk: w.rivk,
            g_d_new: w.g_d_new,
            pk_d_new: w.pk_d_new,
            v_new: w.v_new,
            psi_new: w.psi_new,
            rcm_new: w.rcm_new,
            rcv: w.rcv,
        }
    }

    /// A lie in the witness, told as consistently as possible: everything that can be recomputed
    /// to fit it, is, except for the one clause under attack.
    pub fn lie(rng: &mut Rng, w: &mut Statement, p: &mut Public) -> Option<&'static str> {
        let recm = |w: &Statement| {
            model::note_commit(&w.g_d_old.to_bytes(), &w.pk_d_old.to_bytes(), w.v_old, &w.rho_old, &w.psi_old, &w.rcm_old)
        };
        let (es, eo) = (p.enable_spends, p.enable_outputs);
        let refit = |w: &Statement, p: &mut Public| -> Option<()> {
            *p = publics(w, es, eo)?;
            Some(())
        };
        Some(match rng.gen_range(0..28) {
            0 => {
                w.v_old = w.v_old.wrapping_add(*pick(rng, &[1, 1 << 32, 1 << 63, u64::MAX]));
                refit(w, p)?;
                "more value than the note holds"
            }
            1 => {
                // The note's other fields are adjusted too; only the tree does not contain it.
                w.v_old = w.v_old.wrapping_add(1);
                w.cm_old = recm(w)?;
                let a = p.anchor;
                refit(w, p)?;
                p.anchor = a;
                "a note that is not in the tree"
            }
            2 => {
                w.v_old = 0;
                refit(w, p)?;
                "a real note claimed to be worthless"
            }
            3 => {
                let cv = p.cv;
                w.v_new = w.v_new.wrapping_add(1);
                refit(w, p)?;
                p.cv = cv;
                "more value created than committed"
            }
            4 => {
                let d = w.v_new as i128 - w.v_old as i128;
                p.cv = model::value_commit(d, &w.rcv);
                "value commitment with the opposite sign"
            }
            5 => {
                // Modulo 2^64 instead of over the integers.
                let d = w.v_old as i128 - w.v_new as i128;
                let m = if d < 0 { d + (1i128 << 64) } else { d - (1i128 << 64) };
                let mag = Scalar::from_u128(m.unsigned_abs());
                let s = if m < 0 { -mag } else { mag };
                p.cv = model::value_base() * s + model::rcv_base() * w.rcv;
                "value commitment modulo 2^64"
            }
            6 => {
                // Somebody else's note, with the attacker's keys.
                let o = Wallet::random(rng);
                w.ak = o.keys.fvk.ak;
                w.nk = o.keys.fvk.nk;
                w.rivk = o.keys.fvk.rivk;
                refit(w, p)?;
                "another wallet's keys"
            }
            7 => {
                w.ak = -w.ak;
                return None;
            }
            8 => {
                let o = Wallet::random(rng);
                w.ak = o.keys.fvk.ak;
                refit(w, p)?;
                "spend authority of another wallet"
            }
            9 => {
                w.nk += Base::ONE;
                refit(w, p)?;
                "a second nullifier through another nk"
            }
            10 => {
                w.rivk += Scalar::ONE;
                refit(w, p)?;
                "another rivk"
            }
            11 => {
                w.rho_old += Base::ONE;
                refit(w, p)?;
                "a second nullifier through another rho"
            }
            12 => {
                w.psi_old += Base::ONE;
                refit(w, p)?;
                "a second nullifier through another psi"
            }
            13 => {
                w.rcm_old += Scalar::ONE;
                refit(w, p)?;
                "another trapdoor for the old note"
            }
            14 => {
                // Same x-coordinate, same leaf, different nullifier.
                w.cm_old = -w.cm_old;
                refit(w, p)?;
                "negated old commitment"
            }
            15 => {
                w.pk_d_old = -w.pk_d_old;
                w.g_d_old = -w.g_d_old;
                refit(w, p)?;
                "negated address of the old note"
            }
            16 => {
                w.g_d_old = Point::random(&mut *rng);
                w.cm_old = recm(w)?;
                refit(w, p)?;
                "address whose g_d is arbitrary"
            }
            17 => {
                w.pk_d_old = Point::random(&mut *rng);
                w.cm_old = recm(w)?;
                refit(w, p)?;
                "a note to somebody else, in the tree"
            }
            18 => {
                // Owned under a diversified base of the prover's choice: a true statement.
                let ivk = model::commit_ivk(&model::extract_p(&w.ak), &w.nk, &w.rivk)?;
                w.g_d_old = Point::random(&mut *rng);
                w.pk_d_old = w.g_d_old * model::base_to_scalar(&ivk);
                w.cm_old = recm(w)?;
                refit(w, p)?;
                "an owned note at an arbitrary base"
            }
            19 => {
                let l = rng.gen_range(0..32);
                w.path[l] += Base::ONE;
                "a sibling changed"
            }
            20 => {
                w.pos ^= 1 << rng.gen_range(0..32);
                "a position bit flipped"
            }
            21 => {
                w.alpha += Scalar::ONE;
                "another alpha"
            }
            22 => {
                w.rcv += Scalar::ONE;
                "another value trapdoor"
            }
            23 => {
                let nf = p.nf;
                w.psi_new += Base::ONE;
                refit(w, p)?;
                p.nf = nf;
                "another psi for the new note, refitted"
            }
            24 => {
                w.rcm_new += Scalar::ONE;
                "another trapdoor for the new note"
            }
            25 => {
                w.g_d_new = Point::random(&mut *rng);
                w.pk_d_new = -w.g_d_new;
                refit(w, p)?;
                "a new note to an arbitrary address"
            }
            26 => {
                // The new note's rho is not the spent nullifier.
                let rho = rand_base(rng);
                let cm = model::note_commit(&w.g_d_new.to_bytes(), &w.pk_d_new.to_bytes(), w.v_new, &rho, &w.psi_new, &w.rcm_new)?;
                p.cmx = model::extract_p(&cm);
                "a new note with a rho of its own"
            }
            _ => {
                w.v_new = edge_u64(rng);
                w.v_old = edge_u64(rng);
                w.rho_old = edge_base(rng);
                w.psi_old = edge_base(rng);
                w.rcm_old = edge_scalar(rng);
                w.psi_new = edge_base(rng);
                w.rcm_new = edge_scalar(rng);
                w.alpha = edge_scalar(rng);
                w.rcv = edge_scalar(rng);
                w.cm_old = recm(w)?;
                let t = (w.v_old != 0) as u8;
                refit(w, p)?;
                if t == 1 && rng.gen() {
                    p.enable_spends = false;
                }
                "fresh edge values throughout"
            }
        })
    }
}

fn compare(ctx: &Ctx, what: &str, w: &Statement, p: &Public, circuit: &Circuit) -> Verdict {
    let broken = model::broken_clauses(w, p);
    let got = satisfied(circuit, &p.inputs());
    if got && !broken.is_empty() {
        return Err(format!("the circuit accepts a false statement ({}): {:?}; {:?} {:?}", what, broken, w, p));
    }
    if !got && broken.is_empty() {
        return Err(format!("the circuit refuses a true statement ({}): {:?} {:?}", what, w, p));
    }
    ctx.event(if got { "true statements accepted" } else { "false statements refused" });
    for b in &broken {
        ctx.event(&format!("broken: {}", b));
    }
    ctx.distinct("situation", format!("{} {:?}", what, broken).as_bytes());
    ctx.sample(what, || format!("{:?} v_old={} v_new={} pos={} anchor={:?}", broken, w.v_old, w.v_new, w.pos, p.anchor));
    Ok(())
}

fn native_inputs(p: &Public) -> Verdict {
    #[cfg(orchard_verif)]
    same!(orchard::verif_hooks::public_inputs(&instance(p)), p.inputs(), "public inputs handed to the proof system");
    #[cfg(not(orchard_verif))]
    let _ = instance(p);
    Ok(())
}

pub fn c06(ctx: &Ctx) {
    ctx.rule(
        "true Action statements with edge-heavy values, changed in one public input or told as a \
         consistent lie in one private input (28 kinds); the crate's circuit is synthesized and every \
         constraint evaluated on the witness, and the verdict is compared with a model of the \
         statement. Some false ones are really proven and verified. Distinct by lie and broken clauses.",
    );
    ctx.assume("Satisfaction is decided by evaluating the constraint system on the witness the synthesizer assigns (MockProver); a prover that assigns intermediate cells dishonestly is not observed.");
    ctx.require("false statements refused", 30);
    ctx.event(if cfg!(orchard_verif) { "observation hooks active" } else { "observation hooks absent" });
    ctx.run("public", ctx.n(60, 1500), |_, rng| {
        let c = case(rng, &any_values);
        let mut p = c.p.clone();
        let what = forge_public(rng, &mut p);
        native_inputs(&p)?;
        compare(ctx, what, &c.w, &p, &c.circuit)
    });
    #[cfg(orchard_verif)]
    {
        ctx.require("broken: old note commitment integrity", 5);
        ctx.require("broken: merkle path validity", 5);
        ctx.require("broken: nullifier integrity", 5);
        ctx.require("broken: diversified address integrity", 5);
        ctx.run("witness", ctx.n(160, 5000), |_, rng| {
            let c = case(rng, &any_values);
            let (mut w, mut p) = (c.w.clone(), c.p.clone());
            let what = match hooked::lie(rng, &mut w, &mut p) {
                Some(x) => x,
                None => {
                    ensure!(hooked::witness(&w).to_circuit().is_none() || w.ak.to_bytes()[31] >> 7 == 0, "an ak of the wrong sign was represented");
                    return Ok(());
                }
            };
            let circuit = match hooked::witness(&w).to_circuit() {
                Some(c) => c,
                None => return Ok(()),
            };
            native_inputs(&p)?;
            compare(ctx, what, &w, &p, &circuit)
        });
    }
    // Really proven: a prover that does not care whether the statement holds.
    ctx.run_on(4, "proven", ctx.n(5, 60), |_, rng| {
        let c = case(rng, &any_values);
        let (p, what) = loop {
            let mut p2 = c.p.clone();
            let what = forge_public(rng, &mut p2);
            if !model::broken_clauses(&c.w, &p2).is_empty() {
                break (p2, what);
            }
        };
        let inst = instance(&p);
        match Proof::create(pk(), &[c.circuit.clone()], &[inst.clone()], &mut *rng) {
            Ok(proof) => {
                ensure!(proof.verify(vk(), &[inst]).is_err(), "a proof of a false statement verifies: {} {:?}", what, p);
                ensure!(proof.verify(vk(), &[instance(&c.p)]).is_err(), "a proof made for one statement verifies for another: {}", what);
            }
            Err(_) => ctx.event("false statements not provable"),
        }
        ctx.event("false statements proven and rejected");
        ctx.distinct("proven", what.as_bytes());
        Ok(())
    });
}

pub fn c07(ctx: &Ctx) {
    ctx.rule(
        "true Action statements at the edges of every input's range, and every circuit the builder \
         makes for random requests: the witness must make the model's statement true for the public \
         inputs of the action it belongs to, and the circuit must accept it. Distinct by values and \
         position class.",
    );
    ctx.require("true statements accepted", 40);
    ctx.event(if cfg!(orchard_verif) { "observation hooks active" } else { "observation hooks absent" });
    ctx.run("edges", ctx.n(100, 3000), |_, rng| {
        let c = case(rng, &any_values);
        let broken = model::broken_clauses(&c.w, &c.p);
        ensure!(broken.is_empty(), "the API made an action whose statement is false: {:?}", broken);
        ctx.distinct("witness", format!("{} {} {}", c.w.v_old, c.w.v_new, c.w.pos).as_bytes());
        native_inputs(&c.p)?;
        #[cfg(orchard_verif)]
        {
            let w = sut(orchard::verif_hooks::ActionWitness::of(&c.circuit), "a complete witness");
            let broken = model::broken_clauses(&hooked::statement(&w), &c.p);
            ensure!(broken.is_empty(), "from_action_context made a witness for which the statement is false: {:?}", broken);
        }
        compare(ctx, "true by construction", &c.w, &c.p, &c.circuit)
    });
    #[cfg(orchard_verif)]
    {
        ctx.require("builder witnesses read", 200);
        ctx.run("builder", ctx.n(240, 5000), |i, rng| {
            let sc = scenario(rng, &GenOpts { max_spends: 4, max_outs: 4, ..Default::default() });
            let api = if i % 2 == 0 { Api::Builder } else { Api::Function };
            let (b, _) = sut(sc.build(api, rng)?, "a bundle");
            let circuits = orchard::verif_hooks::bundle_circuits(&b);
            same!(circuits.len(), b.actions().len(), "number of circuits");
            for (k, (a, c)) in b.actions().iter().zip(circuits).enumerate() {
                let m = maction(a);
                let w = hooked::statement(&sut(orchard::verif_hooks::ActionWitness::of(c), "a complete witness"));
                let p = Public {
                    anchor: sc.anchor,
                    cv: model::point(&m.cv).unwrap(),
                    nf: model::base(&m.nf).unwrap(),
                    rk: model::point(&m.rk).unwrap(),
                    cmx: model::base(&m.cmx).unwrap(),
                    enable_spends: b.flags().spends_enabled(),
                    enable_outputs: b.flags().outputs_enabled(),
                };
                let broken = model::broken_clauses(&w, &p);
                ensure!(broken.is_empty(), "action {} of a built bundle has a false statement: {:?} ({})", k, broken, sc.describe());
                same!(orchard::verif_hooks::public_inputs(&a.to_instance(*b.flags(), *b.anchor())), p.inputs(), "public inputs of action {}", k);
                ctx.event("builder witnesses read");
                ctx.distinct("witness", format!("{} {} {}", w.v_old, w.v_new, w.pos).as_bytes());
                if rng.gen_range(0..8) == 0 {
                    compare(ctx, "made by the builder", &w, &p, c)?;
                }
            }
            Ok(())
        });
    }
    ctx.run_on(4, "proven", ctx.n(4, 60), |i, rng| {
        let mut c = case(rng, &any_values);
        while i % 4 == 0 && c.p.rk.to_bytes() != [0; 32] {
            c = case(rng, &any_values);
        }
        if c.p.rk.to_bytes() == [0; 32] {
            ctx.event("true statements with an identity rk proven");
        }
        let inst = instance(&c.p);
        let proof = Proof::create(pk(), &[c.circuit.clone()], &[inst.clone()], &mut *rng)
            .map_err(|e| format!("a true statement could not be proven: {:?} {:?}", e, c.w))?;
        ensure!(proof.verify(vk(), &[inst]).is_ok(), "the proof of a true statement does not verify: {:?}", c.w);
        ctx.event("true statements proven");
        Ok(())
    });
}
