//! C24: histories of many transactions. Wallets only see the chain, the chain only sees bundles,
//! and a bookkeeping model knows what was asked for.

use std::collections::{BTreeMap, BTreeSet};

use ff::PrimeField;
use incrementalmerkletree::{frontier::CommitmentTree, witness::IncrementalWitness};
use orchard::{
    builder::{Builder, BundleMetadata, BundleType},
    bundle::BatchValidator,
    keys::{FullViewingKey, IncomingViewingKey, OutgoingViewingKey, PreparedIncomingViewingKey},
    note::ExtractedNoteCommitment,
    note_encryption::{CompactAction, OrchardDomain},
    tree::{MerkleHashOrchard, MerklePath},
    value::NoteValue,
    Note,
};
use rand::{seq::SliceRandom, Rng as _};
use zcash_note_encryption::{batch, EphemeralKeyBytes};

use super::encryption::{plain_bundle, Plain};
use super::proofs::{self, pk, vk, Auth, Proven};
use crate::model::{self, Base, MAction, MScope, SparseTree};
use crate::mon::{sut, Ctx, Rng, Verdict};
use crate::world::*;
use crate::{ensure, same};

type Witness = IncrementalWitness<MerkleHashOrchard, 32>;

/// A note a wallet has found by scanning.
#[derive(Clone)]
struct Held {
    wallet: usize,
    #[allow(dead_code)]
    scope: MScope,
    note: Note,
    pos: u32,
    height: usize,
    nf: [u8; 32],
    spent: bool,
    witness: Witness,
}

/// A transaction as the network sees it, with the bookkeeper's knowledge of it.
#[derive(Clone)]
struct Tx {
    actions: Vec<MAction>,
    balance: i64,
    anchor: Base,
    auth: Option<Auth>,
    /// Nullifiers of the notes it was asked to spend.
    spends: Vec<[u8; 32]>,
    /// What it was asked to pay: action index, wallet, scope, value, memo.
    pays: Vec<(usize, usize, MScope, u64, Option<[u8; 512]>)>,
    /// Value paid to nobody in this world.
    outside: u64,
    sent_with: Vec<(usize, [u8; 32])>,
    asked: String,
}

#[derive(Clone)]
struct Chain {
    tree: CommitmentTree<MerkleHashOrchard, 32>,
    model: SparseTree,
    next: u32,
    snapshots: Vec<SparseTree>,
    nullifiers: BTreeSet<[u8; 32]>,
    pool: i128,
    outside: u128,
    held: Vec<Held>,
    /// The bookkeeper's balances.
    books: Vec<u128>,
    all_rho: BTreeSet<[u8; 32]>,
    notes: BTreeMap<[u8; 32], u64>,
}

fn hash(b: &Base) -> MerkleHashOrchard {
    sut(MerkleHashOrchard::from_bytes(&b.to_repr()), "tree hash")
}

impl Chain {
    fn new(wallets: usize) -> Chain {
        Chain {
            tree: CommitmentTree::empty(),
            model: SparseTree::new(&[]),
            next: 0,
            snapshots: vec![SparseTree::new(&[])],
            nullifiers: BTreeSet::new(),
            pool: 0,
            outside: 0,
            held: vec![],
            books: vec![0; wallets],
            all_rho: BTreeSet::new(),
            notes: BTreeMap::new(),
        }
    }

    /// Consensus' view of whether a transaction may be mined now.
    fn admissible(&self, tx: &Tx, also: &BTreeSet<[u8; 32]>) -> bool {
        tx.actions.iter().all(|a| !self.nullifiers.contains(&a.nf) && !also.contains(&a.nf))
            && self.pool - tx.balance as i128 >= 0
    }

    /// Mines a block and lets every wallet scan it.
    fn mine(&mut self, ctx: &Ctx, wallets: &[Wallet], txs: &[Tx]) -> Verdict {
        let height = self.snapshots.len();
        for tx in txs {
            for a in &tx.actions {
                ensure!(self.nullifiers.insert(a.nf), "one nullifier mined twice: {}", tx.asked);
            }
            self.pool -= tx.balance as i128;
            ensure!(self.pool >= 0, "more value left the pool than ever entered it: {}", tx.asked);
            // Spent notes, found by their nullifiers alone.
            let mut found: Vec<[u8; 32]> = vec![];
            for h in self.held.iter_mut() {
                if tx.actions.iter().any(|a| a.nf == h.nf) {
                    ensure!(!h.spent, "a note was spent twice: {}", tx.asked);
                    h.spent = true;
                    found.push(h.nf);
                    self.books[h.wallet] -= h.note.value().inner() as u128;
                }
            }
            let mut want = tx.spends.clone();
            want.sort();
            found.sort();
            same!(found, want, "notes seen to be spent by {}", tx.asked);
            ctx.events("spends detected", found.len() as u64);
            // Received notes.
            let b = plain_bundle(&tx.actions, tx.balance);
            let keys: Vec<(usize, MScope)> =
                (0..wallets.len()).flat_map(|w| model::SCOPES.iter().map(move |s| (w, *s))).collect();
            let ivks: Vec<IncomingViewingKey> = keys.iter().map(|(w, s)| wallets[*w].ivk(*s)).collect();
            let mut got = vec![];
            for (i, k, note, addr, memo) in b.decrypt_outputs_with_keys(&ivks) {
                let at = ivks.iter().position(|x| *x == k).ok_or("decryption credited an unknown key")?;
                same!(addr.to_raw_address_bytes(), note.recipient().to_raw_address_bytes(), "address of a found note");
                got.push((i, keys[at].0, keys[at].1, note, memo));
            }
            let compact: Vec<_> = tx
                .actions
                .iter()
                .map(|a| {
                    let c = CompactAction::from_parts(
                        sut(orchard::note::Nullifier::from_bytes(&a.nf), "nf"),
                        sut(ExtractedNoteCommitment::from_bytes(&a.cmx), "cmx"),
                        EphemeralKeyBytes(a.epk),
                        a.enc[..52].try_into().unwrap(),
                    );
                    (OrchardDomain::for_compact_action(&c), c)
                })
                .collect();
            let prepared: Vec<_> = ivks.iter().map(PreparedIncomingViewingKey::new).collect();
            let light = batch::try_compact_note_decryption(&prepared, &compact);
            for (i, l) in light.iter().enumerate() {
                let full = got.iter().find(|g| g.0 == i).map(|g| (mnote(&g.3), (g.1, g.2)));
                let l = l.as_ref().map(|((n, _), k)| (mnote(n), keys[*k]));
                same!(l, full, "light-client scan of action {} of {}", i, tx.asked);
            }
            let mut want: Vec<_> = tx.pays.iter().map(|p| (p.0, p.1, p.2, p.3, memo_or_default(&p.4))).collect();
            let mut have: Vec<_> = got.iter().map(|g| (g.0, g.1, g.2, g.3.value().inner(), g.4)).collect();
            want.sort_by_key(|x| x.0);
            have.sort_by_key(|x| x.0);
            ensure!(
                want == have,
                "wallets found {:?}, were paid {:?} by {}",
                have.iter().map(|x| (x.0, x.1, x.2, x.3)).collect::<Vec<_>>(),
                want.iter().map(|x| (x.0, x.1, x.2, x.3)).collect::<Vec<_>>(),
                tx.asked
            );
            ctx.events("notes found", have.len() as u64);
            for (i, ovk) in &tx.sent_with {
                let r = b.recover_output_with_ovk(*i, &OutgoingViewingKey::from(*ovk));
                let r = r.ok_or_else(|| format!("the sender cannot recover output {} of {}", i, tx.asked))?;
                same!(ExtractedNoteCommitment::from(r.0.commitment()).to_bytes(), tx.actions[*i].cmx, "recovered commitment");
                ctx.event("payments recovered by the sender");
            }
            self.outside += tx.outside as u128;
            for p in &tx.pays {
                self.books[p.1] += p.3 as u128;
            }
            // The tree grows by one leaf per action, in order.
            for (i, a) in tx.actions.iter().enumerate() {
                let leaf = model::base(&a.cmx).unwrap();
                let node = MerkleHashOrchard::from_cmx(&sut(ExtractedNoteCommitment::from_bytes(&a.cmx), "cmx"));
                ensure!(self.tree.append(node).is_ok(), "the tree refused a leaf");
                for h in self.held.iter_mut().filter(|h| !h.spent) {
                    ensure!(h.witness.append(node).is_ok(), "a witness refused a leaf");
                }
                self.model.set(self.next, leaf);
                if let Some((_, w, s, note, _)) = got.iter().find(|g| g.0 == i) {
                    same!(note.rho().to_bytes(), a.nf, "rho of a found note");
                    ensure!(self.all_rho.insert(note.rho().to_bytes()), "two notes share a rho: {}", tx.asked);
                    // A note means something different under the key of everybody else.
                    let other = &wallets[(*w + 1) % wallets.len()];
                    same!(
                        note.nullifier(&other.fvk).to_bytes(),
                        mnote(note).nullifier(&other.keys.fvk.nk).unwrap().to_repr(),
                        "nullifier of a found note under a foreign key"
                    );
                    let nf = note.nullifier(&wallets[*w].fvk).to_bytes();
                    same!(nf, mnote(note).nullifier(&wallets[*w].keys.fvk.nk).unwrap().to_repr(), "nullifier of a found note");
                    ensure!(self.held.iter().all(|h| h.nf != nf), "two notes share a nullifier: {}", tx.asked);
                    ensure!(!self.nullifiers.contains(&nf), "a new note is already spent: {}", tx.asked);
                    self.notes.insert(a.cmx, note.value().inner());
                    self.held.push(Held {
                        wallet: *w,
                        scope: *s,
                        note: *note,
                        pos: self.next,
                        height,
                        nf,
                        spent: false,
                        witness: IncrementalWitness::from_tree(self.tree.clone()),
                    });
                }
                self.next += 1;
            }
            ctx.event("transactions mined");
            ctx.distinct("transaction", &tx.actions.iter().flat_map(|a| a.cmx).collect::<Vec<u8>>());
        }
        self.snapshots.push(self.model.clone());
        self.audit(ctx, wallets)
    }

    fn audit(&self, ctx: &Ctx, wallets: &[Wallet]) -> Verdict {
        let root = self.model.root();
        same!(self.tree.root().to_bytes(), root.to_repr(), "root of the tree after block {}", self.snapshots.len() - 1);
        let mut sums = vec![0u128; wallets.len()];
        for h in self.held.iter().filter(|h| !h.spent) {
            sums[h.wallet] += h.note.value().inner() as u128;
            let p: MerklePath = sut::<incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>>(h.witness.path(), "path").into();
            let cmx = ExtractedNoteCommitment::from(h.note.commitment());
            same!(p.root(cmx).to_bytes(), root.to_repr(), "anchor by the kept witness of the note at {}", h.pos);
            ctx.event("witnesses checked");
        }
        same!(sums, self.books, "wallet balances");
        let total: u128 = sums.iter().sum::<u128>() + self.outside;
        same!(total as i128, self.pool, "value of all notes against the pool");
        ctx.event("audits");
        Ok(())
    }
}

struct Maker<'a> {
    wallets: &'a [Wallet],
    proven: bool,
}

impl<'a> Maker<'a> {
    /// Builds a transaction spending `inputs`, against the state after some block.
    fn make(&self, ctx: &Ctx, rng: &mut Rng, chain: &Chain, inputs: &[Held], coinbase: bool) -> Result<Tx, String> {
        let tip = chain.snapshots.len() - 1;
        let oldest = inputs.iter().map(|h| h.height).max().unwrap_or(0);
        let at = if rng.gen() { tip } else { rng.gen_range(oldest..=tip) };
        let snap = &chain.snapshots[at];
        let anchor = snap.root();
        let ty = if coinbase { BundleType::Coinbase } else { BundleType::DEFAULT };
        let mut b = Builder::new(ty, anchor_of(&anchor));
        let total: u128 = inputs.iter().map(|h| h.note.value().inner() as u128).sum();
        for h in inputs {
            let path: MerklePath = if at == tip && rng.gen() {
                sut::<incrementalmerkletree::MerklePath<MerkleHashOrchard, 32>>(h.witness.path(), "path of a kept witness").into()
            } else {
                path_of(h.pos, &snap.path(h.pos))
            };
            b.add_spend(self.wallets[h.wallet].fvk.clone(), h.note, path)
                .map_err(|e| format!("a spend of a found note was refused: {:?}", e))?;
        }
        // Outputs: pay wallets and outsiders; sometimes unshield, sometimes shield.
        let extra: u128 = if coinbase || rng.gen_range(0..3) == 0 { rng.gen_range(0..1u128 << 40) } else { 0 };
        let mut left = total + extra;
        let n = if coinbase || inputs.is_empty() { rng.gen_range(1..4) } else { rng.gen_range(0..4) };
        let mut asks = vec![];
        for k in 0..n {
            let v = if k + 1 == n && rng.gen() { left } else { rng.gen_range(0..=left) };
            let v = v.min(u64::MAX as u128 / 4) as u64;
            left -= v as u128;
            let memo = rand_memo(rng);
            let ovk = if coinbase || rng.gen_range(0..3) == 0 { None } else { Some(self.wallets[rng.gen_range(0..self.wallets.len())].movk(rand_scope(rng))) };
            let (to, addr) = if rng.gen_range(0..6) == 0 {
                (None, Wallet::random(rng).address(MScope::External, rand_index(rng)))
            } else {
                let w = rng.gen_range(0..self.wallets.len());
                let s = rand_scope(rng);
                (Some((w, s)), self.wallets[w].address(s, rand_index(rng)))
            };
            b.add_output(ovk.map(OutgoingViewingKey::from), addr, NoteValue::from_raw(v), memo)
                .map_err(|e| format!("an output was refused: {:?}", e))?;
            asks.push((to, v, memo, ovk));
        }
        let balance = total as i128 - asks.iter().map(|a| a.1 as i128).sum::<i128>();
        let asked = format!(
            "{:?} spending {:?} paying {:?} at block {}",
            ty,
            inputs.iter().map(|h| (h.wallet, h.pos, h.note.value().inner())).collect::<Vec<_>>(),
            asks.iter().map(|a| (a.0, a.1)).collect::<Vec<_>>(),
            at
        );
        let built: Option<(Unauth, BundleMetadata)> = b.build(&mut *rng).map_err(|e| format!("{:?} building {}", e, asked))?;
        let (b, meta) = sut(built, "a bundle");
        let actions: Vec<MAction> = b.actions().iter().map(|a| maction(a)).collect();
        same!(*b.value_balance() as i128, balance, "balance of {}", asked);
        let mut pays = vec![];
        let mut outside = 0;
        let mut sent_with = vec![];
        for (k, (to, v, memo, ovk)) in asks.iter().enumerate() {
            let i: usize = sut(meta.output_action_index(k), "output index");
            match to {
                Some((w, s)) => pays.push((i, *w, *s, *v, *memo)),
                None => outside += v,
            }
            if let Some(o) = ovk {
                sent_with.push((i, *o));
            }
        }
        let auth = if self.proven {
            let e = meffects(&b);
            let p: Proven = b.create_proof(pk(), &mut *rng).map_err(|e| format!("proving {}: {:?}", asked, e))?;
            let mut owners: Vec<usize> = inputs.iter().map(|h| h.wallet).collect();
            owners.sort();
            owners.dedup();
            owners.shuffle(rng);
            let keys: Vec<_> = owners.iter().map(|w| self.wallets[*w].ask.clone()).collect();
            let a = p
                .apply_signatures(&mut *rng, proofs::sighash_of(&e), &keys)
                .map_err(|e| format!("signing {}: {:?}", asked, e))?;
            ctx.event("transactions proven");
            Some(a)
        } else {
            None
        };
        ctx.sample("transaction", || asked.clone());
        Ok(Tx { actions, balance: balance as i64, anchor, auth, spends: inputs.iter().map(|h| h.nf).collect(), pays, outside, sent_with, asked })
    }
}

fn validate(ctx: &Ctx, rng: &mut Rng, chain: &Chain, txs: &[Tx]) -> Verdict {
    let mut v = BatchValidator::new();
    let mut any = false;
    for t in txs {
        ensure!(chain.snapshots.iter().any(|s| s.root() == t.anchor), "anchor of {} was never a root", t.asked);
        if let Some(a) = &t.auth {
            let sh = proofs::crate_sighash(a);
            ensure!(a.verify_proof(vk()).is_ok() && crate_sigs_ok(a, &sh), "a transaction of the history does not verify: {}", t.asked);
            v.add_bundle(a, sh);
            any = true;
        }
    }
    if any {
        ensure!(v.validate(vk(), &mut *rng), "a block of valid transactions fails batch validation");
        ctx.event("blocks validated");
    }
    Ok(())
}

fn history(ctx: &Ctx, rng: &mut Rng, blocks: usize, proven: bool) -> Verdict {
    let mut wallets: Vec<Wallet> = (0..rng.gen_range(2..=3)).map(|_| Wallet::random(rng)).collect();
    if rng.gen() {
        // A wallet restored from its viewing key's encoding.
        let b = wallets[0].fvk.to_bytes();
        wallets[0].fvk = sut(FullViewingKey::from_bytes(&b), "an exported viewing key");
    }
    let maker = Maker { wallets: &wallets, proven };
    let mut chain = Chain::new(wallets.len());
    let mut orphaned: Vec<Tx> = vec![];
    for height in 1..=blocks {
        let mut block: Vec<Tx> = vec![];
        let mut in_block: BTreeSet<[u8; 32]> = BTreeSet::new();
        let mut reserved: BTreeSet<[u8; 32]> = BTreeSet::new();
        let before = chain.clone();
        let mut offer = |ctx: &Ctx, t: Tx, block: &mut Vec<Tx>| -> Verdict {
            let ok = before.admissible(&t, &in_block);
            // The model's opinion: some input already spent, or the pool would run dry.
            let spent_before = t.spends.iter().any(|n| before.nullifiers.contains(n) || in_block.contains(n));
            if spent_before {
                ensure!(!ok, "a double spend is admissible: {}", t.asked);
                ctx.event("double spends caught");
                return Ok(());
            }
            let dry = before.pool - (t.balance as i128) < 0;
            ensure!(ok || dry, "an honest transaction collides with an unrelated nullifier: {}", t.asked);
            if ok {
                in_block.extend(t.actions.iter().map(|a| a.nf));
                block.push(t);
            }
            Ok(())
        };
        offer(ctx, maker.make(ctx, rng, &chain, &[], true)?, &mut block)?;
        for t in orphaned.drain(..) {
            // Transactions of a chain that lost out, mined again elsewhere. Their anchors must
            // exist on this chain.
            if chain.snapshots.iter().any(|s| s.root() == t.anchor) && t.balance <= 0 {
                reserved.extend(t.spends.iter());
                ctx.event("orphaned transactions mined again");
                offer(ctx, t, &mut block)?;
            }
        }
        for _ in 0..rng.gen_range(0..if proven { 2 } else { 4 }) {
            let mut can: Vec<Held> = chain.held.iter().filter(|h| !h.spent && !reserved.contains(&h.nf)).cloned().collect();
            can.shuffle(rng);
            can.truncate(rng.gen_range(0..4));
            reserved.extend(can.iter().map(|h| h.nf));
            let t = maker.make(ctx, rng, &chain, &can, false)?;
            let again = t.clone();
            offer(ctx, t, &mut block)?;
            if !can.is_empty() && rng.gen_range(0..3) == 0 {
                // The same notes once more: in another transaction, or the very same one.
                if rng.gen() && !proven {
                    can.truncate(1);
                    let t = maker.make(ctx, rng, &chain, &can, false)?;
                    offer(ctx, t, &mut block)?;
                } else {
                    offer(ctx, again, &mut block)?;
                }
            }
        }
        // A note spent long ago, by a wallet that has forgotten.
        if let Some(old) = before.held.iter().filter(|h| h.spent).cloned().collect::<Vec<_>>().choose(rng) {
            if !proven && rng.gen() {
                let t = maker.make(ctx, rng, &chain, &[Held { witness: stale(old, &chain), ..old.clone() }], false)?;
                offer(ctx, t, &mut block)?;
            }
        }
        drop(offer);
        // Only what keeps the pool solvent in this order is mined.
        let mut pool = chain.pool;
        block.retain(|t| {
            let ok = pool - t.balance as i128 >= 0;
            if ok {
                pool -= t.balance as i128;
            }
            ok
        });
        validate(ctx, rng, &chain, &block)?;
        let keep = chain.clone();
        chain.mine(ctx, &wallets, &block)?;
        if height > 1 && rng.gen_range(0..4) == 0 {
            // Another block wins.
            chain = keep;
            ctx.event("reorganizations");
            orphaned = block;
            chain.mine(ctx, &wallets, &[])?;
        }
    }
    ctx.event("histories");
    Ok(())
}

/// A witness for a note whose own is no longer kept: from the current tree.
fn stale(h: &Held, chain: &Chain) -> Witness {
    // Rebuilt by replaying the leaves.
    let mut t = CommitmentTree::empty();
    let mut w: Option<Witness> = None;
    for p in 0..chain.next {
        let x = hash(&chain.model.node(0, p as u64));
        if let Some(w) = w.as_mut() {
            w.append(x).unwrap();
        } else {
            t.append(x).unwrap();
            if p == h.pos {
                w = Some(IncrementalWitness::from_tree(t.clone()));
            }
        }
    }
    w.unwrap()
}

pub fn c24(ctx: &Ctx) {
    ctx.rule(
        "histories of blocks of transactions among 2-3 wallets, with coinbase, shielding and \
         unshielding, double-spend attempts, replays, reorganizations and anchors at earlier blocks; \
         wallets learn of notes and spends only by scanning (fully and as light clients), keep their \
         own witnesses, and are audited after each block against books kept from the requests: \
         balances, pool value, tree root, witnesses, uniqueness of nullifiers and rho. Some histories \
         are proven, signed and batch-validated throughout. Distinct by transaction.",
    );
    ctx.require("transactions mined", 100);
    ctx.require("spends detected", 40);
    ctx.require("notes found", 80);
    ctx.require("double spends caught", 5);
    ctx.require("reorganizations", 3);
    ctx.require("witnesses checked", 200);
    ctx.require("transactions proven", 3);
    ctx.require("blocks validated", 2);
    ctx.run("histories", ctx.n(48, 600), |_, rng| {
        let blocks = rng.gen_range(4..=9);
        history(ctx, rng, blocks, false)
    });
    ctx.run_on(2, "proven histories", ctx.n(2, 24), |i, rng| history(ctx, rng, 3 + (i as usize % 3), true));
    let _: Option<Plain> = None;
}
