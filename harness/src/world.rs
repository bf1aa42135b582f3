//! Workload generation: wallets, notes, trees, build requests; and conversions between the
//! crate's types and the model's.

use ff::{Field, PrimeField};
use nonempty::NonEmpty;
use orchard::{
    builder::{bundle, Builder, BundleMetadata, BundleType, OutputInfo, SpendInfo, UnauthorizedBundle},
    bundle::{Authorization, Authorized, Flags},
    keys::{Diversifier, FullViewingKey, IncomingViewingKey, OutgoingViewingKey, Scope, SpendAuthorizingKey, SpendingKey},
    note::{ExtractedNoteCommitment, Note, RandomSeed, Rho},
    primitives::redpallas::{self, Binding, SpendAuth},
    tree::{MerkleHashOrchard, MerklePath},
    value::NoteValue,
    Action, Address, Anchor, Bundle,
};
use rand::{Rng as _, RngCore};

use crate::model::{self, Base, MAction, MDecrypted, MEffects, MKeys, MNote, MScope, Scalar, SparseTree};
use crate::mon::{sut, Rng, Verdict};
use crate::{ensure, same};

pub fn scope(s: MScope) -> Scope {
    match s {
        MScope::External => Scope::External,
        MScope::Internal => Scope::Internal,
    }
}

pub fn bytes<const N: usize>(rng: &mut impl RngCore) -> [u8; N] {
    let mut b = [0; N];
    rng.fill_bytes(&mut b);
    b
}

pub fn pick<'a, T>(rng: &mut Rng, xs: &'a [T]) -> &'a T {
    &xs[rng.gen_range(0..xs.len())]
}

pub fn rand_base(rng: &mut Rng) -> Base {
    Base::random(rng)
}

pub fn rand_scalar(rng: &mut Rng) -> Scalar {
    Scalar::random(rng)
}

/// A field element, often at or near an edge of its range.
pub fn edge_base(rng: &mut Rng) -> Base {
    match rng.gen_range(0..8) {
        0 => Base::ZERO,
        1 => Base::ONE,
        2 => -Base::ONE,
        3 => -Base::from(2),
        4 => Base::from(2),
        5 => Base::from(rng.next_u64()),
        _ => rand_base(rng),
    }
}

pub fn edge_scalar(rng: &mut Rng) -> Scalar {
    match rng.gen_range(0..8) {
        0 => Scalar::ZERO,
        1 => Scalar::ONE,
        2 => -Scalar::ONE,
        3 => Scalar::from(rng.next_u64()),
        _ => rand_scalar(rng),
    }
}

pub fn edge_u64(rng: &mut Rng) -> u64 {
    match rng.gen_range(0..12) {
        0 => 0,
        1 => 1,
        2 => u64::MAX,
        3 => u64::MAX - 1,
        4 => 1 << 63,
        5 => (1 << 63) - 1,
        6 => (1 << 63) + 1,
        7 => 1 << rng.gen_range(0..64),
        8 => u64::MAX >> rng.gen_range(0..64),
        9 => 21_000_000 * 100_000_000,
        10 => rng.gen_range(0..1000),
        _ => rng.next_u64(),
    }
}

pub fn edge_u32(rng: &mut Rng) -> u32 {
    match rng.gen_range(0..8) {
        0 => 0,
        1 => 1,
        2 => u32::MAX,
        3 => u32::MAX - 1,
        4 => 1 << rng.gen_range(0..32),
        5 => u32::MAX >> rng.gen_range(0..32),
        _ => rng.next_u32(),
    }
}

pub fn rand_memo(rng: &mut Rng) -> Option<[u8; 512]> {
    let mut m = [0; 512];
    match rng.gen_range(0..10) {
        0 => return None,
        1 => {}
        2 => m[0] = 0xf6,
        3 => m = [0xff; 512],
        // A first byte of every meaning, in front of something or nothing.
        4 | 5 => {
            let first = [0, 1, b'a', 0xf4, 0xf5, 0xf6, 0xf7, 0xfe, 0xff];
            if rng.gen() {
                m = bytes(rng);
            }
            m[0] = *pick(rng, &first);
            if rng.gen() {
                m[511] = rng.gen();
            }
        }
        // Some length, then zeros; or the other way around.
        6 => {
            let n = rng.gen_range(0..512);
            m = bytes(rng);
            m[n..].fill(0);
        }
        7 => {
            let n = rng.gen_range(1..512);
            m = bytes(rng);
            m[..n].fill(*pick(rng, &[0, 0xf6, 0xff]));
        }
        8 => m = [rng.gen(); 512],
        _ => m = bytes(rng),
    }
    Some(m)
}

pub fn memo_or_default(m: &Option<[u8; 512]>) -> [u8; 512] {
    m.unwrap_or_else(|| {
        let mut m = [0; 512];
        m[0] = 0xf6;
        m
    })
}

/// An index that stands for an address with a diversifier of a special form instead.
const SPECIAL: [u8; 11] = [0x5a; 11];

pub fn rand_index(rng: &mut Rng) -> [u8; 11] {
    match rng.gen_range(0..9) {
        0 => [0; 11],
        1 => [0xff; 11],
        // Around the widths of integers.
        6 => {
            let n = *pick(rng, &[1usize, 2, 4, 8, 10]);
            let mut i = [0; 11];
            i[..n].fill(0xff);
            if rng.gen() {
                i = [0; 11];
                i[n] = 1;
            }
            i
        }
        // See `Wallet::address`.
        7 => {
            let mut i = SPECIAL;
            i[10] = rng.gen_range(0..8);
            i
        }
        2 => {
            let mut i = [0; 11];
            i[0] = rng.gen();
            i
        }
        3 => {
            let mut i = [0; 11];
            i[rng.gen_range(0..11)] = 1 << rng.gen_range(0..8);
            i
        }
        _ => bytes(rng),
    }
}

#[derive(Clone, Debug)]
pub struct Wallet {
    pub keys: MKeys,
    pub sk: SpendingKey,
    pub fvk: FullViewingKey,
    pub ask: SpendAuthorizingKey,
}

impl Wallet {
    pub fn random(rng: &mut Rng) -> Wallet {
        loop {
            let b = bytes(rng);
            if let Some(keys) = MKeys::from_sk(b) {
                let sk = sut(SpendingKey::from_bytes(b), "valid spending key bytes");
                return Wallet {
                    keys,
                    sk,
                    fvk: FullViewingKey::from(&sk),
                    ask: SpendAuthorizingKey::from(&sk),
                };
            }
        }
    }
    pub fn address(&self, s: MScope, i: [u8; 11]) -> Address {
        if i[..10] == SPECIAL[..10] {
            let mut d = [0; 11];
            match i[10] {
                0 => {}
                1 => d = [0xff; 11],
                2 => d[0] = 1,
                3 => d[10] = 1,
                4 => d[10] = 0x80,
                5 => d[0] = 0x80,
                6 => d[..10].fill(0xff),
                _ => d[1..].fill(0xff),
            }
            return self.fvk.address(Diversifier::from_bytes(d), scope(s));
        }
        self.fvk.address_at(i, scope(s))
    }
    pub fn ivk(&self, s: MScope) -> IncomingViewingKey {
        self.fvk.to_ivk(scope(s))
    }
    pub fn mivk(&self, s: MScope) -> Base {
        self.keys.fvk.scoped(s).ivk().unwrap()
    }
    pub fn movk(&self, s: MScope) -> [u8; 32] {
        self.keys.fvk.scoped(s).dk_ovk().1
    }
}

pub fn rand_scope(rng: &mut Rng) -> MScope {
    if rng.gen_range(0..3) == 0 {
        MScope::Internal
    } else {
        MScope::External
    }
}

pub fn mnote(n: &Note) -> MNote {
    MNote {
        address: n.recipient().to_raw_address_bytes(),
        value: n.value().inner(),
        rho: model::base(&n.rho().to_bytes()).unwrap(),
        rseed: *n.rseed().as_bytes(),
    }
}

pub fn rho(b: &Base) -> Rho {
    sut(Rho::from_bytes(&b.to_repr()), "valid rho")
}

pub fn make_note(recipient: Address, value: u64, rho_v: &Base, rseed: [u8; 32]) -> Option<Note> {
    let r = rho(rho_v);
    let rs = Option::<RandomSeed>::from(RandomSeed::from_bytes(rseed, &r))?;
    Option::from(Note::from_parts(recipient, NoteValue::from_raw(value), r, rs))
}

pub fn rand_note(rng: &mut Rng, recipient: Address, value: u64) -> Note {
    loop {
        let rho_v = rand_base(rng);
        let rseed = match rng.gen_range(0..12) {
            0 => [0; 32],
            1 => [0xff; 32],
            _ => bytes(rng),
        };
        if let Some(n) = make_note(recipient, value, &rho_v, rseed) {
            return n;
        }
    }
}

/// The path, through one or the other of the two ways consumers make one.
pub fn path_of(pos: u32, path: &[Base; 32]) -> MerklePath {
    let nodes = path.map(|b| sut(MerkleHashOrchard::from_bytes(&b.to_repr()), "valid tree hash"));
    // Chosen by the data, so that a replay takes the same way.
    let mut h = pos.to_le_bytes().to_vec();
    for b in path {
        h.extend_from_slice(&b.to_repr());
    }
    if crate::mon::hash64(&h) & 1 == 0 {
        MerklePath::from_parts(pos, nodes)
    } else {
        let p: incrementalmerkletree::MerklePath<MerkleHashOrchard, 32> = sut(
            incrementalmerkletree::MerklePath::from_parts(nodes.to_vec(), incrementalmerkletree::Position::from(pos as u64)).ok(),
            "a path of the tree's depth",
        );
        p.into()
    }
}

pub fn anchor_of(b: &Base) -> Anchor {
    sut(Anchor::from_bytes(b.to_repr()), "valid anchor")
}

pub fn maction<T>(a: &Action<T>) -> MAction {
    let e = a.encrypted_note();
    MAction {
        nf: a.nullifier().to_bytes(),
        rk: a.rk().into(),
        cmx: a.cmx().to_bytes(),
        cv: a.cv_net().to_bytes(),
        epk: e.epk_bytes,
        enc: e.enc_ciphertext,
        out: e.out_ciphertext,
    }
}

pub fn meffects<A: Authorization, V: Copy + Into<i64>>(b: &Bundle<A, V>) -> MEffects {
    MEffects {
        actions: b.actions().iter().map(|a| maction(a)).collect(),
        flags: b.flags().to_byte(),
        balance: (*b.value_balance()).into(),
        anchor: b.anchor().to_bytes(),
    }
}

pub fn flags_of(spends: bool, outputs: bool) -> Flags {
    sut(Flags::from_byte(spends as u8 | (outputs as u8) << 1), "valid flags byte")
}

/// What the crate decrypted, in model terms.
pub fn mdec(n: &Note, a: &Address, memo: Option<[u8; 512]>) -> Result<MDecrypted, String> {
    if a.to_raw_address_bytes() != n.recipient().to_raw_address_bytes() {
        return Err("decryption returned an address that is not the note's recipient".into());
    }
    Ok(MDecrypted { note: mnote(n), memo })
}

#[derive(Clone, Debug)]
pub struct SpendReq {
    pub wallet: usize,
    pub scope: MScope,
    pub note: Note,
    pub pos: u32,
    /// A path to something other than the anchor (only legitimate for zero-valued notes).
    pub foreign_path: Option<[Base; 32]>,
}

#[derive(Clone, Debug)]
pub struct OutReq {
    pub ovk: Option<[u8; 32]>,
    pub owner: Option<(usize, MScope)>,
    pub recipient: Address,
    pub value: u64,
    pub memo: Option<[u8; 512]>,
}

/// A complete request to build one bundle.
#[derive(Clone, Debug)]
pub struct Scenario {
    pub bundle_type: BundleType,
    pub wallets: Vec<Wallet>,
    pub spends: Vec<SpendReq>,
    pub outs: Vec<OutReq>,
    pub tree: SparseTree,
    pub anchor: Base,
}

pub type Unauth = UnauthorizedBundle<i64>;

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Api {
    Builder,
    Function,
}

impl Scenario {
    pub fn describe(&self) -> String {
        format!(
            "{:?} spends={:?} outputs={:?}",
            self.bundle_type,
            self.spends
                .iter()
                .map(|s| format!("w{}/{:?}/v={}/pos={}", s.wallet, s.scope, s.note.value().inner(), s.pos))
                .collect::<Vec<_>>(),
            self.outs
                .iter()
                .map(|o| format!(
                    "{:?}/v={}/ovk={}/memo={}",
                    o.owner,
                    o.value,
                    o.ovk.is_some(),
                    o.memo.is_some()
                ))
                .collect::<Vec<_>>()
        )
    }

    /// A coarse signature of the situation, for counting distinct cases.
    pub fn shape(&self) -> Vec<u8> {
        let mut v = format!("{:?}", self.bundle_type).into_bytes();
        for s in &self.spends {
            v.push(s.wallet as u8);
            v.push((s.scope == MScope::Internal) as u8);
            v.push(64 - s.note.value().inner().leading_zeros() as u8);
            v.push(s.pos.count_ones() as u8);
        }
        v.push(0xff);
        for o in &self.outs {
            v.push(o.owner.map(|o| o.0 as u8 * 2 + (o.1 == MScope::Internal) as u8).unwrap_or(99));
            v.push(64 - o.value.leading_zeros() as u8);
            v.push(o.ovk.is_some() as u8 + 2 * o.memo.is_some() as u8);
        }
        v
    }

    pub fn spend_sum(&self) -> u128 {
        self.spends.iter().map(|s| s.note.value().inner() as u128).sum()
    }
    pub fn out_sum(&self) -> u128 {
        self.outs.iter().map(|o| o.value as u128).sum()
    }
    pub fn balance(&self) -> i128 {
        self.spend_sum() as i128 - self.out_sum() as i128
    }

    /// Every partial sum that any pairing order could produce stays in range.
    pub fn sums_safe(&self) -> bool {
        self.spend_sum() <= u64::MAX as u128 && self.out_sum() <= u64::MAX as u128
    }
    pub fn balance_fits(&self) -> bool {
        i64::try_from(self.balance()).is_ok()
    }

    pub fn expected_actions(&self) -> usize {
        let m = self.spends.len().max(self.outs.len());
        match self.bundle_type {
            BundleType::Coinbase => m,
            BundleType::Transactional { bundle_required, .. } => {
                if bundle_required || m > 0 {
                    m.max(2)
                } else {
                    0
                }
            }
        }
    }

    pub fn merkle_path(&self, s: &SpendReq) -> MerklePath {
        let p = s.foreign_path.unwrap_or_else(|| self.tree.path(s.pos));
        path_of(s.pos, &p)
    }

    pub fn builder(&self) -> Result<Builder, String> {
        let mut b = Builder::new(self.bundle_type, anchor_of(&self.anchor));
        for (i, s) in self.spends.iter().enumerate() {
            b.add_spend(self.wallets[s.wallet].fvk.clone(), s.note, self.merkle_path(s))
                .map_err(|e| format!("legitimate spend {} refused: {:?}", i, e))?;
        }
        for (i, o) in self.outs.iter().enumerate() {
            b.add_output(
                o.ovk.map(OutgoingViewingKey::from),
                o.recipient,
                NoteValue::from_raw(o.value),
                o.memo,
            )
            .map_err(|e| format!("legitimate output {} refused: {:?}", i, e))?;
        }
        Ok(b)
    }

    pub fn spend_infos(&self) -> Result<Vec<SpendInfo>, String> {
        self.spends
            .iter()
            .enumerate()
            .map(|(i, s)| {
                SpendInfo::new(self.wallets[s.wallet].fvk.clone(), s.note, self.merkle_path(s))
                    .ok_or_else(|| format!("SpendInfo::new refused spend {} of an owned note", i))
            })
            .collect()
    }

    pub fn output_infos(&self) -> Vec<OutputInfo> {
        self.outs
            .iter()
            .map(|o| {
                OutputInfo::new(
                    o.ovk.map(OutgoingViewingKey::from),
                    o.recipient,
                    NoteValue::from_raw(o.value),
                    o.memo,
                )
            })
            .collect()
    }

    pub fn build(
        &self,
        api: Api,
        rng: &mut impl RngCore,
    ) -> Result<Option<(Unauth, BundleMetadata)>, String> {
        match api {
            Api::Builder => self.builder()?.build::<i64>(rng),
            Api::Function => bundle::<i64>(
                rng,
                anchor_of(&self.anchor),
                self.bundle_type,
                self.spend_infos()?,
                self.output_infos(),
            ),
        }
        .map_err(|e| format!("build of a satisfiable request failed: {:?} ({})", e, self.describe()))
    }

    /// Ask keys of every wallet that spends something, without repeats.
    pub fn asks(&self) -> Vec<SpendAuthorizingKey> {
        let mut seen = vec![];
        for s in &self.spends {
            if !seen.contains(&s.wallet) {
                seen.push(s.wallet);
            }
        }
        seen.iter().map(|w| self.wallets[*w].ask.clone()).collect()
    }
}

#[derive(Clone, Copy, PartialEq, Eq, Debug)]
pub enum Values {
    /// Sums in range for every pairing order and balance representable.
    Safe,
    /// Anything at all.
    Any,
}

#[derive(Clone, Debug)]
pub struct GenOpts {
    pub max_spends: usize,
    pub max_outs: usize,
    pub values: Values,
    pub allow_empty: bool,
    pub force_type: Option<BundleType>,
}

impl Default for GenOpts {
    fn default() -> Self {
        GenOpts { max_spends: 4, max_outs: 4, values: Values::Safe, allow_empty: false, force_type: None }
    }
}

pub fn rand_bundle_type(rng: &mut Rng) -> BundleType {
    match rng.gen_range(0..10) {
        0..=3 => BundleType::DEFAULT,
        4 => BundleType::Transactional { flags: Flags::ENABLED, bundle_required: true },
        5 => BundleType::Transactional { flags: Flags::SPENDS_DISABLED, bundle_required: rng.gen() },
        6 => BundleType::Transactional { flags: Flags::OUTPUTS_DISABLED, bundle_required: rng.gen() },
        7 => BundleType::Transactional { flags: flags_of(false, false), bundle_required: true },
        8 => BundleType::Coinbase,
        _ => BundleType::DEFAULT,
    }
}

pub fn rand_out(rng: &mut Rng, wallets: &[Wallet], value: u64) -> OutReq {
    let (owner, recipient) = if rng.gen_range(0..6) == 0 {
        // Somebody else's address, parsed from its encoding.
        let w = Wallet::random(rng);
        let raw = w.keys.fvk.address_at(MScope::External, &rand_index(rng));
        (None, sut(Address::from_raw_address_bytes(&raw), "valid raw address"))
    } else {
        let w = rng.gen_range(0..wallets.len());
        let s = rand_scope(rng);
        (Some((w, s)), wallets[w].address(s, rand_index(rng)))
    };
    let ovk = match rng.gen_range(0..5) {
        0 | 1 => None,
        2 => Some(bytes(rng)),
        _ => Some(pick(rng, wallets).movk(rand_scope(rng))),
    };
    OutReq { ovk, owner, recipient, value, memo: rand_memo(rng) }
}

pub fn scenario(rng: &mut Rng, o: &GenOpts) -> Scenario {
    loop {
        let bundle_type = o.force_type.unwrap_or_else(|| rand_bundle_type(rng));
        let flags = bundle_type.flags();
        let nw = rng.gen_range(1..=3);
        let wallets: Vec<Wallet> = (0..nw).map(|_| Wallet::random(rng)).collect();
        let ns = if flags.spends_enabled() { rng.gen_range(0..=o.max_spends) } else { 0 };
        let no = if flags.outputs_enabled() { rng.gen_range(0..=o.max_outs) } else { 0 };
        let big = rng.gen_range(0..4) == 0;
        let value = |rng: &mut Rng, n: usize| match o.values {
            Values::Any => edge_u64(rng),
            Values::Safe => {
                if big {
                    edge_u64(rng) / (n.max(1) as u64)
                } else {
                    edge_u64(rng) % (1 << 51)
                }
            }
        };
        let mut spends = vec![];
        let mut used = std::collections::BTreeSet::new();
        for _ in 0..ns {
            let w = rng.gen_range(0..nw);
            let s = rand_scope(rng);
            let v = value(rng, ns);
            let note = { let ad = wallets[w].address(s, rand_index(rng)); rand_note(rng, ad, v) };
            let pos = loop {
                let p = edge_u32(rng);
                if used.insert(p) {
                    break p;
                }
            };
            spends.push(SpendReq { wallet: w, scope: s, note, pos, foreign_path: None });
        }
        let outs: Vec<OutReq> = (0..no)
            .map(|_| {
                let v = value(rng, no);
                rand_out(rng, &wallets, v)
            })
            .collect();
        let mut leaves: Vec<(u32, Base)> = spends
            .iter()
            .map(|s| (s.pos, mnote(&s.note).cmx().unwrap()))
            .collect();
        for _ in 0..rng.gen_range(0..4) {
            let p = edge_u32(rng);
            if used.insert(p) {
                leaves.push((p, rand_base(rng)));
            }
        }
        let tree = SparseTree::new(&leaves);
        let anchor = tree.root();
        for s in spends.iter_mut() {
            if s.note.value().inner() == 0 && rng.gen() {
                let mut p = [Base::ZERO; 32];
                p.iter_mut().for_each(|x| *x = rand_base(rng));
                s.foreign_path = Some(p);
            }
        }
        let sc = Scenario { bundle_type, wallets, spends, outs, tree, anchor };
        if o.values == Values::Safe && !(sc.sums_safe() && sc.balance_fits()) {
            continue;
        }
        if !o.allow_empty && sc.expected_actions() == 0 {
            continue;
        }
        return sc;
    }
}

/// A directed request: exactly these spends (wallet, scope, value, position) and outputs (owner,
/// value), the notes in one tree.
pub fn compose(
    rng: &mut Rng,
    bundle_type: BundleType,
    nwallets: usize,
    spends: &[(usize, MScope, u64, u32)],
    outs: &[(usize, MScope, u64)],
) -> Scenario {
    let wallets: Vec<Wallet> = (0..nwallets).map(|_| Wallet::random(rng)).collect();
    let spends: Vec<SpendReq> = spends
        .iter()
        .map(|(w, s, v, pos)| {
            let ad = wallets[*w].address(*s, rand_index(rng));
            SpendReq { wallet: *w, scope: *s, note: rand_note(rng, ad, *v), pos: *pos, foreign_path: None }
        })
        .collect();
    let outs = outs
        .iter()
        .map(|(w, s, v)| {
            let mut o = rand_out(rng, &wallets, *v);
            o.owner = Some((*w, *s));
            o.recipient = wallets[*w].address(*s, rand_index(rng));
            o
        })
        .collect();
    let leaves: Vec<(u32, Base)> = spends.iter().map(|s| (s.pos, mnote(&s.note).cmx().unwrap())).collect();
    let tree = SparseTree::new(&leaves);
    let anchor = tree.root();
    Scenario { bundle_type, wallets, spends, outs, tree, anchor }
}

/// Many spends, mostly of one owner, and many outputs: requests of a size that ordinary use
/// rarely reaches. Values and positions include the extremes as far as the sums allow.
pub fn crowd(rng: &mut Rng, nspends: usize, nouts: usize, nwallets: usize) -> Scenario {
    let t = BundleType::DEFAULT;
    let mut used = std::collections::BTreeSet::new();
    let spends: Vec<_> = (0..nspends)
        .map(|_| {
            let w = if rng.gen_range(0..4) > 0 { 0 } else { rng.gen_range(0..nwallets) };
            let pos = loop {
                let p = edge_u32(rng);
                if used.insert(p) {
                    break p;
                }
            };
            (w, rand_scope(rng), edge_u64(rng) % (1 << 51), pos)
        })
        .collect();
    let outs: Vec<_> = (0..nouts).map(|_| (rng.gen_range(0..nwallets), rand_scope(rng), edge_u64(rng) % (1 << 51))).collect();
    compose(rng, t, nwallets, &spends, &outs)
}

/// Checks that an unauthorized bundle is exactly what was asked for.
pub fn check_fidelity(sc: &Scenario, b: &Unauth, meta: &BundleMetadata) -> Verdict {
    let n = b.actions().len();
    same!(n, sc.expected_actions(), "number of actions for {}", sc.describe());
    same!(b.flags().to_byte(), sc.bundle_type.flags().to_byte(), "flags of the bundle");
    same!(b.anchor().to_bytes(), sc.anchor.to_repr(), "anchor of the bundle");
    same!(*b.value_balance() as i128, sc.balance(), "value balance of the bundle");

    let actions: Vec<MAction> = b.actions().iter().map(|a| maction(a)).collect();

    let mut spent_at = vec![None; n];
    for (k, s) in sc.spends.iter().enumerate() {
        let i = meta.spend_action_index(k).ok_or_else(|| format!("no action index for spend {}", k))?;
        ensure!(i < n, "spend {} is said to be at action {} of {}", k, i, n);
        ensure!(spent_at[i].is_none(), "spends {:?} and {} share action {}", spent_at[i], k, i);
        spent_at[i] = Some(k);
        let nk = sc.wallets[s.wallet].keys.fvk.nk;
        let nf = mnote(&s.note).nullifier(&nk).unwrap();
        same!(actions[i].nf, nf.to_repr(), "nullifier at the action index of spend {}", k);
    }
    same!(meta.spend_action_index(sc.spends.len()), None, "action index of a spend never requested");
    let mut out_at = vec![None; n];
    for (k, o) in sc.outs.iter().enumerate() {
        let i = meta.output_action_index(k).ok_or_else(|| format!("no action index for output {}", k))?;
        ensure!(i < n, "output {} is said to be at action {} of {}", k, i, n);
        ensure!(out_at[i].is_none(), "outputs {:?} and {} share action {}", out_at[i], k, i);
        out_at[i] = Some(k);
        let a = &actions[i];
        let rho_v = model::base(&a.nf).unwrap();
        let expect_note = |d: &MDecrypted| -> Verdict {
            same!(d.note.address, o.recipient.to_raw_address_bytes(), "recipient of output {}", k);
            same!(d.note.value, o.value, "value of output {}", k);
            same!(d.note.rho, rho_v, "rho of output {}", k);
            ensure!(d.memo == Some(memo_or_default(&o.memo)), "memo of output {} differs from the one requested", k);
            Ok(())
        };
        if let Some((w, s)) = o.owner {
            let d = model::decrypt_ivk(&sc.wallets[w].mivk(s), &a.epk, &a.enc, &a.cmx, &rho_v)
                .ok_or_else(|| format!("recipient cannot decrypt output {} at action {}", k, i))?;
            expect_note(&d)?;
            // No other incoming viewing key obtains it.
            for (w2, wal) in sc.wallets.iter().enumerate() {
                for s2 in model::SCOPES {
                    if (w2, s2) != (w, s) {
                        ensure!(
                            model::decrypt_ivk(&wal.mivk(s2), &a.epk, &a.enc, &a.cmx, &rho_v).is_none(),
                            "output {} decrypts with a key it was not sent to",
                            k
                        );
                    }
                }
            }
        }
        if let Some(ovk) = &o.ovk {
            let d = model::decrypt_ovk(ovk, &a.cv, &a.cmx, &a.epk, &a.enc, &a.out, &rho_v)
                .ok_or_else(|| format!("sender cannot recover output {} with the ovk it asked for", k))?;
            expect_note(&d)?;
        }
        for wal in &sc.wallets {
            for s2 in model::SCOPES {
                let ovk = wal.movk(s2);
                if o.ovk != Some(ovk) {
                    ensure!(
                        model::decrypt_ovk(&ovk, &a.cv, &a.cmx, &a.epk, &a.enc, &a.out, &rho_v).is_none(),
                        "output {} can be recovered with an ovk that was not requested",
                        k
                    );
                }
            }
        }
        ensure!(
            model::decrypt_ovk(&[0; 32], &a.cv, &a.cmx, &a.epk, &a.enc, &a.out, &rho_v).is_none(),
            "output {} can be recovered with an all-zero ovk",
            k
        );
    }
    same!(meta.output_action_index(sc.outs.len()), None, "action index of an output never requested");
    // Padding: nothing that was not asked for moves to or from any wallet.
    let nfs: Vec<[u8; 32]> = sc
        .spends
        .iter()
        .map(|s| mnote(&s.note).nullifier(&sc.wallets[s.wallet].keys.fvk.nk).unwrap().to_repr())
        .collect();
    for (i, a) in actions.iter().enumerate() {
        if spent_at[i].is_none() {
            ensure!(!nfs.contains(&a.nf), "padding action {} reveals the nullifier of a requested spend", i);
        }
        if out_at[i].is_none() {
            let rho_v = model::base(&a.nf).unwrap();
            for wal in &sc.wallets {
                for s2 in model::SCOPES {
                    ensure!(
                        model::decrypt_ivk(&wal.mivk(s2), &a.epk, &a.enc, &a.cmx, &rho_v).is_none(),
                        "padding output at action {} pays one of the wallets",
                        i
                    );
                    ensure!(
                        model::decrypt_ovk(&wal.movk(s2), &a.cv, &a.cmx, &a.epk, &a.enc, &a.out, &rho_v).is_none(),
                        "padding output at action {} is recoverable by one of the wallets",
                        i
                    );
                }
            }
        }
    }
    // Each nullifier once, as long as each note was requested once.
    let mut d: Vec<_> = actions.iter().map(|a| a.nf).collect();
    d.sort();
    d.dedup();
    same!(d.len(), n, "number of distinct nullifiers");
    Ok(())
}

/// Full consensus-style validation of an authorized bundle by the model, except the proof.
pub fn model_sigs_ok(b: &Bundle<Authorized, i64>, sighash: &[u8; 32]) -> Result<(), String> {
    for (i, a) in b.actions().iter().enumerate() {
        let rk: [u8; 32] = a.rk().into();
        let sig: [u8; 64] = a.authorization().into();
        ensure!(
            model::redpallas_verify(&model::spend_auth_base(), &rk, sighash, &sig),
            "spend authorization signature {} does not verify",
            i
        );
    }
    let bvk = meffects(b).balance_key().ok_or("a value commitment does not decode")?;
    let sig: [u8; 64] = b.authorization().binding_signature().into();
    ensure!(
        model::redpallas_verify(&model::rcv_base(), &bvk, sighash, &sig),
        "binding signature does not verify"
    );
    Ok(())
}

/// As above through the crate's own API.
pub fn crate_sigs_ok<V: Copy + Into<i64>>(b: &Bundle<Authorized, V>, sighash: &[u8; 32]) -> bool {
    b.actions().iter().all(|a| a.rk().verify(sighash, a.authorization()).is_ok())
        && b.binding_validating_key()
            .verify(sighash, b.authorization().binding_signature())
            .is_ok()
}

pub fn action_from(
    m: &MAction,
    sig: redpallas::Signature<SpendAuth>,
) -> Option<Action<redpallas::Signature<SpendAuth>>> {
    Some(Action::from_parts(
        Option::from(orchard::note::Nullifier::from_bytes(&m.nf))?,
        redpallas::VerificationKey::try_from(m.rk).ok()?,
        Option::from(ExtractedNoteCommitment::from_bytes(&m.cmx))?,
        orchard::note::TransmittedNoteCiphertext {
            epk_bytes: m.epk,
            enc_ciphertext: m.enc,
            out_ciphertext: m.out,
        },
        Option::from(orchard::value::ValueCommitment::from_bytes(&m.cv))?,
        sig,
    ))
}

/// Reassembles an authorized bundle from raw parts, as a consensus parser would.
pub fn assemble(
    e: &MEffects,
    proof: Vec<u8>,
    sigs: &[[u8; 64]],
    binding: [u8; 64],
) -> Option<Bundle<Authorized, i64>> {
    let actions: Option<Vec<_>> = e
        .actions
        .iter()
        .zip(sigs)
        .map(|(m, s)| action_from(m, redpallas::Signature::from(*s)))
        .collect();
    Some(Bundle::from_parts(
        NonEmpty::from_vec(actions?)?,
        Flags::from_byte(e.flags)?,
        e.balance,
        Option::from(Anchor::from_bytes(e.anchor))?,
        Authorized::from_parts(
            orchard::Proof::new(proof),
            redpallas::Signature::<Binding>::from(binding),
        ),
    ))
}

#[derive(Clone, Debug)]
pub struct Raw {
    pub effects: MEffects,
    pub proof: Vec<u8>,
    pub sigs: Vec<[u8; 64]>,
    pub binding: [u8; 64],
}

impl Raw {
    pub fn of(b: &Bundle<Authorized, i64>) -> Raw {
        Raw {
            effects: meffects(b),
            proof: b.authorization().proof().as_ref().to_vec(),
            sigs: b.actions().iter().map(|a| a.authorization().into()).collect(),
            binding: b.authorization().binding_signature().into(),
        }
    }
    pub fn assemble(&self) -> Option<Bundle<Authorized, i64>> {
        assemble(&self.effects, self.proof.clone(), &self.sigs, self.binding)
    }
}
