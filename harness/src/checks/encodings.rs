//! C13 canonical encodings.

use std::io::{self, Read, Write};

use ff::{Field, PrimeField};
use group::{Group, GroupEncoding};
use num_bigint::BigUint;
use orchard::{
    bundle::Flags,
    keys::{Diversifier, FullViewingKey, IncomingViewingKey, OutgoingViewingKey, SpendingKey},
    note::{ExtractedNoteCommitment, Nullifier, RandomSeed, Rho},
    note_encryption::CompactAction,
    primitives::redpallas::{Binding, Signature, SigningKey, SpendAuth, VerificationKey},
    tree::MerkleHashOrchard,
    value::{NoteValue, ValueCommitTrapdoor, ValueCommitment, ValueSum},
    Address, Anchor, Proof,
};
use rand::{Rng as _, RngCore};
use zcash_note_encryption::{EphemeralKeyBytes, ShieldedOutput};

use crate::model::{self, Base, MFvk, MKeys, Point, Scalar, SCOPES};
use crate::mon::{sut, Ctx, Rng, Verdict};
use crate::world::*;
use crate::{ensure, same};

fn modulus(hex: &str) -> BigUint {
    BigUint::parse_bytes(hex.as_bytes(), 16).unwrap()
}
fn p() -> BigUint {
    modulus("40000000000000000000000000000000224698fc094cf91b992d30ed00000001")
}
fn q() -> BigUint {
    modulus("40000000000000000000000000000000224698fc0994a8dd8c46eb2100000001")
}

fn le(x: &BigUint) -> [u8; 32] {
    let mut out = [0; 32];
    let b = x.to_bytes_le();
    let n = b.len().min(32);
    out[..n].copy_from_slice(&b[..n]);
    out
}

fn canonical_base(b: &[u8; 32]) -> bool {
    BigUint::from_bytes_le(b) < p()
}
fn canonical_scalar(b: &[u8; 32]) -> bool {
    BigUint::from_bytes_le(b) < q()
}
/// The point encoded by `b`, by the definition of repr_P: None if there is none.
fn canonical_point(b: &[u8; 32]) -> Option<Option<(Base, Base)>> {
    if *b == [0; 32] {
        return Some(None);
    }
    let sign = b[31] >> 7;
    let mut xb = *b;
    xb[31] &= 0x7f;
    if !canonical_base(&xb) {
        return None;
    }
    let x = model::base(&xb).unwrap();
    let y = Option::<Base>::from((x * x * x + Base::from(5)).sqrt())?;
    let y = if y.to_repr()[0] & 1 == sign { y } else { -y };
    Some(Some((x, y)))
}

/// 32 bytes of the kinds that trip decoders: canonical values, aliases of them above the
/// modulus, values at the edges, points with either sign, near points, noise.
pub fn tricky(rng: &mut Rng) -> [u8; 32] {
    let small = BigUint::from(rng.gen_range(0..4u32));
    let mut b = match rng.gen_range(0..16) {
        0 => edge_base(rng).to_repr(),
        1 => edge_scalar(rng).to_repr(),
        2 => le(&(p() + small)),
        3 => le(&(q() + small)),
        4 => le(&(p() - small)),
        5 => le(&(q() - small)),
        6 => le(&(p() + BigUint::from_bytes_le(&edge_base(rng).to_repr()))),
        7 => le(&(q() + BigUint::from_bytes_le(&edge_scalar(rng).to_repr()))),
        8 => (Point::generator() * edge_scalar(rng)).to_bytes(),
        9 => {
            // A point's x-coordinate, aliased above the modulus.
            let mut x = (Point::generator() * Scalar::random(&mut *rng)).to_bytes();
            x[31] &= 0x7f;
            let mut b = le(&(p() + BigUint::from_bytes_le(&x)));
            if rng.gen() {
                b[31] |= 0x80;
            }
            b
        }
        10 => {
            let mut b = edge_base(rng).to_repr();
            b[31] |= 0x80;
            b
        }
        11 => {
            let mut b = edge_base(rng).to_repr();
            b[31] |= 0x40;
            b
        }
        12 => [0xff; 32],
        13 => {
            let mut b = [0; 32];
            b[31] = 0x80;
            b
        }
        14 => bytes(rng),
        _ => {
            let mut b: [u8; 32] = bytes(rng);
            b[31] &= 0x3f;
            b
        }
    };
    if rng.gen_range(0..8) == 0 {
        b[rng.gen_range(0..32)] ^= 1 << rng.gen_range(0..8);
    }
    b
}

/// Compares one decoder's verdict and re-encoding with what the specification says.
fn codec<T>(
    ctx: &Ctx,
    name: &str,
    input: &[u8],
    got: Option<T>,
    want: bool,
    encode: impl Fn(&T) -> Vec<u8>,
) -> Result<Option<T>, String> {
    ensure!(
        got.is_some() == want,
        "{}: {} the encoding {} which is {}",
        name,
        if want { "refused" } else { "accepted" },
        hex::encode(input),
        if want { "valid" } else { "not a canonical valid encoding" }
    );
    if let Some(t) = &got {
        same!(hex::encode(encode(t)), hex::encode(input), "{}: re-encoding", name);
    }
    ctx.event(&format!("{} {}", name, if want { "accepted" } else { "refused" }));
    Ok(got)
}

/// A reader that hands out a few bytes at a time and may end early or fail.
struct Dribble<'a> {
    data: &'a [u8],
    step: usize,
    fail_at: Option<usize>,
    read: usize,
}
impl Read for Dribble<'_> {
    fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
        if self.fail_at.map(|f| self.read >= f).unwrap_or(false) {
            return Err(io::Error::new(io::ErrorKind::Other, "broken pipe"));
        }
        let n = self.step.min(buf.len()).min(self.data.len());
        buf[..n].copy_from_slice(&self.data[..n]);
        self.data = &self.data[n..];
        self.read += n;
        Ok(n)
    }
}

/// A writer that takes a few bytes at a time and may run out of room.
struct Narrow {
    got: Vec<u8>,
    step: usize,
    room: usize,
}
impl Write for Narrow {
    fn write(&mut self, buf: &[u8]) -> io::Result<usize> {
        let n = self.step.min(buf.len()).min(self.room - self.got.len());
        self.got.extend_from_slice(&buf[..n]);
        Ok(n)
    }
    fn flush(&mut self) -> io::Result<()> {
        Ok(())
    }
}

fn field_types(ctx: &Ctx, b: &[u8; 32]) -> Verdict {
    let base = canonical_base(b);
    let scalar = canonical_scalar(b);
    let point = canonical_point(b).is_some();
    codec(ctx, "nullifier", b, Option::<Nullifier>::from(Nullifier::from_bytes(b)), base, |x| x.to_bytes().to_vec())?;
    if let Some(c) = codec(ctx, "note commitment", b, Option::<ExtractedNoteCommitment>::from(ExtractedNoteCommitment::from_bytes(b)), base, |x| x.to_bytes().to_vec())? {
        same!(<[u8; 32]>::from(&c), *b, "note commitment conversion");
        // Both ways into a tree leaf agree.
        same!(MerkleHashOrchard::from_cmx(&c).to_bytes(), *b, "tree leaf of a commitment");
    }
    codec(ctx, "anchor", b, Option::<Anchor>::from(Anchor::from_bytes(*b)), base, |x| x.to_bytes().to_vec())?;
    codec(ctx, "rho", b, Option::<Rho>::from(Rho::from_bytes(b)), base, |x| x.to_bytes().to_vec())?;
    let t = codec(ctx, "tree hash", b, Option::<MerkleHashOrchard>::from(MerkleHashOrchard::from_bytes(b)), base, |x| x.to_bytes().to_vec())?;
    // serde goes through the same door.
    let js = serde_json::to_value(b).unwrap();
    let d = serde_json::from_value::<MerkleHashOrchard>(js.clone()).ok();
    codec(ctx, "tree hash (serde)", b, d, base, |x| x.to_bytes().to_vec())?;
    if let Some(t) = t {
        same!(serde_json::to_value(t).map_err(|e| e.to_string())?, js, "tree hash (serde): re-encoding");
        same!(Anchor::from(t).to_bytes(), *b, "anchor of a root");
    }
    codec(ctx, "value trapdoor", b, Option::<ValueCommitTrapdoor>::from(ValueCommitTrapdoor::from_bytes(*b)), scalar, |x| {
        // Not exported; its effect on a commitment to zero identifies it.
        let cv = ValueCommitment::derive(ValueSum::default(), x.clone());
        let want = model::rcv_base() * Scalar::from_repr(*b).unwrap();
        if cv.to_bytes() == want.to_bytes() { b.to_vec() } else { vec![] }
    })?;
    codec(ctx, "value commitment", b, Option::<ValueCommitment>::from(ValueCommitment::from_bytes(b)), point, |x| x.to_bytes().to_vec())?;
    codec(ctx, "spend validating key", b, VerificationKey::<SpendAuth>::try_from(*b).ok(), point, |x| <[u8; 32]>::from(x).to_vec())?;
    codec(ctx, "binding validating key", b, VerificationKey::<Binding>::try_from(*b).ok(), point, |x| <[u8; 32]>::from(x.clone()).to_vec())?;
    codec(ctx, "spend signing key", b, SigningKey::<SpendAuth>::try_from(*b).ok(), scalar, |x| <[u8; 32]>::from(x).to_vec())?;
    codec(ctx, "binding signing key", b, SigningKey::<Binding>::try_from(*b).ok(), scalar, |x| <[u8; 32]>::from(x.clone()).to_vec())?;
    let mk = MKeys::from_sk(*b);
    codec(ctx, "spending key", b, Option::<SpendingKey>::from(SpendingKey::from_bytes(*b)), mk.is_some(), |x| x.to_bytes().to_vec())?;
    codec(ctx, "outgoing viewing key", b, Some(OutgoingViewingKey::from(*b)), true, |x| x.as_ref().to_vec())?;
    Ok(())
}

/// Equality and order of decoded values are those of their encodings (or their integers).
fn equality(rng: &mut Rng) -> Verdict {
    let a = edge_base(rng).to_repr();
    let b = if rng.gen() { a } else { edge_base(rng).to_repr() };
    let eq = a == b;
    let ord = {
        let (x, y): (Vec<_>, Vec<_>) = (a.iter().rev().collect(), b.iter().rev().collect());
        x.cmp(&y)
    };
    let (x, y) = (Nullifier::from_bytes(&a).unwrap(), Nullifier::from_bytes(&b).unwrap());
    same!((x == y, x.cmp(&y)), (eq, ord), "nullifier comparison of {} and {}", hex::encode(a), hex::encode(b));
    let (x, y) = (Rho::from_bytes(&a).unwrap(), Rho::from_bytes(&b).unwrap());
    same!((x == y, x.cmp(&y)), (eq, ord), "rho comparison");
    let (x, y) = (MerkleHashOrchard::from_bytes(&a).unwrap(), MerkleHashOrchard::from_bytes(&b).unwrap());
    same!((x == y, x.cmp(&y)), (eq, ord), "tree hash comparison");
    let (x, y) = (ExtractedNoteCommitment::from_bytes(&a).unwrap(), ExtractedNoteCommitment::from_bytes(&b).unwrap());
    same!(x == y, eq, "note commitment comparison");
    let (x, y) = (Anchor::from_bytes(a).unwrap(), Anchor::from_bytes(b).unwrap());
    same!(x == y, eq, "anchor comparison");
    let k = |rng: &mut Rng| (Point::generator() * edge_scalar(rng)).to_bytes();
    let a = k(rng);
    let b = match rng.gen_range(0..3) {
        0 => a,
        1 => (-model::point(&a).unwrap()).to_bytes(),
        _ => k(rng),
    };
    let v = |b: [u8; 32]| sut::<VerificationKey<SpendAuth>>(VerificationKey::try_from(b).ok(), "valid key");
    let (x, y) = (v(a), v(b));
    same!((x == y, x.cmp(&y), x.partial_cmp(&y)), (a == b, a.cmp(&b), Some(a.cmp(&b))), "validating key comparison");
    Ok(())
}

fn fvk_bytes(ctx: &Ctx, rng: &mut Rng) -> Verdict {
    let mut b = [0u8; 96];
    let mut ak = tricky(rng);
    if rng.gen_range(0..3) != 0 {
        ak = (model::spend_auth_base() * Scalar::random(&mut *rng)).to_bytes();
        if rng.gen_range(0..4) != 0 {
            ak[31] &= 0x7f;
        }
    }
    let nk = if rng.gen() { tricky(rng) } else { edge_base(rng).to_repr() };
    let rivk = if rng.gen() { tricky(rng) } else { edge_scalar(rng).to_repr() };
    b[..32].copy_from_slice(&ak);
    b[32..64].copy_from_slice(&nk);
    b[64..].copy_from_slice(&rivk);
    let ak_ok = matches!(canonical_point(&ak), Some(Some(_))) && ak[31] >> 7 == 0;
    let ok = ak_ok && canonical_base(&nk) && canonical_scalar(&rivk) && {
        let m = MFvk {
            ak: model::point(&ak).unwrap(),
            nk: model::base(&nk).unwrap(),
            rivk: Scalar::from_repr(rivk).unwrap(),
        };
        SCOPES.iter().all(|s| m.scoped(*s).ivk().is_some())
    };
    codec(ctx, "full viewing key", &b, FullViewingKey::from_bytes(&b), ok, |x| x.to_bytes().to_vec())?;
    // The stream interface: any chunking, exactly 96 bytes, errors passed on.
    let mut stream = b.to_vec();
    let extra = rng.gen_range(0..3) * 5;
    stream.resize(96 + extra, 0xaa);
    let step = *pick(rng, &[1, 2, 3, 31, 32, 33, 95, 96, 97, 1000]);
    let mut rd = Dribble { data: &stream, step, fail_at: None, read: 0 };
    let got = FullViewingKey::read(&mut rd);
    same!(rd.read, 96, "bytes consumed by read with {}-byte chunks", step);
    codec(ctx, "full viewing key (stream)", &b, got.ok(), ok, |x| {
        let mut w = vec![];
        x.write(&mut w).map(|_| w).unwrap_or_default()
    })?;
    let cut = rng.gen_range(0..96);
    let mut rd = Dribble { data: &b[..cut], step, fail_at: None, read: 0 };
    ensure!(FullViewingKey::read(&mut rd).is_err(), "a stream of {} bytes was accepted as a full viewing key", cut);
    let mut rd = Dribble { data: &b, step, fail_at: Some(cut), read: 0 };
    if cut + step <= 96 {
        ensure!(FullViewingKey::read(&mut rd).is_err(), "a failing stream was accepted");
    }
    if ok {
        let k = FullViewingKey::from_bytes(&b).unwrap();
        let mut w = Narrow { got: vec![], step, room: 96 };
        ensure!(k.write(&mut w).is_ok() && w.got == b, "write to a narrow stream");
        let mut w = Narrow { got: vec![], step, room: cut };
        ensure!(k.write(&mut w).is_err(), "a write to a full stream reported success");
        ensure!(b.starts_with(&w.got), "a failed write wrote something else");
        ctx.event("stream faults injected");
        // Every component is itself exported canonically to what it derives.
        let m = MFvk { ak: model::point(&ak).unwrap(), nk: model::base(&nk).unwrap(), rivk: Scalar::from_repr(rivk).unwrap() };
        for s in SCOPES {
            same!(k.to_ivk(scope(s)).to_bytes()[32..], m.scoped(s).ivk().unwrap().to_repr()[..], "ivk of a decoded key");
        }
    }
    Ok(())
}

pub fn c13(ctx: &Ctx) {
    ctx.rule(
        "every public decoder fed canonical values, aliases above the modulus, either-sign points, \
         non-points, edges and noise; acceptance compared with integer comparison against the \
         moduli and the curve equation, and everything accepted must re-encode to the very bytes \
         decoded. All 256 flag bytes. Distinct by input bytes.",
    );
    for t in [
        "nullifier", "note commitment", "anchor", "rho", "tree hash", "tree hash (serde)", "value trapdoor",
        "value commitment", "spend validating key", "binding validating key", "spend signing key",
        "binding signing key", "full viewing key", "full viewing key (stream)", "incoming viewing key", "address",
    ] {
        ctx.require(&format!("{} accepted", t), 20);
        ctx.require(&format!("{} refused", t), 20);
    }
    ctx.run("32 bytes", ctx.n(15000, 100000), |_, rng| {
        let b = tricky(rng);
        ctx.distinct("32-byte input", &b);
        ctx.sample("input", || hex::encode(b));
        field_types(ctx, &b)?;
        equality(rng)
    });
    // Every byte position, both directions across each modulus.
    ctx.run("boundaries", 64, |i, _| {
        for m in [p(), q()] {
            let d = BigUint::from(1u32) << (8 * (i as usize / 2));
            for x in [&m + &d, &m - &d.min(m.clone()), m.clone()] {
                if x.bits() <= 256 {
                    field_types(ctx, &le(&x))?;
                }
            }
        }
        Ok(())
    });
    ctx.run("full viewing keys", ctx.n(800, 20000), |_, rng| fvk_bytes(ctx, rng));
    ctx.run("incoming viewing keys", ctx.n(800, 20000), |_, rng| {
        let mut b = [0u8; 64];
        b[..32].copy_from_slice(&bytes::<32>(rng));
        let k = if rng.gen_range(0..4) == 0 { [0; 32] } else { tricky(rng) };
        b[32..].copy_from_slice(&k);
        let ok = canonical_base(&k) && k != [0; 32];
        ctx.distinct("ivk input", &b);
        codec(ctx, "incoming viewing key", &b, Option::<IncomingViewingKey>::from(IncomingViewingKey::from_bytes(&b)), ok, |x| x.to_bytes().to_vec())?;
        Ok(())
    });
    ctx.run("addresses", ctx.n(1500, 40000), |_, rng| {
        let mut b = [0u8; 43];
        rng.fill_bytes(&mut b[..11]);
        let k = tricky(rng);
        b[11..].copy_from_slice(&k);
        let ok = matches!(canonical_point(&k), Some(Some(_)));
        ctx.distinct("address input", &b);
        let a = codec(ctx, "address", &b, Option::<Address>::from(Address::from_raw_address_bytes(&b)), ok, |x| x.to_raw_address_bytes().to_vec())?;
        if let Some(a) = a {
            let got_d = a.diversifier();
            same!(*got_d.as_array(), b[..11], "diversifier of a decoded address");
            let d = Diversifier::from_bytes(b[..11].try_into().unwrap());
            same!(a.diversifier() == d, true, "diversifier comparison");
            // Equality of addresses is equality of encodings.
            let mut b2 = b;
            match rng.gen_range(0..3) {
                0 => b2[42] ^= 0x80,
                1 => b2[rng.gen_range(0..11)] ^= 1 << rng.gen_range(0..8),
                _ => (),
            }
            let a2: Address = sut(Address::from_raw_address_bytes(&b2), "valid address");
            same!(a == a2, b == b2, "comparison of addresses {} and {}", hex::encode(b), hex::encode(b2));
        }
        Ok(())
    });
    ctx.run("flags", 256, |i, _| {
        let b = i as u8;
        let f = Flags::from_byte(b);
        codec(ctx, "flags", &[b], f, b < 4, |f| vec![f.to_byte()])?;
        if let Some(f) = f {
            same!((f.spends_enabled(), f.outputs_enabled()), (b & 1 != 0, b & 2 != 0), "meaning of flags byte {}", b);
            for (g, gb) in [(Flags::ENABLED, 3u8), (Flags::SPENDS_DISABLED, 2), (Flags::OUTPUTS_DISABLED, 1)] {
                same!(g.to_byte(), gb, "named flag set");
                same!(f == g, b == gb, "comparison of flags");
            }
        }
        Ok(())
    });
    ctx.run("opaque", ctx.n(400, 8000), |_, rng| {
        let s: [u8; 64] = bytes(rng);
        codec(ctx, "spend signature", &s, Some(Signature::<SpendAuth>::from(s)), true, |x| <[u8; 64]>::from(x).to_vec())?;
        codec(ctx, "binding signature", &s, Some(Signature::<Binding>::from(s)), true, |x| <[u8; 64]>::from(x).to_vec())?;
        let mut pr = vec![0; rng.gen_range(0..6000)];
        rng.fill_bytes(&mut pr);
        codec(ctx, "proof", &pr, Some(Proof::new(pr.clone())), true, |x| x.as_ref().to_vec())?;
        let v = edge_u64(rng);
        same!(NoteValue::from_raw(v).inner(), v, "note value");
        // Random seeds: valid unless the ephemeral secret they determine is zero.
        let r = edge_base(rng);
        let seed: [u8; 32] = bytes(rng);
        let esk = model::to_scalar(model::prf_expand(&seed, &[&[0x04], &r.to_repr()]));
        codec(ctx, "note seed", &seed, Option::<RandomSeed>::from(RandomSeed::from_bytes(seed, &rho(&r))), esk != Scalar::ZERO, |x| x.as_bytes().to_vec())?;
        // Compact actions carry their parts unchanged.
        let (nf, cmx) = (edge_base(rng).to_repr(), edge_base(rng).to_repr());
        let (epk, enc): ([u8; 32], [u8; 52]) = (bytes(rng), bytes(rng));
        let c = CompactAction::from_parts(
            Nullifier::from_bytes(&nf).unwrap(),
            ExtractedNoteCommitment::from_bytes(&cmx).unwrap(),
            EphemeralKeyBytes(epk),
            enc,
        );
        same!(c.nullifier().to_bytes(), nf, "nullifier of a compact action");
        same!(c.rho().to_bytes(), nf, "rho of a compact action");
        same!(c.cmx().to_bytes(), cmx, "commitment of a compact action");
        same!(c.ephemeral_key().0, epk, "ephemeral key of a compact action");
        same!(c.cmstar_bytes(), cmx, "commitment bytes of a compact action");
        same!(c.enc_ciphertext()[..], enc[..], "ciphertext of a compact action");
        Ok(())
    });
}
