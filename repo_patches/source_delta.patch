From 3f674a0c6124abb51955abae2a22c749772094b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:57 +0000
Subject: [PATCH 1/2] Add observation hooks for runtime verification (cfg
 orchard_verif)

---
 src/builder.rs         |   6 ++
 src/circuit.rs         |   7 +++
 src/lib.rs             |   3 +
 src/note/commitment.rs |  10 ++++
 src/verif_hooks.rs     | 130 +++++++++++++++++++++++++++++++++++++++++
 5 files changed, 156 insertions(+)
 create mode 100644 src/verif_hooks.rs

diff --git a/src/builder.rs b/src/builder.rs
index 37bdc38..d9f1318 100644
--- a/src/builder.rs
+++ b/src/builder.rs
@@ -704,6 +704,12 @@ pub struct Unproven {
 }
 
 impl<S: InProgressSignatures> InProgress<Unproven, S> {
+    /// Verification hook: the circuits that a proof would be created for.
+    #[cfg(orchard_verif)]
+    pub(crate) fn verif_circuits(&self) -> &[Circuit] {
+        &self.proof.circuits
+    }
+
     /// Creates the proof for this bundle.
     pub fn create_proof(
         &self,
diff --git a/src/circuit.rs b/src/circuit.rs
index 567b606..c4f37f6 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -832,6 +832,13 @@ impl Instance {
         }
     }
 
+    /// Verification hook: the public inputs that proofs are created and verified against.
+    #[cfg(orchard_verif)]
+    pub(crate) fn verif_public_inputs(&self) -> [vesta::Scalar; 9] {
+        let [inputs] = self.to_halo2_instance();
+        inputs
+    }
+
     fn to_halo2_instance(&self) -> [[vesta::Scalar; 9]; 1] {
         let mut instance = [vesta::Scalar::zero(); 9];
 
diff --git a/src/lib.rs b/src/lib.rs
index 005253e..b694f37 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -29,6 +29,9 @@ pub mod primitives;
 mod spec;
 pub mod tree;
 pub mod value;
+#[cfg(orchard_verif)]
+#[allow(missing_docs)]
+pub mod verif_hooks;
 pub mod zip32;
 
 #[cfg(test)]
diff --git a/src/note/commitment.rs b/src/note/commitment.rs
index 9de51d2..d712302 100644
--- a/src/note/commitment.rs
+++ b/src/note/commitment.rs
@@ -16,6 +16,11 @@ use crate::{
 pub(crate) struct NoteCommitTrapdoor(pub(super) pallas::Scalar);
 
 impl NoteCommitTrapdoor {
+    #[cfg(orchard_verif)]
+    pub(crate) fn verif_from_raw(rcm: pallas::Scalar) -> Self {
+        NoteCommitTrapdoor(rcm)
+    }
+
     pub(crate) fn inner(&self) -> pallas::Scalar {
         self.0
     }
@@ -26,6 +31,11 @@ impl NoteCommitTrapdoor {
 pub struct NoteCommitment(pub(super) pallas::Point);
 
 impl NoteCommitment {
+    #[cfg(orchard_verif)]
+    pub(crate) fn verif_from_raw(cm: pallas::Point) -> Self {
+        NoteCommitment(cm)
+    }
+
     pub(crate) fn inner(&self) -> pallas::Point {
         self.0
     }
diff --git a/src/verif_hooks.rs b/src/verif_hooks.rs
new file mode 100644
index 0000000..53769db
--- /dev/null
+++ b/src/verif_hooks.rs
@@ -0,0 +1,130 @@
+//! Observation points for runtime verification.
+//!
+//! Compiled only with `--cfg orchard_verif`; nothing in the crate uses this module.
+
+use ff::PrimeField;
+use group::GroupEncoding;
+use halo2_proofs::circuit::Value;
+use pasta_curves::{pallas, vesta};
+
+use crate::{
+    builder::{InProgress, InProgressSignatures, Unproven},
+    bundle::Bundle,
+    circuit::{Circuit, Instance},
+    constants::MERKLE_DEPTH_ORCHARD,
+    keys::{
+        CommitIvkRandomness, DiversifiedTransmissionKey, NullifierDerivingKey, SpendValidatingKey,
+    },
+    note::{
+        commitment::{NoteCommitTrapdoor, NoteCommitment},
+        Rho,
+    },
+    spec::NonIdentityPallasPoint,
+    tree::MerkleHashOrchard,
+    value::{NoteValue, ValueCommitTrapdoor},
+};
+
+/// The private inputs of one Action circuit, as plain field elements and points.
+#[derive(Clone, Debug)]
+pub struct ActionWitness {
+    pub path: [pallas::Base; MERKLE_DEPTH_ORCHARD],
+    pub pos: u32,
+    pub g_d_old: pallas::Point,
+    pub pk_d_old: pallas::Point,
+    pub v_old: u64,
+    pub rho_old: pallas::Base,
+    pub psi_old: pallas::Base,
+    pub rcm_old: pallas::Scalar,
+    pub cm_old: pallas::Point,
+    pub alpha: pallas::Scalar,
+    pub ak: pallas::Point,
+    pub nk: pallas::Base,
+    pub rivk: pallas::Scalar,
+    pub g_d_new: pallas::Point,
+    pub pk_d_new: pallas::Point,
+    pub v_new: u64,
+    pub psi_new: pallas::Base,
+    pub rcm_new: pallas::Scalar,
+    pub rcv: pallas::Scalar,
+}
+
+fn known<T: Clone>(value: &Value<T>) -> Option<T> {
+    let mut out = None;
+    value.as_ref().map(|v| out = Some(v.clone()));
+    out
+}
+
+impl ActionWitness {
+    /// Reads the witness out of a circuit; `None` if any part of it is unknown.
+    pub fn of(circuit: &Circuit) -> Option<Self> {
+        Some(ActionWitness {
+            path: known(&circuit.path)?.map(|node| node.inner()),
+            pos: known(&circuit.pos)?,
+            g_d_old: *known(&circuit.g_d_old)?,
+            pk_d_old: *known(&circuit.pk_d_old)?.inner(),
+            v_old: known(&circuit.v_old)?.inner(),
+            rho_old: known(&circuit.rho_old)?.into_inner(),
+            psi_old: known(&circuit.psi_old)?,
+            rcm_old: known(&circuit.rcm_old)?.inner(),
+            cm_old: known(&circuit.cm_old)?.inner(),
+            alpha: known(&circuit.alpha)?,
+            ak: pallas::Point::from(&known(&circuit.ak)?),
+            nk: known(&circuit.nk)?.inner(),
+            rivk: known(&circuit.rivk)?.inner(),
+            g_d_new: *known(&circuit.g_d_new)?,
+            pk_d_new: *known(&circuit.pk_d_new)?.inner(),
+            v_new: known(&circuit.v_new)?.inner(),
+            psi_new: known(&circuit.psi_new)?,
+            rcm_new: known(&circuit.rcm_new)?.inner(),
+            rcv: known(&circuit.rcv)?.inner(),
+        })
+    }
+
+    /// Builds a circuit with exactly this witness; `None` if some part of it cannot be
+    /// represented (an identity point, or an `ak` with the wrong sign).
+    pub fn to_circuit(&self) -> Option<Circuit> {
+        fn point(p: &pallas::Point) -> Option<NonIdentityPallasPoint> {
+            NonIdentityPallasPoint::from_bytes(&p.to_bytes()).into()
+        }
+        fn pk_d(p: &pallas::Point) -> Option<DiversifiedTransmissionKey> {
+            DiversifiedTransmissionKey::from_bytes(&p.to_bytes()).into()
+        }
+        let path = self
+            .path
+            .map(|node| MerkleHashOrchard::from_bytes(&node.to_repr()).unwrap());
+
+        Some(Circuit {
+            path: Value::known(path),
+            pos: Value::known(self.pos),
+            g_d_old: Value::known(point(&self.g_d_old)?),
+            pk_d_old: Value::known(pk_d(&self.pk_d_old)?),
+            v_old: Value::known(NoteValue::from_raw(self.v_old)),
+            rho_old: Value::known(Rho::from_bytes(&self.rho_old.to_repr()).unwrap()),
+            psi_old: Value::known(self.psi_old),
+            rcm_old: Value::known(NoteCommitTrapdoor::verif_from_raw(self.rcm_old)),
+            cm_old: Value::known(NoteCommitment::verif_from_raw(self.cm_old)),
+            alpha: Value::known(self.alpha),
+            ak: Value::known(SpendValidatingKey::from_bytes(&self.ak.to_bytes())?),
+            nk: Value::known(NullifierDerivingKey::from_bytes(&self.nk.to_repr())?),
+            rivk: Value::known(CommitIvkRandomness::from_bytes(&self.rivk.to_repr())?),
+            g_d_new: Value::known(point(&self.g_d_new)?),
+            pk_d_new: Value::known(pk_d(&self.pk_d_new)?),
+            v_new: Value::known(NoteValue::from_raw(self.v_new)),
+            psi_new: Value::known(self.psi_new),
+            rcm_new: Value::known(NoteCommitTrapdoor::verif_from_raw(self.rcm_new)),
+            rcv: Value::known(ValueCommitTrapdoor::from_bytes(self.rcv.to_repr()).unwrap()),
+        })
+    }
+}
+
+/// The circuits a not-yet-proven bundle would be proven with, in action order.
+pub fn bundle_circuits<S: InProgressSignatures, V>(
+    bundle: &Bundle<InProgress<Unproven, S>, V>,
+) -> &[Circuit] {
+    bundle.authorization().verif_circuits()
+}
+
+/// The public inputs that a proof for this instance is created and verified against.
+pub fn public_inputs(instance: &Instance) -> [vesta::Scalar; 9] {
+    instance.verif_public_inputs()
+}
-- 
2.43.0


From 65fb01f1cd96affadc32a94a04946e3ad8ce3f70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:05 +0000
Subject: [PATCH 2/2] fix: accept the identity as rk in a proof instance
 instead of panicking

Instance::to_halo2_instance unwrapped the affine coordinates of rk, so verifying
(or batching) any bundle with an action whose rk is the encoding of the identity
panicked. The circuit represents the identity as (0, 0), as is already done for
cv_net.
---
 src/circuit.rs | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/circuit.rs b/src/circuit.rs
index c4f37f6..23d40d9 100644
--- a/src/circuit.rs
+++ b/src/circuit.rs
@@ -13,7 +13,10 @@ use halo2_proofs::{
     transcript::{Blake2bRead, Blake2bWrite},
 };
 use memuse::DynamicUsage;
-use pasta_curves::{arithmetic::CurveAffine, pallas, vesta};
+use pasta_curves::{
+    arithmetic::{Coordinates, CurveAffine},
+    pallas, vesta,
+};
 use rand::RngCore;
 
 use self::{
@@ -847,14 +850,17 @@ impl Instance {
         instance[CV_NET_Y] = self.cv_net.y();
         instance[NF_OLD] = self.nf_old.0;
 
-        let rk = pallas::Point::from_bytes(&self.rk.clone().into())
-            .unwrap()
-            .to_affine()
-            .coordinates()
-            .unwrap();
+        // `rk` may be the identity, which has no affine coordinates; the circuit represents
+        // it as (0, 0).
+        let rk = Option::<Coordinates<pallas::Affine>>::from(
+            pallas::Point::from_bytes(&self.rk.clone().into())
+                .unwrap()
+                .to_affine()
+                .coordinates(),
+        );
 
-        instance[RK_X] = *rk.x();
-        instance[RK_Y] = *rk.y();
+        instance[RK_X] = rk.map_or(vesta::Scalar::zero(), |rk| *rk.x());
+        instance[RK_Y] = rk.map_or(vesta::Scalar::zero(), |rk| *rk.y());
         instance[CMX] = self.cmx.inner();
         instance[ENABLE_SPEND] = vesta::Scalar::from(u64::from(self.enable_spend));
         instance[ENABLE_OUTPUT] = vesta::Scalar::from(u64::from(self.enable_output));
-- 
2.43.0

