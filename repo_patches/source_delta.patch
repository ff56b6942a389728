From 2a64807e9d1d4105596a326d0cd98c2575767257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 01/40] fix: don't panic parsing a silent payment code with an
 empty data part

A valid bech32m string without any data, e.g. "a1lqfn3a", has no version
character, report it as a wrong payload length instead of indexing an
empty vector.
---
 silentpayments/src/encoding/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index acdebb6..53c3846 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -326,7 +326,10 @@ impl TryFrom<&str> for SilentPaymentCode {
         let hrp = checked_hrpstring.hrp();
         let mut payload = checked_hrpstring.fe32_iter::<&mut dyn Iterator<Item = u8>>();
 
-        let version = payload.nth(0).into_iter().collect::<Vec<_>>()[0].to_u8();
+        let version = payload
+            .next()
+            .ok_or(VersionError::WrongPayloadLength)?
+            .to_u8();
         let data = payload.fes_to_bytes().collect::<Vec<u8>>();
         let keys = match version {
             0 => {
-- 
2.43.0


From e0444327ee66b6a136133061f127763184decbac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 02/40] fix: reject silent payment codes with invalid bech32m
 padding

Bytes are recovered from 5 bits groups as BIP 173 mandates: any
incomplete group at the end must be 4 bits or less and all zeroes.
Otherwise several strings parse to the very same code.
---
 silentpayments/src/encoding/error.rs |  3 +++
 silentpayments/src/encoding/mod.rs   | 13 ++++++++++++-
 2 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/encoding/error.rs b/silentpayments/src/encoding/error.rs
index 9d4bff5..b269fc3 100644
--- a/silentpayments/src/encoding/error.rs
+++ b/silentpayments/src/encoding/error.rs
@@ -87,6 +87,8 @@ pub enum VersionError {
     BackwardIncompatibleVersion,
     /// The length of the payload doesn't match the version of the code
     WrongPayloadLength,
+    /// The payload is not padded with at most 4 zero bits
+    InvalidPadding,
 }
 
 impl core::fmt::Display for VersionError {
@@ -98,6 +100,7 @@ impl core::fmt::Display for VersionError {
                 write!(f, "version 31 codes are not backward compatible")
             }
             WrongPayloadLength => write!(f, "payload length does not match version spec"),
+            InvalidPadding => write!(f, "payload padding must be 4 bits or less and all zeroes"),
         }
     }
 }
diff --git a/silentpayments/src/encoding/mod.rs b/silentpayments/src/encoding/mod.rs
index 53c3846..90e8c91 100644
--- a/silentpayments/src/encoding/mod.rs
+++ b/silentpayments/src/encoding/mod.rs
@@ -330,7 +330,18 @@ impl TryFrom<&str> for SilentPaymentCode {
             .next()
             .ok_or(VersionError::WrongPayloadLength)?
             .to_u8();
-        let data = payload.fes_to_bytes().collect::<Vec<u8>>();
+        let payload = payload.collect::<Vec<Fe32>>();
+        let padding_len = payload.len() * 5 % 8;
+        let padding_mask = (1u8 << padding_len) - 1;
+        // BIP 173: Any incomplete group at the end MUST be 4 bits or less, MUST be all zeroes
+        if padding_len > 4
+            || payload
+                .last()
+                .is_some_and(|fe| fe.to_u8() & padding_mask != 0)
+        {
+            return Err(VersionError::InvalidPadding)?;
+        }
+        let data = payload.into_iter().fes_to_bytes().collect::<Vec<u8>>();
         let keys = match version {
             0 => {
                 if data.len() != 66 {
-- 
2.43.0


From 9e609c73eec35dc8441c57aaad10578b647b5924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 03/40] fix: don't panic tagging a P2TR input with a short
 control block

The witness of an input is third party data and nothing guarantees the
last element is 33 bytes or longer.
---
 silentpayments/src/lib.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/lib.rs b/silentpayments/src/lib.rs
index 8df3a80..58be70a 100644
--- a/silentpayments/src/lib.rs
+++ b/silentpayments/src/lib.rs
@@ -52,7 +52,9 @@ pub fn tag_txin(txin: &TxIn, script_pubkey: &ScriptBuf) -> Option<SpInputs> {
                     .then(|| {
                         txin.witness
                             .taproot_control_block()
-                            .filter(|control_block| control_block[1..33] == NUMS_H)
+                            .filter(|control_block| {
+                                control_block.get(1..33) == Some(NUMS_H.as_slice())
+                            })
                             // if P2TR has no internal key return None
                             .map_or(Some(Tr), |_| None)
                     })
-- 
2.43.0


From 035763c4a10c4ee5d1df0d222cf0bd208e6a2d6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 04/40] fix: only fail partial secret creation if the total sum
 of keys is zero

An intermediate sum equal to zero made the sender refuse (depending on
the order of the inputs) a transaction the receiver is able to scan.
---
 silentpayments/src/send/mod.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/silentpayments/src/send/mod.rs b/silentpayments/src/send/mod.rs
index fc4e345..dd5c93c 100644
--- a/silentpayments/src/send/mod.rs
+++ b/silentpayments/src/send/mod.rs
@@ -45,12 +45,17 @@ pub fn create_silentpayment_partial_secret(
         return Err(SpSendError::MissingInputsForSharedSecretDerivation);
     }
 
-    // Use first derived_secret key to initialize a_sum
-    let mut a_sum = available_keys[0];
-    // Then skip first element to avoid reuse
+    // NOTE: A secret key cannot be zero, so `None` stands for a partial sum equal to zero. Only the
+    // total sum matters, some keys may cancel each other before adding the remaining ones.
+    let mut maybe_a_sum = Some(available_keys[0]);
     for sk in available_keys.iter().skip(1) {
-        a_sum = a_sum.add_tweak(&Scalar::from(*sk))?;
+        maybe_a_sum = match maybe_a_sum {
+            Some(a_sum) if a_sum == sk.negate() => None,
+            Some(a_sum) => Some(a_sum.add_tweak(&Scalar::from(*sk))?),
+            None => Some(*sk),
+        };
     }
+    let a_sum = maybe_a_sum.ok_or(bitcoin::secp256k1::Error::InvalidTweak)?;
 
     #[allow(non_snake_case)]
     let A_sum = a_sum.public_key(&secp);
-- 
2.43.0


From dce9ec1d111a590ed3f3e40c127d8d4d65e93128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:02 +0000
Subject: [PATCH 05/40] fix: don't apply the taproot tweak to keys of non
 taproot inputs

XprivSilentPaymentSender tweaked the private key of P2PKH, P2WPKH and
P2SH-P2WPKH inputs too, so the derived outputs couldn't be found by the
receiver.
---
 silentpayments/src/send/bip32.rs | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/silentpayments/src/send/bip32.rs b/silentpayments/src/send/bip32.rs
index bb00940..b1f3404 100644
--- a/silentpayments/src/send/bip32.rs
+++ b/silentpayments/src/send/bip32.rs
@@ -35,21 +35,26 @@ impl XprivSilentPaymentSender {
             lex_min.update(outpoint);
 
             let bip32_privkey = self.xpriv.derive_priv(&secp, &derivation_path)?;
-            let mut internal_privkey = bip32_privkey.private_key;
-            let (x_only_internal, parity) = internal_privkey.x_only_public_key(&secp);
+            let mut input_privkey = bip32_privkey.private_key;
 
-            if let Parity::Odd = parity {
-                internal_privkey = internal_privkey.negate();
-            }
+            // NOTE: Only taproot output keys commit to the taproot tweak, for any other script the
+            // key is used as is
+            if spk.is_p2tr() {
+                let (x_only_internal, parity) = input_privkey.x_only_public_key(&secp);
+
+                if let Parity::Odd = parity {
+                    input_privkey = input_privkey.negate();
+                }
 
-            let tap_tweak = TapTweakHash::from_key_and_tweak(x_only_internal, None);
+                let tap_tweak = TapTweakHash::from_key_and_tweak(x_only_internal, None);
 
-            // NOTE: The parity of the external privkey will be checked on the
-            // create_silentpayment_partial_secret function
-            let external_privkey = internal_privkey.add_tweak(&tap_tweak.to_scalar())
-                .expect("computationally unreachable: can only fail if tap_tweak = -internal_privkey, but tap_tweak is the output of a hash function");
+                // NOTE: The parity of the external privkey will be checked on the
+                // create_silentpayment_partial_secret function
+                input_privkey = input_privkey.add_tweak(&tap_tweak.to_scalar())
+                    .expect("computationally unreachable: can only fail if tap_tweak = -internal_privkey, but tap_tweak is the output of a hash function");
+            }
 
-            spks_with_keys.push((spk.clone(), external_privkey));
+            spks_with_keys.push((spk.clone(), input_privkey));
         }
 
         let partial_secret =
-- 
2.43.0


From cbc8810c766446465d5a33c05aeeb40b41a1dc55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 06/40] fix: keep the script sig of PSBT inputs which also have
 a witness

P2SH-P2WPKH inputs were never tagged as eligible for shared secret
derivation because their final script sig was dropped, so the derived
outputs couldn't be found by the receiver.
---
 silentpayments/src/send/psbt/mod.rs | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 56c8a34..605c1bb 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -327,19 +327,20 @@ fn get_prevout_script(psbt_input: &psbt::Input, txin: &TxIn) -> Result<ScriptBuf
 /// Returns a complete [`TxIn`] with witness or script_sig populated, or a [`SpSendError`] if
 /// neither final witness nor script_sig is available.
 fn build_full_txin(txin: &TxIn, psbt_input: &psbt::Input) -> Result<TxIn, SpSendError> {
+    if psbt_input.final_script_witness.is_none() && psbt_input.final_script_sig.is_none() {
+        return Err(SpSendError::MissingWitness);
+    }
+
+    // NOTE: P2SH-P2WPKH inputs have both, and both are needed to extract their public key
+    let mut full_txin = txin.clone();
     if let Some(ref witness) = psbt_input.final_script_witness {
-        Ok(TxIn {
-            witness: witness.clone(),
-            ..txin.clone()
-        })
-    } else if let Some(ref script_sig) = psbt_input.final_script_sig {
-        Ok(TxIn {
-            script_sig: script_sig.clone(),
-            ..txin.clone()
-        })
-    } else {
-        Err(SpSendError::MissingWitness)
+        full_txin.witness = witness.clone();
+    }
+    if let Some(ref script_sig) = psbt_input.final_script_sig {
+        full_txin.script_sig = script_sig.clone();
     }
+
+    Ok(full_txin)
 }
 
 #[cfg(not(feature = "psbt_sp_spend"))]
-- 
2.43.0


From ca3ac53c524eaef201ea7139390ef4f0ea3f76ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:56:00 +0000
Subject: [PATCH 07/40] fix: don't consume derivations for recipients without
 PSBT outputs

A recipient sharing its scan key with another one, but without a
placeholder output, left a gap in the derivations of the transaction.
The receiver stops at the gap and cannot find the remaining outputs.
---
 silentpayments/src/send/psbt/mod.rs | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 605c1bb..e8cc0ee 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -199,7 +199,22 @@ where
 
     let partial_secret =
         create_silentpayment_partial_secret(&lex_min_outpoint, &scripts_with_secrets)?;
-    let silent_payments = create_silentpayment_scriptpubkeys(partial_secret, recipients);
+
+    // NOTE: The receiver stops scanning at the first derivation it cannot find in the transaction,
+    // so recipients without outputs shouldn't consume derivations
+    let recipients_with_outputs = recipients
+        .iter()
+        .filter(|sp_code| {
+            let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
+            psbt.unsigned_tx
+                .output
+                .iter()
+                .any(|txout| txout.script_pubkey == placeholder_spk)
+        })
+        .cloned()
+        .collect::<Vec<SilentPaymentCode>>();
+    let silent_payments =
+        create_silentpayment_scriptpubkeys(partial_secret, &recipients_with_outputs);
 
     update_outputs(psbt, &silent_payments)?;
 
-- 
2.43.0


From b8c6ebfeb177b672aa0c8c2413b07c15744410da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:02 +0000
Subject: [PATCH 08/40] fix: require the right key for every eligible PSBT
 input

Inputs whose key was unknown to the key provider were skipped and the key
of non taproot inputs wasn't checked against the public key they reveal.
The receiver adds up the public keys of all the eligible inputs, so in
both cases the derived outputs couldn't be found. Report KeyError.
---
 silentpayments/src/send/psbt/mod.rs | 45 ++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 14 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index e8cc0ee..e25ef67 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -249,6 +249,8 @@ where
     let mut data_for_partial_secret = DataForPartialSecret::default();
     let mut lex_min = LexMin::default();
 
+    let mut missing_keys = false;
+
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
 
@@ -256,24 +258,36 @@ where
             Some(secret)
         } else {
             let full_txin = build_full_txin(txin, psbt_input)?;
-            extract_pubkey(full_txin.clone(), &prevout)
-                .map(|pubkey_data| match pubkey_data {
-                    (SpInputs::Tr, even_tr_output_key) => {
-                        match get_taproot_secret(psbt_input, k, secp) {
-                            Ok(Some(secret)) => {
-                                let (xonly, _) = secret.x_only_public_key(secp);
-                                if even_tr_output_key == xonly.public_key(Parity::Even) {
-                                    Ok(Some(secret))
-                                } else {
-                                    Err(SpSendError::KeyError)
+            extract_pubkey(full_txin, &prevout)
+                .map(|(tag, pubkey)| {
+                    let secret = match tag {
+                        SpInputs::Tr => get_taproot_secret(psbt_input, k, secp),
+                        _ => get_non_taproot_secret(psbt_input, k, secp),
+                    }
+                    .map_err(|_| SpSendError::KeyError)?;
+
+                    match secret {
+                        Some(secret) => {
+                            let secret_pubkey = secret.public_key(secp);
+                            // NOTE: The parity of taproot output keys is unknown
+                            let is_input_key = match tag {
+                                SpInputs::Tr => {
+                                    secret_pubkey.x_only_public_key().0
+                                        == pubkey.x_only_public_key().0
                                 }
+                                _ => secret_pubkey == pubkey,
+                            };
+                            if is_input_key {
+                                Ok(Some(secret))
+                            } else {
+                                Err(SpSendError::KeyError)
                             }
-                            Ok(None) => Ok(None),
-                            Err(_) => Err(SpSendError::KeyError),
+                        }
+                        None => {
+                            missing_keys = true;
+                            Ok(None)
                         }
                     }
-                    _ => get_non_taproot_secret(psbt_input, k, secp)
-                        .map_err(|_| SpSendError::KeyError),
                 })
                 .transpose()?
                 .flatten()
@@ -290,6 +304,9 @@ where
 
     if data_for_partial_secret.scripts_with_secrets.is_empty() {
         Err(SpSendError::MissingInputsForSharedSecretDerivation)
+    } else if missing_keys {
+        // NOTE: The receiver adds up the public keys of all the eligible inputs
+        Err(SpSendError::KeyError)
     } else {
         data_for_partial_secret.lex_min_outpoint = lex_min
             .bytes()
-- 
2.43.0


From 62b1d6395d6d90e4fc984b6aa90c41946be93e7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:02 +0000
Subject: [PATCH 09/40] fix: leave the PSBT untouched when silent payment
 derivation fails

Outputs of some recipients were already replaced when the number of
outputs of another one didn't match, and replaced placeholders cannot be
derived again.
---
 silentpayments/src/send/psbt/mod.rs | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index e25ef67..f064c12 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -566,6 +566,9 @@ fn update_outputs(
         map
     };
 
+    // NOTE: Check all the recipients before updating any output, so the PSBT is left untouched on
+    // error
+    let mut updates = <Vec<(usize, XOnlyPublicKey)>>::new();
     for (sp_code, x_only_pks) in silent_payments.iter() {
         let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
 
@@ -574,19 +577,21 @@ fn update_outputs(
                 Ordering::Greater => return Err(SpSendError::MissingDerivations),
                 Ordering::Less => return Err(SpSendError::MissingOutputs),
                 Ordering::Equal => {
-                    for (idx, xonly_pk) in indexes.iter().zip(x_only_pks) {
-                        let x_only_tweaked = TweakedPublicKey::dangerous_assume_tweaked(*xonly_pk);
-                        let value = psbt.unsigned_tx.output[*idx].value;
-
-                        psbt.unsigned_tx.output[*idx] = TxOut {
-                            script_pubkey: ScriptBuf::new_p2tr_tweaked(x_only_tweaked),
-                            value,
-                        };
-                    }
+                    updates.extend(indexes.iter().copied().zip(x_only_pks.iter().copied()));
                 }
             }
         }
     }
 
+    for (idx, xonly_pk) in updates {
+        let x_only_tweaked = TweakedPublicKey::dangerous_assume_tweaked(xonly_pk);
+        let value = psbt.unsigned_tx.output[idx].value;
+
+        psbt.unsigned_tx.output[idx] = TxOut {
+            script_pubkey: ScriptBuf::new_p2tr_tweaked(x_only_tweaked),
+            value,
+        };
+    }
+
     Ok(())
 }
-- 
2.43.0


From 28d99cceea8ba3521393a324e0cc7a3c6b6b5c4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:57 +0000
Subject: [PATCH 10/40] fix: don't panic on malformed silent payment data of
 PSBT inputs

Proprietary fields are third party data: keys and tweaks which cannot be
parsed, or don't match the output being spent, are skipped. sign_sp also
panicked if any other input only had a non witness UTXO.
---
 silentpayments/src/send/psbt/mod.rs  | 27 +---------
 silentpayments/src/send/psbt/sign.rs | 75 +++++++++++++++++-----------
 2 files changed, 46 insertions(+), 56 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index f064c12..9582143 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -16,9 +16,6 @@ use bitcoin::{
     PrivateKey, Psbt, ScriptBuf, TapLeafHash, TapTweakHash, TxIn, TxOut, XOnlyPublicKey,
 };
 
-#[cfg(feature = "psbt_sp_spend")]
-use bitcoin::secp256k1::{PublicKey, Scalar};
-
 use std::{
     cmp::Ordering,
     collections::{BTreeMap, HashMap},
@@ -396,29 +393,7 @@ where
 {
     for (key, value) in psbt_input.proprietary.clone() {
         if key.prefix == b"bip352".to_vec() && key.subtype == sign::SPEND_PK_SUBTYPE {
-            let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-            let mut scalar = [0u8; 32];
-            scalar.clone_from_slice(value.as_slice());
-
-            let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-            let output_key = if let Some(txout) = &psbt_input.witness_utxo {
-                XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                    .expect("p2tr script")
-            } else {
-                continue;
-            };
-            let tweaked_spend_pk = spend_pk
-                .add_exp_tweak(secp, &tweak)
-                .expect("will fix later");
-            let spend_sk = if let Ok(Some(sk)) =
-                k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
-            {
-                sk
-            } else {
-                continue;
-            };
-            if tweaked_spend_pk.x_only_public_key().0 == output_key {
-                let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
+            if let Some(sk) = sign::get_spend_secret(psbt_input, &key.key, &value, k, secp) {
                 return Ok(Some(sk));
             }
         }
diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index a209e61..3732be9 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -1,7 +1,7 @@
 use bitcoin::{
     key::{Keypair, Secp256k1, Verification},
-    psbt::{raw::ProprietaryKey, GetKey, KeyRequest},
-    secp256k1::{Message, PublicKey, Scalar, Signing},
+    psbt::{self, raw::ProprietaryKey, GetKey, KeyRequest},
+    secp256k1::{Message, PublicKey, Scalar, SecretKey, Signing},
     sighash::{Prevouts, SighashCache},
     taproot::Signature,
     Psbt, TapSighashType, TxOut, XOnlyPublicKey,
@@ -29,6 +29,39 @@ pub fn add_sp_data_to_input(
     }
 }
 
+/// Get the secret key of a silent payment output from the silent payment data of the [`Psbt`] input
+/// spending it.
+///
+/// [`Psbt`] data comes from third parties: returns `None` if it is malformed, if it doesn't match
+/// the output being spent or if the key provider doesn't have the spend secret key.
+pub(super) fn get_spend_secret<C, K>(
+    psbt_input: &psbt::Input,
+    spend_pk: &[u8],
+    tweak: &[u8],
+    k: &K,
+    secp: &Secp256k1<C>,
+) -> Option<SecretKey>
+where
+    C: Signing + Verification,
+    K: GetKey,
+{
+    let script_pubkey = &psbt_input.witness_utxo.as_ref()?.script_pubkey;
+    if !script_pubkey.is_p2tr() {
+        return None;
+    }
+    let output_key = XOnlyPublicKey::from_slice(&script_pubkey.as_bytes()[2..]).ok()?;
+
+    let spend_pk = PublicKey::from_slice(spend_pk).ok()?;
+    let tweak = Scalar::from_be_bytes(tweak.try_into().ok()?).ok()?;
+    let spend_sk = k
+        .get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
+        .ok()??;
+
+    let sk = spend_sk.inner.add_tweak(&tweak).ok()?;
+
+    (sk.x_only_public_key(secp).0 == output_key).then_some(sk)
+}
+
 pub fn sign_sp<C, K>(psbt: &mut Psbt, k: &K, secp: &Secp256k1<C>)
 where
     C: Signing + Verification,
@@ -40,36 +73,19 @@ where
     for i in 0..psbt.inputs.len() {
         for (key, value) in psbt.inputs[i].proprietary.clone() {
             if key.prefix == b"bip352".to_vec() && key.subtype == self::SPEND_PK_SUBTYPE {
-                let spend_pk = PublicKey::from_slice(&key.key).expect("will fix later");
-                let mut scalar = [0u8; 32];
-                scalar.clone_from_slice(value.as_slice());
-
-                let tweak = Scalar::from_be_bytes(scalar).expect("will fix later");
-                let output_key = if let Some(txout) = &psbt.inputs[i].witness_utxo {
-                    XOnlyPublicKey::from_slice(&txout.script_pubkey.as_bytes()[2..])
-                        .expect("p2tr script")
-                } else {
+                let Some(sk) = get_spend_secret(&psbt.inputs[i], &key.key, &value, k, secp) else {
                     continue;
                 };
-                let tweaked_spend_pk = spend_pk
-                    .add_exp_tweak(secp, &tweak)
-                    .expect("will fix later");
-                let spend_sk = if let Ok(Some(sk)) =
-                    k.get_key(KeyRequest::Pubkey(bitcoin::PublicKey::new(spend_pk)), secp)
-                {
-                    sk
-                } else {
-                    continue;
-                };
-                if psbt.inputs[i].tap_key_sig.is_none()
-                    && tweaked_spend_pk.x_only_public_key().0 == output_key
-                {
+                if psbt.inputs[i].tap_key_sig.is_none() {
                     let sighash_type = TapSighashType::Default;
-                    let prevouts = psbt
-                        .inputs
-                        .iter()
-                        .map(|x| x.witness_utxo.clone().unwrap())
-                        .collect::<Vec<TxOut>>();
+                    // The signature commits to the previous outputs of all the inputs
+                    let Ok(prevouts) = psbt
+                        .iter_funding_utxos()
+                        .map(|maybe_txout| maybe_txout.cloned())
+                        .collect::<Result<Vec<TxOut>, _>>()
+                    else {
+                        continue;
+                    };
                     let prevouts = Prevouts::All(&prevouts);
 
                     let sighash = cache
@@ -79,7 +95,6 @@ where
                     // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
                     let msg = Message::from(sighash);
 
-                    let sk = spend_sk.inner.add_tweak(&tweak).expect("will fix later");
                     let keypair = Keypair::from_secret_key(secp, &sk);
 
                     let signature = secp.sign_schnorr_no_aux_rand(&msg, &keypair);
-- 
2.43.0


From d39d8fec9afb88479b533991c9ac8bf713b72ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:29 +0000
Subject: [PATCH 11/40] fix: refuse transactions spending unknown segwit
 versions

BIP 352: a transaction spending an output with a segwit version greater
than 1 isn't a silent payment transaction. Receivers following the
specification don't scan it, so senders mustn't create it.
---
 silentpayments/src/lib.rs           | 12 +++++++++++-
 silentpayments/src/receive/mod.rs   |  7 ++++++-
 silentpayments/src/send/error.rs    |  4 ++++
 silentpayments/src/send/psbt/mod.rs |  8 +++++++-
 4 files changed, 28 insertions(+), 3 deletions(-)

diff --git a/silentpayments/src/lib.rs b/silentpayments/src/lib.rs
index 58be70a..76c5efa 100644
--- a/silentpayments/src/lib.rs
+++ b/silentpayments/src/lib.rs
@@ -2,7 +2,7 @@
 use bitcoin::{
     hashes::Hash,
     secp256k1::{ecdh::shared_secret_point, PublicKey, SecretKey},
-    OutPoint, ScriptBuf, TxIn,
+    OutPoint, ScriptBuf, TxIn, WitnessVersion,
 };
 
 pub mod encoding;
@@ -68,6 +68,16 @@ pub fn tag_txin(txin: &TxIn, script_pubkey: &ScriptBuf) -> Option<SpInputs> {
     }
 }
 
+/// Whether the script has a segwit version greater than 1.
+///
+/// BIP 352: a transaction spending an output with a segwit version greater than 1 is not a silent
+/// payment transaction.
+pub(crate) fn is_future_segwit(script_pubkey: &ScriptBuf) -> bool {
+    script_pubkey
+        .witness_version()
+        .is_some_and(|version| version > WitnessVersion::V1)
+}
+
 #[derive(Debug)]
 pub enum LexMinError {
     NoMinOutpoint,
diff --git a/silentpayments/src/receive/mod.rs b/silentpayments/src/receive/mod.rs
index eb03d89..51b6978 100644
--- a/silentpayments/src/receive/mod.rs
+++ b/silentpayments/src/receive/mod.rs
@@ -1,7 +1,7 @@
 pub use self::error::SpReceiveError;
 use crate::{
     hashes::{get_input_hash, get_shared_secret},
-    tag_txin, LexMin, SpInputs,
+    is_future_segwit, tag_txin, LexMin, SpInputs,
 };
 
 use bitcoin::{
@@ -247,6 +247,11 @@ pub fn compute_tweak_data(
     let mut input_pubkeys = <Vec<PublicKey>>::new();
     let mut lex_min = LexMin::default();
     for (txin, prevout) in tx.input.iter().zip(prevouts) {
+        if is_future_segwit(&prevout.script_pubkey) {
+            return Err(SpReceiveError::PubKeyExtractionError(
+                "spends an output with a segwit version greater than 1",
+            ));
+        }
         lex_min.update(&txin.previous_output);
         // NOTE: Public keys which couldn't be extracted will be ignored
         if let Some((_, key)) = extract_pubkey(txin.clone(), &prevout.script_pubkey) {
diff --git a/silentpayments/src/send/error.rs b/silentpayments/src/send/error.rs
index 235ec50..8fc3304 100644
--- a/silentpayments/src/send/error.rs
+++ b/silentpayments/src/send/error.rs
@@ -22,6 +22,9 @@ pub enum SpSendError {
     MissingDerivations,
     /// There are not enough outputs for the silent payments derived
     MissingOutputs,
+    /// An input spends an output with a segwit version greater than 1, receivers don't scan such
+    /// transactions
+    UnsupportedSegwitVersion,
 }
 
 impl From<crate::LexMinError> for SpSendError {
@@ -63,6 +66,7 @@ impl std::fmt::Display for SpSendError {
             ),
             Self::MissingDerivations => write!(f, "From PSBT, there are not enough silent payment derivations for all targeted outputs"),
             Self::MissingOutputs => write!(f, "From PSBT, there are not enough outputs for the silent payments derived"),
+            Self::UnsupportedSegwitVersion => write!(f, "From PSBT, silent payment transactions cannot spend outputs with a segwit version greater than 1"),
             Self::MissingPrevout => write!(f, "From PSBT, unable to extract prevout script pubkey"),
             Self::MissingPlaceholderScript => write!(f, "From PSBT, missing placeholder script pubkey for associated silent payment recipient."),
         }
diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 9582143..a92a7d9 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -7,7 +7,9 @@
 use super::{
     create_silentpayment_partial_secret, create_silentpayment_scriptpubkeys, error::SpSendError,
 };
-use crate::{encoding::SilentPaymentCode, receive::extract_pubkey, LexMin, SpInputs};
+use crate::{
+    encoding::SilentPaymentCode, is_future_segwit, receive::extract_pubkey, LexMin, SpInputs,
+};
 use bitcoin::{
     bip32::KeySource,
     key::{Parity, Secp256k1, TweakedPublicKey, Verification},
@@ -73,6 +75,7 @@ impl Default for DataForPartialSecret {
 /// # Errors
 ///
 /// * [`SpSendError::MissingInputsForSharedSecretDerivation`] - No usable inputs found for derivation
+/// * [`SpSendError::UnsupportedSegwitVersion`] - An input spends an unknown segwit version
 /// * [`SpSendError::KeyError`] - Failed to retrieve required private keys
 /// * [`SpSendError::MissingDerivations`] - Insufficient derivations for placeholder outputs
 /// * [`SpSendError::MissingOutputs`] - Insufficient outputs for derived keys
@@ -250,6 +253,9 @@ where
 
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
         let prevout = get_prevout_script(psbt_input, txin)?;
+        if is_future_segwit(&prevout) {
+            return Err(SpSendError::UnsupportedSegwitVersion);
+        }
 
         let maybe_secret_key = if let Ok(Some(secret)) = get_sp_secret(psbt_input, k, secp) {
             Some(secret)
-- 
2.43.0


From c426619577bab395b5c4fb5cc024bf600bfa00e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:10:41 +0000
Subject: [PATCH 12/40] fix: derive for taproot PSBT inputs whose leaf keys are
 known too

The key of the first known key origin was used to compute the output
key, even if that key belonged to a script leaf. Use the internal key
when the PSBT input tells it.
---
 silentpayments/src/send/psbt/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index a92a7d9..705c92b 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -462,6 +462,12 @@ where
     psbt_input
         .tap_key_origins
         .iter()
+        // The output key is derived from the internal key, any other key belongs to a script leaf
+        .filter(|(xonly, _)| {
+            psbt_input
+                .tap_internal_key
+                .map_or(true, |internal_key| **xonly == internal_key)
+        })
         .find_map(|key_origin| match try_tr_keys(key_origin) {
             Ok(Some(private_key)) => Some(Ok(get_taproot_output_key(private_key))),
             Ok(None) => None,
-- 
2.43.0


From 154c779739c934ace971c9e49c8350accd68c799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 13/40] fix: don't panic indexing transactions without a shared
 secret

Any transaction without inputs eligible for shared secret derivation made
SpIndexer::index_tx panic.
---
 indexer/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/indexer/src/lib.rs b/indexer/src/lib.rs
index 85d735e..814b304 100644
--- a/indexer/src/lib.rs
+++ b/indexer/src/lib.rs
@@ -179,10 +179,11 @@ impl<A: bdk_chain::Anchor, T: PrevoutSource> SpIndexer<T, A> {
     pub fn index_tx(&mut self, tx: &Transaction) -> Result<tx_graph::ChangeSet<A>, SpReceiveError> {
         let prevouts = self.prevout_source.get_tx_prevouts(tx);
         let txid = tx.compute_txid();
-        let ecdh_shared_secret = self
-            .scanner
-            .get_shared_secret(tx, &prevouts)
-            .expect("infallible");
+        // NOTE: Most transactions aren't silent payments: there is nothing to find if there are no
+        // eligible inputs or a malicious sender crafted the input keys to cancel themselves
+        let Ok(ecdh_shared_secret) = self.scanner.get_shared_secret(tx, &prevouts) else {
+            return Ok(tx_graph::ChangeSet::default());
+        };
 
         let spouts = self.scanner.scan_txouts(tx, ecdh_shared_secret)?;
 
-- 
2.43.0


From 00a36c47c9b5f8a60918063d3345f047746e8bd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 14/40] fix: don't report change sets with keys as empty

The initial change set of a new SpIndexerV2 only has keys. Reported as
empty it was skipped by whoever persists change sets, and without keys
the indexer cannot be restored.
---
 indexer/src/v2/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/indexer/src/v2/mod.rs b/indexer/src/v2/mod.rs
index 46681a6..384199c 100644
--- a/indexer/src/v2/mod.rs
+++ b/indexer/src/v2/mod.rs
@@ -437,7 +437,9 @@ impl<A: Ord> Merge for ChangeSet<A> {
     }
 
     fn is_empty(&self) -> bool {
-        self.txid_to_partial_secret.is_empty()
+        self.scan_sk.is_none()
+            && self.spend_pk.is_none()
+            && self.txid_to_partial_secret.is_empty()
             && self.label_lookup.is_empty()
             && self.graph.is_empty()
     }
-- 
2.43.0


From f081f8e69ce480590cd37c7c07143c5eb590dc90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:22 +0000
Subject: [PATCH 15/40] fix: deserialize labels from formats without a native
 bytes type

Labels serialized as JSON couldn't be deserialized back.
---
 indexer/src/v2/indexes.rs | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/indexer/src/v2/indexes.rs b/indexer/src/v2/indexes.rs
index e6c4c8d..9414519 100644
--- a/indexer/src/v2/indexes.rs
+++ b/indexer/src/v2/indexes.rs
@@ -157,6 +157,23 @@ mod scalar_serde {
                 arr.copy_from_slice(v);
                 Ok(arr)
             }
+
+            // Formats without a native bytes type, e.g. JSON, serialize bytes as a sequence
+            fn visit_seq<A>(self, mut seq: A) -> Result<Self::Value, A::Error>
+            where
+                A: de::SeqAccess<'de>,
+            {
+                let mut arr = [0u8; 32];
+                for (i, byte) in arr.iter_mut().enumerate() {
+                    *byte = seq
+                        .next_element()?
+                        .ok_or_else(|| de::Error::invalid_length(i, &self))?;
+                }
+                if seq.next_element::<u8>()?.is_some() {
+                    return Err(de::Error::invalid_length(33, &self));
+                }
+                Ok(arr)
+            }
         }
 
         let bytes = de.deserialize_bytes(Bytes32Visitor)?;
-- 
2.43.0


From e2e86deb03f3ca8dfc60e1dc4dfc7d93b2fe576a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 16/40] fix: queue the filter of the new block after a
 reorganization

---
 oracles/src/filters/kyoto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oracles/src/filters/kyoto.rs b/oracles/src/filters/kyoto.rs
index f48ff40..8b65da1 100644
--- a/oracles/src/filters/kyoto.rs
+++ b/oracles/src/filters/kyoto.rs
@@ -48,7 +48,9 @@ impl DatabaseBuffer {
     }
 
     pub fn push_filter(&mut self, filter: IndexedFilter) -> Option<WriteRange> {
-        self.queue.insert(filter);
+        // NOTE: filters are ordered by height alone, after a reorganization the new filter must
+        // take the place of the one for the stale block
+        self.queue.replace(filter);
         if self.queue.len() > QUEUE_SIZE {
             return Some(self.write_queue());
         }
-- 
2.43.0


From 7d6852747d8fa9e5f686a0b5707ca7795b3df5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 17/40] fix: report matching blocks in the order of the chain

---
 oracles/src/tweaks/blindbit.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 0b77150..d9b8422 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -192,7 +192,8 @@ impl BlindbitSubscriber {
                     }
                 }
             })
-            .buffer_unordered(200);
+            // blocks are indexed in the order of the matches, spends after what they spend
+            .buffered(200);
 
         let read = self.db.lock().unwrap().begin_read().unwrap();
         let table = read.open_table(TABLE_DEF).unwrap();
-- 
2.43.0


From 52446a08711e76d19c55d78c8a0e619087882db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:32 +0000
Subject: [PATCH 18/40] fix: match spends in blocks without tweaks

---
 oracles/src/tweaks/blindbit.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index d9b8422..d93cb04 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -216,11 +216,11 @@ impl BlindbitSubscriber {
                 .collect::<HashMap<[u8; 34], PublicKey>>();
 
             let mut only_spks: Vec<[u8; 34]> = all_spks.clone().into_keys().collect();
-            // unspent script pubkeys can only be present in blocks with tweaks, because they are
-            // by themselves inputs available for shared secret derivation
+            // NOTE: unspent script pubkeys can be present in blocks without tweaks: transactions
+            // spending them to other than taproot outputs have no tweak
             only_spks.extend_from_slice(&self.unspent_script_pubkeys);
 
-            if !all_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
+            if !only_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
                 tracing::info!("Match found for block {hash} at height {height}");
                 self.sender
                     .send(TweakEvent::Matches((hash, all_spks)))
-- 
2.43.0


From b7d0dcc5f06aa5919979b6a350887b9e5d2860c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:34 +0000
Subject: [PATCH 19/40] fix: retry failed tweak requests instead of skipping
 the block

---
 oracles/src/tweaks/blindbit.rs | 26 ++++++++++++++++++++------
 1 file changed, 20 insertions(+), 6 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index d93cb04..48cbc2e 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -1,5 +1,8 @@
 use crate::filters::kyoto::{DatabaseBuffer, FilterEvent, WriteRange, TABLE_DEF};
-use bip157::{tokio::sync::mpsc::UnboundedSender, BlockFilter, BlockHash, UnboundedReceiver};
+use bip157::{
+    tokio::{sync::mpsc::UnboundedSender, time::sleep},
+    BlockFilter, BlockHash, UnboundedReceiver,
+};
 use bitcoin::{
     absolute::Height, hashes::serde::Deserialize, secp256k1::PublicKey, Amount, Network,
 };
@@ -17,6 +20,9 @@ use std::{
     time::Duration,
 };
 
+const RETRY_DELAY_MIN: Duration = Duration::from_millis(100);
+const RETRY_DELAY_MAX: Duration = Duration::from_secs(30);
+
 #[derive(Debug)]
 pub enum BlindbitError {
     Reqwest(reqwest::Error),
@@ -103,7 +109,8 @@ impl BlindbitClient {
             .get(url)
             .query(&[("dustLimit", format!("{}", dust_limit.to_sat()))])
             .send()
-            .await?;
+            .await?
+            .error_for_status()?;
 
         Ok(serde_json::from_str(&res.text().await?)?)
     }
@@ -185,10 +192,17 @@ impl BlindbitSubscriber {
             .map(move |(height, hash)| {
                 let client = client.clone();
                 async move {
-                    if let Ok(tweaks) = client.tweaks(height, Amount::from_sat(1000)).await {
-                        (height, hash, tweaks)
-                    } else {
-                        (height, hash, vec![])
+                    let mut delay = RETRY_DELAY_MIN;
+                    loop {
+                        match client.tweaks(height, Amount::from_sat(1000)).await {
+                            Ok(tweaks) => break (height, hash, tweaks),
+                            // NOTE: without its tweaks payments in the block would go unnoticed
+                            Err(e) => {
+                                tracing::warn!("Failed to get tweaks for block {height}: {e:?}");
+                                sleep(delay).await;
+                                delay = RETRY_DELAY_MAX.min(delay * 2);
+                            }
+                        }
                     }
                 }
             })
-- 
2.43.0


From 096ff6a50311e38da683ad4c4cf1bc720a4422b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:52 +0000
Subject: [PATCH 20/40] fix: report a closed channel when the tip can't be sent

---
 oracles/src/filters/kyoto.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/oracles/src/filters/kyoto.rs b/oracles/src/filters/kyoto.rs
index 8b65da1..5124e1a 100644
--- a/oracles/src/filters/kyoto.rs
+++ b/oracles/src/filters/kyoto.rs
@@ -99,7 +99,9 @@ impl FilterSubscriber {
                         height: tip.height,
                         hash: tip.hash,
                     };
-                    self.sender.send(FilterEvent::Tip(tip)).unwrap();
+                    if self.sender.send(FilterEvent::Tip(tip)).is_err() {
+                        return Err(UpdateError::ChannelClosed);
+                    }
                 }
                 Event::IndexedFilter(filter) => {
                     if filter.height() < self.birthday {
-- 
2.43.0


From a449a61ef867042be22e23d9779998278f6b22c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:42 +0000
Subject: [PATCH 21/40] fix: stop matching without a panic when the receiver of
 matches is gone

---
 oracles/src/tweaks/blindbit.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 48cbc2e..07274d5 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -169,9 +169,12 @@ impl BlindbitSubscriber {
                     self.process_changes(changes).await;
                 }
                 FilterEvent::Tip(tip) => {
-                    self.sender.send(TweakEvent::Synced(tip)).unwrap();
+                    let _ = self.sender.send(TweakEvent::Synced(tip));
                 }
             }
+            if self.sender.is_closed() {
+                return;
+            }
         }
     }
 
@@ -236,9 +239,13 @@ impl BlindbitSubscriber {
 
             if !only_spks.is_empty() && filter.match_any(&hash, only_spks.into_iter()).unwrap() {
                 tracing::info!("Match found for block {hash} at height {height}");
-                self.sender
+                if self
+                    .sender
                     .send(TweakEvent::Matches((hash, all_spks)))
-                    .unwrap();
+                    .is_err()
+                {
+                    return;
+                }
             }
         }
     }
-- 
2.43.0


From f4570fe32ff1f6c4cade8439b2b4c7136358248e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:03 +0000
Subject: [PATCH 22/40] fix: scan spends without taproot outputs and payments
 mined again

---
 cli/v1/src/main.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index a0bc788..e0682d6 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -536,12 +536,19 @@ fn main() -> anyhow::Result<()> {
 
                 let block_id = BlockId { hash, height };
                 for (tx_pos, tx) in txdata.iter().enumerate().skip(1) {
-                    if !tx.output.iter().any(|x| x.script_pubkey.is_p2tr()) {
-                        continue;
-                    }
-                    let tx_graph_stage = sp_indexer.index_tx(tx)?;
-                    if !tx_graph_stage.is_empty() || sp_indexer.spends_owned_spouts(tx) {
-                        let txid = tx.compute_txid();
+                    // NOTE: without taproot outputs a transaction can't be a silent payment, but it
+                    // can still spend one
+                    let tx_graph_stage = if tx.output.iter().any(|x| x.script_pubkey.is_p2tr()) {
+                        sp_indexer.index_tx(tx)?
+                    } else {
+                        tx_graph::ChangeSet::default()
+                    };
+                    let txid = tx.compute_txid();
+                    if !tx_graph_stage.is_empty()
+                        || sp_indexer.spends_owned_spouts(tx)
+                        // NOTE: after a reorganization the transaction may be known already
+                        || sp_indexer.indexes.txouts_in_tx(txid).next().is_some()
+                    {
                         db_stage.tx_graph.merge(tx_graph_stage);
                         let anchor = TxPosInBlock {
                             block,
-- 
2.43.0


From 76fef71b498bd524a9d9870e403e7756cc1d9d07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:25 +0000
Subject: [PATCH 23/40] fix: sign every PSBT input with its own sighash

---
 cli/v1/src/main.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index e0682d6..737d4f5 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -926,12 +926,7 @@ fn main() -> anyhow::Result<()> {
                 .collect::<Vec<TxOut>>();
             let prevouts = Prevouts::All(&prevouts);
 
-            let sighash = SighashCache::new(&mut psbt.unsigned_tx)
-                .taproot_key_spend_signature_hash(0, &prevouts, sighash_type)
-                .expect("failed to construct sighash");
-
-            // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
-            let msg = Message::from(sighash);
+            let mut sighash_cache = SighashCache::new(psbt.unsigned_tx.clone());
 
             for i in 0..psbt.inputs.len() {
                 let psbt_input = &mut psbt.inputs[i];
@@ -941,6 +936,12 @@ fn main() -> anyhow::Result<()> {
                         let keypair = Keypair::from_secret_key(&secp, &sk);
                         let (x_only_internal, _parity) = XOnlyPublicKey::from_keypair(&keypair);
 
+                        let sighash = sighash_cache
+                            .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
+                            .expect("failed to construct sighash");
+
+                        // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
+                        let msg = Message::from(sighash);
                         let signature = secp.sign_schnorr(&msg, &keypair);
 
                         let signature = Signature {
-- 
2.43.0


From 46a05498814e4bb39e532419f012c65fdd8a4027 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:42 +0000
Subject: [PATCH 24/40] fix: refuse PSBTs whose silent payment output can't be
 derived from all inputs

---
 cli/v1/src/main.rs | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index 737d4f5..fd53c27 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -411,6 +411,7 @@ fn main() -> anyhow::Result<()> {
             let mut outputs_and_derivation_paths =
                 <Vec<(OutPoint, (ScriptBuf, DerivationPath))>>::new();
             for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.clone()) {
+                let known_inputs = outputs_and_derivation_paths.len();
                 for (fingerprint, path) in psbt_input
                     .bip32_derivation
                     .values()
@@ -429,6 +430,16 @@ fn main() -> anyhow::Result<()> {
                     };
                     if let Some(spk) = spk {
                         if *fingerprint == master_privkey.fingerprint(&secp) {
+                            let is_single_key = spk.is_p2pkh()
+                                || spk.is_p2wpkh()
+                                || (spk.is_p2tr() && psbt_input.tap_merkle_root.is_none())
+                                || psbt_input
+                                    .redeem_script
+                                    .as_ref()
+                                    .is_some_and(|script| script.is_p2wpkh());
+                            if !is_single_key {
+                                bail!("Cannot create silent payment output from inputs which are not spent with a single key");
+                            }
                             outputs_and_derivation_paths
                                 .push((txin.previous_output, (spk, path.clone())));
                             break;
@@ -437,6 +448,10 @@ fn main() -> anyhow::Result<()> {
                         bail!("Cannot create silentpayemnt output without knowing the script pubkey of the input");
                     }
                 }
+                // NOTE: the script pubkey of a silent payment output depends on all the inputs
+                if outputs_and_derivation_paths.len() == known_inputs {
+                    bail!("Cannot create silent payment output without knowing the keys of all the inputs");
+                }
             }
 
             let mut sp_script_pubkeys =
-- 
2.43.0


From 883176be62fa94b7b8b20d64430ab5fef4845a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:44 +0000
Subject: [PATCH 25/40] fix: keep the amounts of other outputs paying the
 replaced script

---
 cli/v1/src/main.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index fd53c27..d0e8fd9 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -483,7 +483,7 @@ fn main() -> anyhow::Result<()> {
                 .output
                 .into_iter()
                 .map(|x| {
-                    if x.script_pubkey == single_external_txout.script_pubkey {
+                    if x == single_external_txout {
                         // TODO: Generalize for all outputs to replace
                         txouts[0].clone()
                     } else {
-- 
2.43.0


From 2457f33e8c986516108e952fa932d19fc0cb4e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:12 +0000
Subject: [PATCH 26/40] fix: sign silent payment inputs with the sighash type
 they ask for

---
 silentpayments/src/send/psbt/sign.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index 3732be9..116a423 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -4,7 +4,7 @@ use bitcoin::{
     secp256k1::{Message, PublicKey, Scalar, SecretKey, Signing},
     sighash::{Prevouts, SighashCache},
     taproot::Signature,
-    Psbt, TapSighashType, TxOut, XOnlyPublicKey,
+    Psbt, TxOut, XOnlyPublicKey,
 };
 
 pub const SPEND_PK_SUBTYPE: u8 = 0x01;
@@ -77,7 +77,10 @@ where
                     continue;
                 };
                 if psbt.inputs[i].tap_key_sig.is_none() {
-                    let sighash_type = TapSighashType::Default;
+                    // Finalizers refuse signatures of a type other than the one the input asks for
+                    let Ok(sighash_type) = psbt.inputs[i].taproot_hash_ty() else {
+                        continue;
+                    };
                     // The signature commits to the previous outputs of all the inputs
                     let Ok(prevouts) = psbt
                         .iter_funding_utxos()
@@ -88,9 +91,12 @@ where
                     };
                     let prevouts = Prevouts::All(&prevouts);
 
-                    let sighash = cache
-                        .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
-                        .expect("failed to construct sighash");
+                    // There is nothing to sign for SIGHASH_SINGLE without a corresponding output
+                    let Ok(sighash) =
+                        cache.taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
+                    else {
+                        continue;
+                    };
 
                     // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
                     let msg = Message::from(sighash);
-- 
2.43.0


From 3241e23841707f70da6dac43347bc657ac66477b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:33 +0000
Subject: [PATCH 27/40] fix: find silent payment inputs given by their previous
 transaction

---
 silentpayments/src/send/psbt/mod.rs  | 12 +++++++++---
 silentpayments/src/send/psbt/sign.rs | 11 ++++++++---
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index 705c92b..e7b0da6 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -257,7 +257,7 @@ where
             return Err(SpSendError::UnsupportedSegwitVersion);
         }
 
-        let maybe_secret_key = if let Ok(Some(secret)) = get_sp_secret(psbt_input, k, secp) {
+        let maybe_secret_key = if let Ok(Some(secret)) = get_sp_secret(psbt_input, txin, k, secp) {
             Some(secret)
         } else {
             let full_txin = build_full_txin(txin, psbt_input)?;
@@ -379,7 +379,12 @@ fn build_full_txin(txin: &TxIn, psbt_input: &psbt::Input) -> Result<TxIn, SpSend
 }
 
 #[cfg(not(feature = "psbt_sp_spend"))]
-fn get_sp_secret<C, K, E>(_: &psbt::Input, _: &K, _: &Secp256k1<C>) -> Result<Option<SecretKey>, E>
+fn get_sp_secret<C, K, E>(
+    _: &psbt::Input,
+    _: &TxIn,
+    _: &K,
+    _: &Secp256k1<C>,
+) -> Result<Option<SecretKey>, E>
 where
     C: Signing + Verification,
     K: GetKey<Error = E>,
@@ -390,6 +395,7 @@ where
 #[cfg(feature = "psbt_sp_spend")]
 fn get_sp_secret<C, K, E>(
     psbt_input: &psbt::Input,
+    txin: &TxIn,
     k: &K,
     secp: &Secp256k1<C>,
 ) -> Result<Option<SecretKey>, E>
@@ -399,7 +405,7 @@ where
 {
     for (key, value) in psbt_input.proprietary.clone() {
         if key.prefix == b"bip352".to_vec() && key.subtype == sign::SPEND_PK_SUBTYPE {
-            if let Some(sk) = sign::get_spend_secret(psbt_input, &key.key, &value, k, secp) {
+            if let Some(sk) = sign::get_spend_secret(psbt_input, txin, &key.key, &value, k, secp) {
                 return Ok(Some(sk));
             }
         }
diff --git a/silentpayments/src/send/psbt/sign.rs b/silentpayments/src/send/psbt/sign.rs
index 116a423..fe91dd0 100644
--- a/silentpayments/src/send/psbt/sign.rs
+++ b/silentpayments/src/send/psbt/sign.rs
@@ -4,9 +4,11 @@ use bitcoin::{
     secp256k1::{Message, PublicKey, Scalar, SecretKey, Signing},
     sighash::{Prevouts, SighashCache},
     taproot::Signature,
-    Psbt, TxOut, XOnlyPublicKey,
+    Psbt, TxIn, TxOut, XOnlyPublicKey,
 };
 
+use super::get_prevout_script;
+
 pub const SPEND_PK_SUBTYPE: u8 = 0x01;
 
 pub fn add_sp_data_to_input(
@@ -36,6 +38,7 @@ pub fn add_sp_data_to_input(
 /// the output being spent or if the key provider doesn't have the spend secret key.
 pub(super) fn get_spend_secret<C, K>(
     psbt_input: &psbt::Input,
+    txin: &TxIn,
     spend_pk: &[u8],
     tweak: &[u8],
     k: &K,
@@ -45,7 +48,7 @@ where
     C: Signing + Verification,
     K: GetKey,
 {
-    let script_pubkey = &psbt_input.witness_utxo.as_ref()?.script_pubkey;
+    let script_pubkey = get_prevout_script(psbt_input, txin).ok()?;
     if !script_pubkey.is_p2tr() {
         return None;
     }
@@ -73,7 +76,9 @@ where
     for i in 0..psbt.inputs.len() {
         for (key, value) in psbt.inputs[i].proprietary.clone() {
             if key.prefix == b"bip352".to_vec() && key.subtype == self::SPEND_PK_SUBTYPE {
-                let Some(sk) = get_spend_secret(&psbt.inputs[i], &key.key, &value, k, secp) else {
+                let Some(sk) =
+                    get_spend_secret(&psbt.inputs[i], &tx.input[i], &key.key, &value, k, secp)
+                else {
                     continue;
                 };
                 if psbt.inputs[i].tap_key_sig.is_none() {
-- 
2.43.0


From 6bb2429f8538f6e518fa8e80d749bc399af6ced1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 28/40] fix: refuse PSBTs whose previous transactions are not
 those spent

---
 silentpayments/src/send/psbt/mod.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index e7b0da6..d30ac25 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -252,6 +252,16 @@ where
     let mut missing_keys = false;
 
     for (psbt_input, txin) in psbt.inputs.iter().zip(psbt.unsigned_tx.input.iter()) {
+        // NOTE: The receiver looks at the output being spent, other data would derive other outputs
+        if let Some(tx) = &psbt_input.non_witness_utxo {
+            let txout = tx.output.get(txin.previous_output.vout as usize);
+            let contradicts =
+                psbt_input.witness_utxo.is_some() && psbt_input.witness_utxo.as_ref() != txout;
+            if tx.compute_txid() != txin.previous_output.txid || contradicts {
+                return Err(SpSendError::MissingPrevout);
+            }
+        }
+
         let prevout = get_prevout_script(psbt_input, txin)?;
         if is_future_segwit(&prevout) {
             return Err(SpSendError::UnsupportedSegwitVersion);
-- 
2.43.0


From 52a2f7a0ba3073ab0a819b83c2cccfef88d20dcb Mon Sep 17 00:00:00 2001
From: verif <a@b.c>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 29/40] fix: don't wait forever for a silent tweak server

---
 oracles/src/tweaks/blindbit.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/oracles/src/tweaks/blindbit.rs b/oracles/src/tweaks/blindbit.rs
index 07274d5..5670234 100644
--- a/oracles/src/tweaks/blindbit.rs
+++ b/oracles/src/tweaks/blindbit.rs
@@ -72,7 +72,10 @@ pub struct BlindbitClient {
 impl BlindbitClient {
     pub fn new(host_url: String) -> Result<Self, BlindbitError> {
         let mut host_url = Url::parse(&host_url)?;
-        let client = Client::new();
+        // A server which stops answering would stall the scan forever
+        let client = Client::builder()
+            .read_timeout(Duration::from_secs(30))
+            .build()?;
 
         // we need a trailing slash, if not present we append it
         if !host_url.path().ends_with('/') {
-- 
2.43.0


From 9273a31999b3cb9c653b6a7056b29ba0010d1e82 Mon Sep 17 00:00:00 2001
From: verif <a@b.c>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 30/40] fix: scan all the blocks of a reorganization in cli v2

---
 cli/v2/src/main.rs | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 2a31fcd..e29cb01 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -479,13 +479,14 @@ async fn main() -> anyhow::Result<()> {
         }
         Commands::ScanRpc { rpc_args } => {
             let rpc_client = rpc_args.new_client()?;
-            let start_height = if wallet.birthday.height <= wallet.chain().tip().height() {
-                wallet.chain().tip().height()
-            } else {
-                wallet.birthday.height
-            };
+            // NOTE: The emitter starts right after the last block of the wallet in the best chain.
+            // Starting from the tip of the wallet would skip blocks if it has been reorganized
+            let start_height = wallet.birthday.height;
 
-            tracing::info!("Synchronizing from block height {}", start_height);
+            tracing::info!(
+                "Synchronizing from block height {}",
+                start_height.max(wallet.chain().tip().height())
+            );
 
             let mut emitter = Emitter::new(
                 &rpc_client,
-- 
2.43.0


From f2be4f7b49804c759e433bb309a54a71e076c9c1 Mon Sep 17 00:00:00 2001
From: verif <a@b.c>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 31/40] fix: don't skip transactions whose previous outputs
 can't be fetched in cli v2

---
 cli/v2/src/main.rs | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index e29cb01..b6f4c02 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -253,7 +253,7 @@ async fn main() -> anyhow::Result<()> {
                 bail!("Should provide a txid to request tx or the serialized tx")
             };
 
-            let partial_secret = get_partial_secret(&rpc_client, &tx).expect("will fix later");
+            let partial_secret = get_partial_secret(&rpc_client, &tx)?.expect("will fix later");
             let ecdh_shared_secret =
                 compute_shared_secret(wallet.indexer().scan_sk(), &partial_secret);
             let maybe_label =
@@ -507,14 +507,12 @@ async fn main() -> anyhow::Result<()> {
                 let block = &emission.block;
                 let Block { ref txdata, .. } = block;
 
-                let partial_secrets: HashMap<Txid, PublicKey> = txdata
-                    .iter()
-                    .skip(1)
-                    .filter_map(|tx| {
-                        get_partial_secret(&rpc_client, tx)
-                            .map(|partial_secret| (tx.compute_txid(), partial_secret))
-                    })
-                    .collect();
+                let mut partial_secrets = HashMap::<Txid, PublicKey>::new();
+                for tx in txdata.iter().skip(1) {
+                    if let Some(partial_secret) = get_partial_secret(&rpc_client, tx)? {
+                        partial_secrets.insert(tx.compute_txid(), partial_secret);
+                    }
+                }
 
                 wallet.apply_block_relevant(block, partial_secrets, height);
 
@@ -821,19 +819,23 @@ pub fn init_or_load(db_magic: &[u8], db_path: &str) -> anyhow::Result<Option<Ini
     }
 }
 
+/// Get the partial secret of a transaction, `None` if it cannot be a silent payment.
+///
+/// # Errors
+///
+/// Fails if the previous outputs cannot be fetched: the transaction may be a silent payment.
 fn get_partial_secret(
     client: &impl RpcApi,
     tx: &Transaction,
-) -> Option<bitcoin::secp256k1::PublicKey> {
+) -> anyhow::Result<Option<bitcoin::secp256k1::PublicKey>> {
     let mut prevouts = <Vec<TxOut>>::new();
     let outpoint_refs = tx.input.iter().map(|x| x.previous_output);
     for OutPoint { txid, vout } in outpoint_refs {
         let prev_tx = client
-            .get_raw_transaction_info(&txid, None)
-            .ok()
-            .and_then(|tx| tx.transaction().ok())?;
-        let prevout = prev_tx.tx_out(vout as usize).ok()?.clone();
+            .get_raw_transaction_info(&txid, None)?
+            .transaction()?;
+        let prevout = prev_tx.tx_out(vout as usize)?.clone();
         prevouts.push(prevout);
     }
-    compute_tweak_data(tx, &prevouts).ok()
+    Ok(compute_tweak_data(tx, &prevouts).ok())
 }
-- 
2.43.0


From bb61e31c311245954b366e95624f32c4472bbeca Mon Sep 17 00:00:00 2001
From: verif <a@b.c>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 32/40] fix: accept codes of signet and testnet4 in cli v2

---
 cli/v2/src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index b6f4c02..cefc374 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -629,8 +629,13 @@ async fn main() -> anyhow::Result<()> {
 
             let mut sp_recipients: Vec<SilentPaymentCode> = vec![wallet.get_change_address()];
             if let Some(sp_codes) = maybe_sp_codes {
+                // NOTE: All test networks but regtest share a prefix, which is parsed as testnet
+                let code_network = match wallet.network() {
+                    Network::Testnet4 | Network::Signet => Network::Testnet,
+                    network => network,
+                };
                 for (sp_code, value) in sp_codes {
-                    if sp_code.network != wallet.network() {
+                    if sp_code.network != code_network {
                         bail!("");
                     }
                     let placeholder_script = sp_code.get_placeholder_p2tr_spk();
-- 
2.43.0


From 86920ba3d0b44cc604b2bc8331ab18b0ac1469d6 Mon Sep 17 00:00:00 2001
From: verif <a@b.c>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 33/40] fix: pay addresses and codes in the same transaction in
 cli v2

---
 cli/v2/src/main.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index cefc374..6c08368 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -188,6 +188,7 @@ pub enum Commands {
     ArgGroup::new("at least one recipient is required")
         .args(["addresses", "sp_codes"])
         .required(true)
+        .multiple(true)
     ))]
     NewTx {
         /// Recipient address
-- 
2.43.0


From 966297a8aa944374719c198844f97b87c119e473 Mon Sep 17 00:00:00 2001
From: verif <a@b.c>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 34/40] fix: keep the birthday merging into an empty change set

---
 wallet/src/lib.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index 5235102..d915979 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -70,6 +70,11 @@ impl Merge for ChangeSet {
     ///
     /// * `other` - The [`ChangeSet`] to merge from.
     fn merge(&mut self, other: Self) {
+        // Change sets other than the first one of a wallet don't have a birthday
+        if self.birthday == BlockId::default() {
+            self.birthday = other.birthday;
+        }
+
         if other.network.is_some() {
             debug_assert!(
                 self.network.is_none() || self.network == other.network,
-- 
2.43.0


From 7b12f9bb4adf19252718079d0e0cfdbf652baa9a Mon Sep 17 00:00:00 2001
From: verif <a@b.c>
Date: Thu, 19 Nov 2026 21:34:26 +0000
Subject: [PATCH 35/40] fix: spend every output paying the same script in the
 wallet

---
 wallet/src/lib.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/wallet/src/lib.rs b/wallet/src/lib.rs
index d915979..9d5b9e8 100644
--- a/wallet/src/lib.rs
+++ b/wallet/src/lib.rs
@@ -7,7 +7,7 @@
 use bdk_sp::{
     bitcoin::{
         absolute::{self, Height, LockTime, Time},
-        secp256k1, Block, ScriptBuf, Transaction, Txid,
+        secp256k1, Block, OutPoint, ScriptBuf, Transaction, Txid,
     },
     encoding::SilentPaymentCode,
 };
@@ -216,6 +216,18 @@ impl SpWallet {
         })
     }
 
+    /// All the outpoints received by the wallet.
+    ///
+    /// There may be several of them for the same script: outputs of a transaction and its
+    /// replacement share it.
+    fn outpoints(&self) -> impl Iterator<Item = ((), OutPoint)> + '_ {
+        self.indexer()
+            .index()
+            .by_shared_secret
+            .keys()
+            .map(|outpoint| ((), *outpoint))
+    }
+
     pub fn unspent_spks(&self) -> Vec<[u8; 34]> {
         let mut unspent_spks = Vec::<ScriptBuf>::new();
         for (_, txout) in self
@@ -224,10 +236,7 @@ impl SpWallet {
                 self.chain(),
                 self.chain().tip().block_id(),
                 CanonicalizationParams::default(),
-                self.indexer()
-                    .index()
-                    .by_xonly()
-                    .map(|(xonly, outpoint)| (xonly, *outpoint)),
+                self.outpoints(),
             )
             .unwrap()
         {
@@ -322,13 +331,13 @@ impl SpWallet {
                 self.chain(),
                 self.chain().tip().block_id(),
                 CanonicalizationParams::default(),
-                self.indexer()
-                    .index()
-                    .by_xonly()
-                    .map(|(xonly, outpoint)| (xonly, *outpoint)),
+                self.outpoints(),
             )
             .unwrap()
-            .filter_map(|(xonly, full_txout)| {
+            .filter_map(|(_, full_txout)| {
+                let xonly =
+                    XOnlyPublicKey::from_slice(&full_txout.txout.script_pubkey.as_bytes()[2..])
+                        .expect("p2tr script");
                 self.spending_plan(xonly)
                     .map(|plan| (full_txout.outpoint, plan))
             });
-- 
2.43.0


From ce44d1a56cb549b8b16b483796115abab50ed607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:37 +0000
Subject: [PATCH 36/40] fix: stop a scan with filters whose node stops

The loop over the events of the tweak subscriber spun forever once the
node or the subscriber had ended before the tip was reached.
---
 cli/v2/src/main.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 6c08368..0626ca2 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -475,6 +475,8 @@ async fn main() -> anyhow::Result<()> {
                             break;
                         }
                     }
+                } else {
+                    bail!("The node or the tweak subscriber stopped before the tip was reached");
                 }
             }
         }
-- 
2.43.0


From 32504a711231597483515f1dcac6f84755330c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:23 +0000
Subject: [PATCH 37/40] fix: scan over RPC after a scan with filters and a
 reorganisation

A scan with filters leaves the wallet with sparse blocks. When the
reorganised ones are above the first block the node emits, the checkpoint
of the emission does not connect to them, and every scan panicked.
---
 cli/v2/src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index 0626ca2..f9a7b68 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -505,7 +505,10 @@ async fn main() -> anyhow::Result<()> {
 
             while let Some(emission) = emitter.next_block()? {
                 let height = emission.block_height();
-                wallet.update_chain(emission.checkpoint);
+                // NOTE: after a scan with filters the blocks of the wallet are sparse, ones above the
+                // emitted block don't connect to its checkpoint until a block takes their place
+                let block_id = emission.checkpoint.block_id();
+                wallet.update_chain(wallet.chain().tip().insert(block_id));
 
                 let block = &emission.block;
                 let Block { ref txdata, .. } = block;
-- 
2.43.0


From 7f28cb87bd16da21148d8ed44738d5c4bc080c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:56 +0000
Subject: [PATCH 38/40] fix: count the derivations of codes with the same keys
 together

Codes which differ in their network only share the placeholder output: a recipient given by two of
them got the output of a later derivation, which the receiver can't find, or the derivation was
refused although every payment had its output.
---
 silentpayments/src/send/psbt/mod.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/silentpayments/src/send/psbt/mod.rs b/silentpayments/src/send/psbt/mod.rs
index d30ac25..1353917 100644
--- a/silentpayments/src/send/psbt/mod.rs
+++ b/silentpayments/src/send/psbt/mod.rs
@@ -569,12 +569,19 @@ fn update_outputs(
         map
     };
 
+    // NOTE: Codes with the same keys share the placeholder, even if they are for other networks
+    let mut placeholder_spk_to_x_only_pks = <BTreeMap<ScriptBuf, Vec<XOnlyPublicKey>>>::new();
+    for (sp_code, x_only_pks) in silent_payments.iter() {
+        placeholder_spk_to_x_only_pks
+            .entry(sp_code.get_placeholder_p2tr_spk())
+            .or_default()
+            .extend(x_only_pks);
+    }
+
     // NOTE: Check all the recipients before updating any output, so the PSBT is left untouched on
     // error
     let mut updates = <Vec<(usize, XOnlyPublicKey)>>::new();
-    for (sp_code, x_only_pks) in silent_payments.iter() {
-        let placeholder_spk = sp_code.get_placeholder_p2tr_spk();
-
+    for (placeholder_spk, x_only_pks) in placeholder_spk_to_x_only_pks {
         if let Some(indexes) = placeholder_spk_to_idx.get(&placeholder_spk) {
             match indexes.len().cmp(&x_only_pks.len()) {
                 Ordering::Greater => return Err(SpSendError::MissingDerivations),
-- 
2.43.0


From f1599225373c44006b716d0cf36163acc64fd093 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 39/40] fix: refuse labels the wallet does not have in
 derive-sp-for-tx of cli v2

An unknown label number was ignored: the script shown was the one of the
unlabelled code.
---
 cli/v2/src/main.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/cli/v2/src/main.rs b/cli/v2/src/main.rs
index f9a7b68..dc07f56 100644
--- a/cli/v2/src/main.rs
+++ b/cli/v2/src/main.rs
@@ -257,8 +257,16 @@ async fn main() -> anyhow::Result<()> {
             let partial_secret = get_partial_secret(&rpc_client, &tx)?.expect("will fix later");
             let ecdh_shared_secret =
                 compute_shared_secret(wallet.indexer().scan_sk(), &partial_secret);
-            let maybe_label =
-                maybe_label.and_then(|label| wallet.indexer().index().num_to_label.get(&label));
+            let maybe_label = maybe_label
+                .map(|num| {
+                    wallet
+                        .indexer()
+                        .index()
+                        .num_to_label
+                        .get(&num)
+                        .with_context(|| format!("label {num} is not in the wallet"))
+                })
+                .transpose()?;
             let spk = get_silentpayment_script_pubkey(
                 wallet.indexer().spend_pk(),
                 &ecdh_shared_secret,
-- 
2.43.0


From 554f06d3344e97ded7ebc004e98e0d85579628a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:44 +0000
Subject: [PATCH 40/40] fix: sign PSBTs whose inputs are given by their
 previous transactions

sign-psbt of cli v1 panicked if an input, also one of others, had no
witness utxo.
---
 cli/v1/src/main.rs | 53 ++++++++++++++++++++++------------------------
 1 file changed, 25 insertions(+), 28 deletions(-)

diff --git a/cli/v1/src/main.rs b/cli/v1/src/main.rs
index d0e8fd9..4272034 100644
--- a/cli/v1/src/main.rs
+++ b/cli/v1/src/main.rs
@@ -934,38 +934,35 @@ fn main() -> anyhow::Result<()> {
             let spend_sk = get_sk_from_sp_descriptor(spend_descriptor)?;
             let mut psbt = Psbt::from_str(psbt.as_str())?;
             let sighash_type = TapSighashType::Default;
-            let prevouts = psbt
-                .inputs
-                .iter()
-                .map(|x| x.witness_utxo.clone().unwrap())
-                .collect::<Vec<TxOut>>();
-            let prevouts = Prevouts::All(&prevouts);
+            let txouts = psbt
+                .iter_funding_utxos()
+                .map(|txout| txout.cloned())
+                .collect::<Result<Vec<TxOut>, _>>()?;
+            let prevouts = Prevouts::All(&txouts);
 
             let mut sighash_cache = SighashCache::new(psbt.unsigned_tx.clone());
 
-            for i in 0..psbt.inputs.len() {
+            for (i, txout) in txouts.iter().enumerate() {
                 let psbt_input = &mut psbt.inputs[i];
-                if let Some(txout) = &psbt_input.witness_utxo {
-                    if let Some(spout) = indexes.script_to_spout.get(&txout.script_pubkey) {
-                        let sk = spend_sk.add_tweak(&Scalar::from(spout.tweak))?;
-                        let keypair = Keypair::from_secret_key(&secp, &sk);
-                        let (x_only_internal, _parity) = XOnlyPublicKey::from_keypair(&keypair);
-
-                        let sighash = sighash_cache
-                            .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
-                            .expect("failed to construct sighash");
-
-                        // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
-                        let msg = Message::from(sighash);
-                        let signature = secp.sign_schnorr(&msg, &keypair);
-
-                        let signature = Signature {
-                            signature,
-                            sighash_type,
-                        };
-                        psbt_input.tap_key_sig = Some(signature);
-                        psbt_input.tap_internal_key = Some(x_only_internal);
-                    }
+                if let Some(spout) = indexes.script_to_spout.get(&txout.script_pubkey) {
+                    let sk = spend_sk.add_tweak(&Scalar::from(spout.tweak))?;
+                    let keypair = Keypair::from_secret_key(&secp, &sk);
+                    let (x_only_internal, _parity) = XOnlyPublicKey::from_keypair(&keypair);
+
+                    let sighash = sighash_cache
+                        .taproot_key_spend_signature_hash(i, &prevouts, sighash_type)
+                        .expect("failed to construct sighash");
+
+                    // Sign the sighash using the secp256k1 library (exported by rust-bitcoin).
+                    let msg = Message::from(sighash);
+                    let signature = secp.sign_schnorr(&msg, &keypair);
+
+                    let signature = Signature {
+                        signature,
+                        sighash_type,
+                    };
+                    psbt_input.tap_key_sig = Some(signature);
+                    psbt_input.tap_internal_key = Some(x_only_internal);
                 }
             }
 
-- 
2.43.0

