From f1d875d7b528c14911b6bf157ed5dc4333c36a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 01/31] fix: LM hash panicked on some non-ASCII passwords

The password was cut and split at byte positions that need not be character
boundaries, and upper-casing can change its length. Work on bytes instead;
ASCII passwords hash as before.
---
 src/crypto/lm.rs | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/crypto/lm.rs b/src/crypto/lm.rs
index 8dcb7ae..2b3df87 100644
--- a/src/crypto/lm.rs
+++ b/src/crypto/lm.rs
@@ -1,15 +1,11 @@
 use super::des::des7_encrypt;
 
-fn prepare_password(password: &str) -> String {
-    if password.len() < 14 {
-        let mut p = password.to_uppercase();
-        while p.len() < 14 {
-            p.push('\0');
-        }
-        p
-    } else {
-        (&password[..14]).to_uppercase()
+fn prepare_password(password: &str) -> [u8; 14] {
+    let mut prepared = [0u8; 14];
+    for (dst, src) in prepared.iter_mut().zip(password.to_uppercase().bytes()) {
+        *dst = src;
     }
+    prepared
 }
 
 pub type LmHash = [u8; 16];
@@ -20,8 +16,8 @@ pub fn lmowfv1(password: &str) -> LmHash {
     let password = prepare_password(password);
     let (key1, key2) = password.split_at(7);
 
-    des7_encrypt(key1.as_bytes(), &magic[..], &mut lm_hash[..8]);
-    des7_encrypt(key2.as_bytes(), &magic[..], &mut lm_hash[8..]);
+    des7_encrypt(key1, &magic[..], &mut lm_hash[..8]);
+    des7_encrypt(key2, &magic[..], &mut lm_hash[8..]);
 
     lm_hash
 }
-- 
2.43.0


From 49f346800b2cc369e391ba4fba9666373097fe70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 02/31] fix: field pointing outside the message panicked

Offset and length come from the peer: report an error when they do not fit
in the message instead of slicing out of bounds.
---
 src/messages/field.rs | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/messages/field.rs b/src/messages/field.rs
index b76411f..73c811d 100644
--- a/src/messages/field.rs
+++ b/src/messages/field.rs
@@ -55,6 +55,19 @@ impl Field {
         start..end
     }
 
+    fn get_slice<'a, E>(&self, input: &'a [u8]) -> Result<&'a [u8], nom::Err<E>>
+    where
+        E: NomError<'a>,
+    {
+        input.get(self.get_range()).ok_or_else(|| {
+            nom::Err::Error(E::add_context(
+                input,
+                "Field/range",
+                E::from_error_kind(input, nom::error::ErrorKind::Eof),
+            ))
+        })
+    }
+
     pub(super) fn get_data_if<'a, T, E>(
         &self,
         typename: &'static str,
@@ -70,7 +83,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(None)
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_slice(input)?;
                 let (rest, value) =
                     context(typename, context("Field::get_data", T::deserialize))(data)?;
                 if !rest.is_empty() {
@@ -102,7 +115,7 @@ impl Field {
                 log::warn!("Flag for {} is set but field is empty", typename);
                 Ok(Vec::new())
             } else {
-                let data = &input[self.get_range()];
+                let data = self.get_slice(input)?;
                 let (rest, value) = context("Field::get_data", many0(T::deserialize))(data)?;
                 if !rest.is_empty() {
                     log::warn!(
-- 
2.43.0


From 67b0da7e9d6c44d46c08c910b59fb6f213976fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 03/31] fix: decode UTF-16 surrogate pairs

Text was cut at the first character outside the BMP, as each 16-bit unit was
decoded on its own.
---
 src/messages/unicode_string.rs | 24 +++++++++++++++++-------
 1 file changed, 17 insertions(+), 7 deletions(-)

diff --git a/src/messages/unicode_string.rs b/src/messages/unicode_string.rs
index fe42c04..98182e0 100644
--- a/src/messages/unicode_string.rs
+++ b/src/messages/unicode_string.rs
@@ -2,10 +2,12 @@ use std::fmt;
 use std::io;
 use std::ops::{Deref, DerefMut};
 
+use nom::branch::alt;
 use nom::combinator::{map, map_opt};
 use nom::error::context;
 use nom::multi::fold_many0;
 use nom::number::complete::le_u16;
+use nom::sequence::pair;
 
 use crate::messages::{utils::write_u16, Wire};
 
@@ -89,6 +91,15 @@ impl<'a> Wire<'a> for OEMString {
     }
 }
 
+/// Decodes the one character made of exactly these UTF-16 units, except NUL
+fn decode_char(units: &[u16]) -> Option<char> {
+    let mut chars = char::decode_utf16(units.iter().copied());
+    match (chars.next(), chars.next()) {
+        (Some(Ok(c)), None) if c != '\0' => Some(c),
+        _ => None,
+    }
+}
+
 impl<'a> Wire<'a> for UnicodeString {
     fn serialize_into<W>(&self, writer: &mut W) -> io::Result<usize>
     where
@@ -109,13 +120,12 @@ impl<'a> Wire<'a> for UnicodeString {
             "Unicode string",
             map(
                 fold_many0(
-                    map_opt(le_u16, |b| {
-                        if b == 0 {
-                            None
-                        } else {
-                            char::decode_utf16(std::iter::once(b)).next().unwrap().ok()
-                        }
-                    }),
+                    alt((
+                        map_opt(le_u16, |b| decode_char(&[b])),
+                        map_opt(pair(le_u16, le_u16), |(high, low)| {
+                            decode_char(&[high, low])
+                        }),
+                    )),
                     String::new,
                     |mut acc: String, c| {
                         acc.push(c);
-- 
2.43.0


From aa87f82edc6cf78e6d157710d0d9ee56b94addc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 04/31] fix: AV pair with left-over value bytes panicked or
 lost them

A value longer than its type, or text with a NUL or a lone surrogate, tripped
a debug assertion, and was silently shortened without them. Reject it.
---
 src/messages/structures/avid.rs | 32 +++++++++++---------------------
 1 file changed, 11 insertions(+), 21 deletions(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index 03ac26c..293f5b1 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -2,7 +2,7 @@ use std::io;
 use std::mem::size_of;
 
 use nom::bytes::complete::take;
-use nom::combinator::{map_opt, verify};
+use nom::combinator::{all_consuming, map_opt, verify};
 use nom::error::context;
 use nom::multi::length_data;
 use nom::number::complete::{le_u16, le_u32};
@@ -240,54 +240,44 @@ impl<'a> Wire<'a> for AvPair {
                 Ok((rest, Self::MsvAvEOL))
             }
             AvId::MsvAvNbComputerName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvNbComputerName(s.into())))
             }
             AvId::MsvAvNbDomainName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvNbDomainName(s.into())))
             }
             AvId::MsvAvDnsComputerName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsComputerName(s.into())))
             }
             AvId::MsvAvDnsDomainName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsDomainName(s.into())))
             }
             AvId::MsvAvDnsTreeName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvDnsTreeName(s.into())))
             }
             AvId::MsvAvFlags => {
-                let (r, f) = MsvAvFlags::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, f) = all_consuming(MsvAvFlags::deserialize)(data)?;
                 Ok((rest, Self::MsvAvFlags(f)))
             }
             AvId::MsvAvTimestamp => {
-                let (r, ts) = FileTime::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, ts) = all_consuming(FileTime::deserialize)(data)?;
                 Ok((rest, Self::MsvAvTimestamp(ts)))
             }
             AvId::MsvAvSingleHost => {
-                let (r, shd) = SingleHostData::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, shd) = all_consuming(SingleHostData::deserialize)(data)?;
                 Ok((rest, Self::MsvAvSingleHost(shd)))
             }
             AvId::MsvAvTargetName => {
-                let (r, s) = UnicodeString::deserialize(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(UnicodeString::deserialize)(data)?;
                 Ok((rest, Self::MsvAvTargetName(s.into())))
             }
             AvId::MsvAvChannelBindings => {
                 let mut buf = [0u8; 16];
-                let (r, s) = take(buf.len())(data)?;
-                debug_assert_eq!(r.len(), 0);
+                let (_, s) = all_consuming(take(buf.len()))(data)?;
                 buf.copy_from_slice(s);
                 Ok((rest, Self::MsvAvChannelBindings(buf)))
             }
-- 
2.43.0


From 1c97a6f39c15f7e013a65f26239f9aa580058b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 05/31] fix: target information with a bad first pair was
 accepted as empty

The end-marker check was skipped when no pair at all could be decoded.
---
 src/messages/challenge.rs | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/src/messages/challenge.rs b/src/messages/challenge.rs
index f51e804..fb76052 100644
--- a/src/messages/challenge.rs
+++ b/src/messages/challenge.rs
@@ -189,15 +189,13 @@ impl<'a> Wire<'a> for Challenge {
         )?;
         let target_infos = target_infos_field.get_many_if("target_infos", input, true)?;
 
-        if let Some(last) = target_infos.last() {
-            if !matches!(last, AvPair::MsvAvEOL) {
-                let target_infos_data = &input[target_infos_field.get_range()];
-                return Err(nom::Err::Error(E::add_context(
-                    target_infos_data,
-                    "Challenge/TargetInfos/EOL",
-                    E::from_error_kind(target_infos_data, nom::error::ErrorKind::Verify),
-                )));
-            }
+        if target_infos_field.len != 0 && !matches!(target_infos.last(), Some(AvPair::MsvAvEOL)) {
+            let target_infos_data = &input[target_infos_field.get_range()];
+            return Err(nom::Err::Error(E::add_context(
+                target_infos_data,
+                "Challenge/TargetInfos/EOL",
+                E::from_error_kind(target_infos_data, nom::error::ErrorKind::Verify),
+            )));
         }
 
         Ok((
-- 
2.43.0


From 6ac7907677ab10ef1aeab8fe8e20a64576fc6b78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 06/31] fix: AV pair text was cut short by writers that accept
 partial writes

---
 src/messages/structures/avid.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index 293f5b1..cebeb84 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -167,7 +167,8 @@ where
     let utf16: Vec<_> = s.encode_utf16().collect();
     let data = unsafe { std::slice::from_raw_parts(utf16.as_ptr().cast(), utf16.len() * 2) };
     written += write_u16(writer, data.len().try_into().expect("String too long"))?;
-    written += writer.write(&data[..])?;
+    writer.write_all(&data[..])?;
+    written += data.len();
 
     Ok(written)
 }
-- 
2.43.0


From 43aaa67392298e6e7f6d7355e4a0f9d555b1a463 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 07/31] fix: FILETIME counted microseconds since 1970

A FILETIME is the number of 100-nanosecond intervals since 1601-01-01 UTC, as
servers expect in the NTLMv2 timestamp.
---
 src/messages/structures/filetime.rs | 31 ++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/src/messages/structures/filetime.rs b/src/messages/structures/filetime.rs
index 76ec5d4..21ffcae 100644
--- a/src/messages/structures/filetime.rs
+++ b/src/messages/structures/filetime.rs
@@ -11,25 +11,42 @@ pub struct FileTime {
     pub low: u32,
     pub high: u32,
 }
-const NANO_TO_MILLI: u64 = 1_000_000;
+/// Number of 100-nanosecond intervals in a second
+const INTERVALS_PER_SEC: u64 = 10_000_000;
+/// Number of seconds between 1601-01-01 and UNIX_EPOCH
+const UNIX_EPOCH_SECS: u64 = 11_644_473_600;
 
 impl TryFrom<SystemTime> for FileTime {
     type Error = Option<SystemTimeError>;
 
     fn try_from(value: SystemTime) -> Result<Self, Self::Error> {
-        let seconds = value.duration_since(UNIX_EPOCH).map_err(Some)?.as_secs();
-        let nsec = seconds.checked_mul(NANO_TO_MILLI).ok_or(None)?;
+        let since_epoch = value.duration_since(UNIX_EPOCH).map_err(Some)?;
+        let intervals = since_epoch
+            .as_secs()
+            .checked_add(UNIX_EPOCH_SECS)
+            .and_then(|secs| secs.checked_mul(INTERVALS_PER_SEC))
+            .and_then(|i| i.checked_add(u64::from(since_epoch.subsec_nanos() / 100)))
+            .ok_or(None)?;
         Ok(Self {
-            high: (nsec >> 32) as u32,
-            low: (nsec & 0xffff_ffff) as u32,
+            high: (intervals >> 32) as u32,
+            low: (intervals & 0xffff_ffff) as u32,
         })
     }
 }
 
 impl FileTime {
     pub fn to_system_time(&self) -> Option<SystemTime> {
-        let ts = self.as_u64() / NANO_TO_MILLI;
-        UNIX_EPOCH.checked_add(Duration::from_secs(ts))
+        let intervals = self.as_u64();
+        let since_1601 = Duration::new(
+            intervals / INTERVALS_PER_SEC,
+            (intervals % INTERVALS_PER_SEC) as u32 * 100,
+        );
+        let unix_epoch = Duration::from_secs(UNIX_EPOCH_SECS);
+        if since_1601 >= unix_epoch {
+            UNIX_EPOCH.checked_add(since_1601 - unix_epoch)
+        } else {
+            UNIX_EPOCH.checked_sub(unix_epoch - since_1601)
+        }
     }
 
     pub fn as_u64(&self) -> u64 {
-- 
2.43.0


From 81b007d8e133f0d5b1902ddf26bd55faa000b232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:30 +0000
Subject: [PATCH 08/31] fix: NTLMv1 key exchange key always used the extended
 security formula

Without NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY the key exchange key comes
from the session base key or the LM hash (MS-NLMP 3.4.5.1).
---
 src/client.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 117a26c..afb1eb6 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -182,7 +182,10 @@ where
             &session_base_key,
             &lm_challenge.response[..8],
             &self.lm_hash,
-            Some(&challenge.server_challenge),
+            challenge
+                .negotiate_flags
+                .has_flag(flags::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY)
+                .then_some(&challenge.server_challenge),
         );
 
         let (exported_session_key, encrypted_random_session_key) =
-- 
2.43.0


From 267da57aa208097d8fd78115b7e0af13858a90a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:49 +0000
Subject: [PATCH 09/31] fix: an all-zero encrypted session key was sent without
 key exchange

It also set NTLMSSP_NEGOTIATE_KEY_EXCH, so the server decrypted the zeros to a
session key different from the client's.
---
 src/client.rs | 15 ++++++++++++---
 src/crypto.rs | 10 +++++++---
 2 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index afb1eb6..76d788d 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -1,7 +1,10 @@
 use std::marker::PhantomData;
 
 use crate::{
-    crypto::{encrypt_random_session_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1, ntlmv2},
+    crypto::{
+        encrypt_random_session_key, has_random_session_key, kxkey, lm::LmHash, nt::NtHash, ntlmv1,
+        ntlmv2,
+    },
     messages::{
         flags,
         structures::{AvPair, ClientChallenge, Version},
@@ -198,7 +201,10 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            has_random_session_key(&challenge.negotiate_flags)
+                .then_some(encrypted_random_session_key),
+        );
         // auth.mic = mic;
         auth.exported_session_key = Some(exported_session_key);
         auth
@@ -238,7 +244,10 @@ where
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
-        auth.set_encrypted_random_session_key(Some(encrypted_random_session_key));
+        auth.set_encrypted_random_session_key(
+            has_random_session_key(&challenge.negotiate_flags)
+                .then_some(encrypted_random_session_key),
+        );
         auth.exported_session_key = Some(exported_session_key);
         auth.compute_mic(negotiate, challenge);
 
diff --git a/src/crypto.rs b/src/crypto.rs
index 3ab229e..7ec6d00 100644
--- a/src/crypto.rs
+++ b/src/crypto.rs
@@ -89,14 +89,18 @@ pub fn kxkey(
     key_exchange_key
 }
 
+/// Whether a random session key is exchanged, instead of using the key exchange key itself
+pub fn has_random_session_key(flags: &Flags) -> bool {
+    flags.has_flag(NTLMSSP_NEGOTIATE_KEY_EXCH)
+        && (flags.has_flag(NTLMSSP_NEGOTIATE_SIGN) || flags.has_flag(NTLMSSP_NEGOTIATE_SEAL))
+}
+
 pub fn encrypt_random_session_key(
     flags: &Flags,
     key_exchange_key: &KeyExchangeKey,
     exported_session_key: Option<ExportedSessionKey>,
 ) -> (ExportedSessionKey, EncryptedRandomSessionKey) {
-    if flags.has_flag(NTLMSSP_NEGOTIATE_KEY_EXCH)
-        && (flags.has_flag(NTLMSSP_NEGOTIATE_SIGN) || flags.has_flag(NTLMSSP_NEGOTIATE_SEAL))
-    {
+    if has_random_session_key(flags) {
         let exported_session_key = if let Some(e) = exported_session_key {
             e
         } else {
-- 
2.43.0


From 1e298f383ac3153aa36a282ce8ae137dd9cd6309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 10/31] fix: NTLMv2 response was sent without its proof

The NT response is an NTLMv2_RESPONSE (MS-NLMP 2.2.2.8): NTProofStr, then the
client challenge including its four trailing zero bytes. No server could
verify the bare client challenge. Such responses are now decoded as well,
instead of as the first 24 bytes of an NTLMv1 response.
---
 src/client.rs                           | 25 ++++++++++++++-----------
 src/messages/structures/nt_challenge.rs | 13 ++++++++++++-
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 76d788d..0ebc897 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -7,7 +7,7 @@ use crate::{
     },
     messages::{
         flags,
-        structures::{AvPair, ClientChallenge, Version},
+        structures::{AvPair, ClientChallenge, NtChallenge, Version},
         Authenticate, Challenge, Negotiate, Wire,
     },
     NtlmVersion,
@@ -223,15 +223,18 @@ where
                 _ => continue,
             }
         }
-        let (nt_proof_str, lm_challenge, nt_challenge, session_base_key) = ntlmv2::compute_response(
-            &challenge.negotiate_flags,
-            &self.ntlmv2_hash,
-            &self.ntlmv2_hash,
-            &challenge.server_challenge,
-            &client_challenge,
-            time,
-            &challenge.target_infos[..],
-        );
+        let (nt_proof_str, lm_challenge, mut nt_challenge, session_base_key) =
+            ntlmv2::compute_response(
+                &challenge.negotiate_flags,
+                &self.ntlmv2_hash,
+                &self.ntlmv2_hash,
+                &challenge.server_challenge,
+                &client_challenge,
+                time,
+                &challenge.target_infos[..],
+            );
+        // The four zero bytes that end the data covered by `nt_proof_str`
+        nt_challenge.target_infos.push(AvPair::MsvAvEOL);
 
         let key_exchange_key = session_base_key.clone().into();
 
@@ -240,7 +243,7 @@ where
 
         let mut auth = Authenticate::default();
         auth.lm_challenge_response = Some(lm_challenge.into());
-        auth.nt_challenge_response = Some(nt_challenge.into());
+        auth.nt_challenge_response = Some(NtChallenge::V2Response(nt_proof_str, nt_challenge));
         auth.domain = Some(self.domain.clone().into());
         auth.user = Some(self.username.clone().into());
         auth.workstation = None;
diff --git a/src/messages/structures/nt_challenge.rs b/src/messages/structures/nt_challenge.rs
index 971bb5d..5d48230 100644
--- a/src/messages/structures/nt_challenge.rs
+++ b/src/messages/structures/nt_challenge.rs
@@ -7,7 +7,7 @@ use nom::number::complete::{le_u16, le_u32, le_u8};
 use nom::sequence::{preceded, tuple};
 
 use crate::messages::{
-    structures::{AvPair, ClientChallenge, FileTime, Response24},
+    structures::{AvPair, ClientChallenge, FileTime, NtProofStr, Response24},
     utils::{write_u16, write_u32, write_u8},
     NomError, Wire,
 };
@@ -102,6 +102,8 @@ impl<'a> Wire<'a> for Ntv2Challenge {
 pub enum NtChallenge {
     V1(Ntv1Challenge),
     V2(Ntv2Challenge),
+    /// NTLMv2_RESPONSE: the proof followed by the client challenge it was computed from
+    V2Response(NtProofStr, Ntv2Challenge),
 }
 
 impl Default for NtChallenge {
@@ -130,6 +132,11 @@ impl<'a> Wire<'a> for NtChallenge {
         match self {
             Self::V1(ref v1) => v1.serialize_into(writer),
             Self::V2(ref v2) => v2.serialize_into(writer),
+            Self::V2Response(ref proof, ref v2) => {
+                let mut size = proof.serialize_into(writer)?;
+                size += v2.serialize_into(writer)?;
+                Ok(size)
+            }
         }
     }
 
@@ -139,6 +146,10 @@ impl<'a> Wire<'a> for NtChallenge {
     {
         alt((
             map(Ntv2Challenge::deserialize, |c| Self::V2(c)),
+            map(
+                tuple((NtProofStr::deserialize, Ntv2Challenge::deserialize)),
+                |(proof, c)| Self::V2Response(proof, c),
+            ),
             map(Ntv1Challenge::deserialize, |c| Self::V1(c)),
         ))(input)
     }
-- 
2.43.0


From b95ba9f4dd8084e6fde347a8f2a5f6d3605f17e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 11/31] fix: NTLMv2 AUTHENTICATE dropped the negotiated flags

Signing, sealing and session security were not declared, so the server did
not even use the exchanged session key. Copy the flags of the challenge, as
for NTLMv1.
---
 src/client.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/client.rs b/src/client.rs
index 0ebc897..f3c4281 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -242,6 +242,7 @@ where
             encrypt_random_session_key(&challenge.negotiate_flags, &key_exchange_key, None);
 
         let mut auth = Authenticate::default();
+        auth.negotiate_flags = challenge.negotiate_flags;
         auth.lm_challenge_response = Some(lm_challenge.into());
         auth.nt_challenge_response = Some(NtChallenge::V2Response(nt_proof_str, nt_challenge));
         auth.domain = Some(self.domain.clone().into());
-- 
2.43.0


From 57e7fce91b0f469d36ac2cbb801b8f0fd9d3c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 12/31] fix: declare the character set AUTHENTICATE is written
 in

Its text is always UTF-16; after an OEM-only challenge it declared no
character set at all.
---
 src/client.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index f3c4281..7265ff8 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -301,6 +301,8 @@ where
         auth.negotiate_flags
             .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
         auth.negotiate_flags.clear_flag(flags::NTLM_NEGOTIATE_OEM);
+        auth.negotiate_flags
+            .set_flag(flags::NTLMSSP_NEGOTIATE_UNICODE);
         auth.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         auth.negotiate_flags.set_flag(flags::NTLMSSP_REQUEST_TARGET);
-- 
2.43.0


From b53ac8e58d31f9a2318ee76ac07873ecedfaf318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 13/31] fix: AUTHENTICATE declared a version it did not carry

When the challenge had NTLMSSP_NEGOTIATE_VERSION, the flag was copied although
the client has no version to send, and the message could not be decoded.
---
 src/client.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/client.rs b/src/client.rs
index 7265ff8..9eae195 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -297,6 +297,9 @@ where
             auth.negotiate_flags
                 .set_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
             auth.version = Some(v);
+        } else {
+            auth.negotiate_flags
+                .clear_flag(flags::NTLMSSP_NEGOTIATE_VERSION);
         }
         auth.negotiate_flags
             .clear_flag(flags::NTLMSSP_TARGET_TYPE_SERVER);
-- 
2.43.0


From ede25016310e76b602f0fc4e7cc9cad638ff2659 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 14/31] fix: MIC was computed before the AUTHENTICATE message
 was complete

The workstation, version and flags were still to be set, so the MIC never
matched the message sent.
---
 src/client.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 9eae195..8f7891c 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -211,7 +211,6 @@ where
     }
 
     fn send_authenticate_ntlmv2(&mut self, client_challenge: ClientChallenge) -> Authenticate {
-        let negotiate = self.get_negotiate();
         let challenge = self.get_challenge();
         let mut time = None;
         for val in &challenge.target_infos[..] {
@@ -253,7 +252,6 @@ where
                 .then_some(encrypted_random_session_key),
         );
         auth.exported_session_key = Some(exported_session_key);
-        auth.compute_mic(negotiate, challenge);
 
         auth
     }
@@ -309,6 +307,9 @@ where
         auth.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         auth.negotiate_flags.set_flag(flags::NTLMSSP_REQUEST_TARGET);
+        if V::version() >= 3 {
+            auth.compute_mic(self.get_negotiate(), self.get_challenge());
+        }
         self.buffer.clear();
         auth.serialize_into(&mut self.buffer).unwrap();
         self.set_authenticated_state(auth);
-- 
2.43.0


From b0d2507752e135f879b9d094a41f3a51f5266860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 15/31] fix: MIC was at the wrong offset in messages without a
 version

The Version structure is a fixed part of all three messages, zero unless
NTLMSSP_NEGOTIATE_VERSION is set (MS-NLMP 2.2.1); leaving it out moved the
MIC that follows it.
---
 src/messages.rs              | 3 +++
 src/messages/authenticate.rs | 9 ++++++---
 src/messages/challenge.rs    | 4 +++-
 src/messages/negotiate.rs    | 4 +++-
 4 files changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/messages.rs b/src/messages.rs
index b7224c2..f7da067 100644
--- a/src/messages.rs
+++ b/src/messages.rs
@@ -105,6 +105,9 @@ where
 
 const SIGNATURE: &'static [u8; 8] = b"NTLMSSP\0";
 
+/// Size of the Version structure, all zero in messages without a version
+const VERSION_SIZE: usize = 8;
+
 pub mod authenticate;
 pub mod challenge;
 mod field;
diff --git a/src/messages/authenticate.rs b/src/messages/authenticate.rs
index 9dd3524..0bd454a 100644
--- a/src/messages/authenticate.rs
+++ b/src/messages/authenticate.rs
@@ -1,4 +1,4 @@
-use nom::bytes::complete::tag;
+use nom::bytes::complete::{tag, take};
 use nom::combinator::{cond, verify};
 use nom::error::context;
 use nom::number::complete::le_u32;
@@ -14,7 +14,7 @@ use crate::{
         },
         unicode_string::UnicodeString,
         utils::write_u32,
-        Challenge, Field, Negotiate, NomError, Wire, SIGNATURE,
+        Challenge, Field, Negotiate, NomError, Wire, SIGNATURE, VERSION_SIZE,
     },
 };
 
@@ -80,6 +80,8 @@ impl<'a> Wire<'a> for Authenticate {
         payload.resize(PAYLOAD_OFFSET, 0);
         if let Some(ref version) = self.version {
             version.serialize_into(&mut payload).unwrap();
+        } else {
+            payload.extend_from_slice(&[0; VERSION_SIZE][..]);
         }
 
         payload.extend_from_slice(&self.mic[..]);
@@ -136,10 +138,11 @@ impl<'a> Wire<'a> for Authenticate {
                 )),
             ),
         )(input)?;
-        let (rest, version) = cond(
+        let (_, version) = cond(
             negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_VERSION),
             context("Authenticate/version", Version::deserialize),
         )(rest)?;
+        let (rest, _) = context("Authenticate/version", take(VERSION_SIZE))(rest)?;
         let (_, mic) = context("Authenticate/mic", Mic::deserialize)(rest)?;
 
         let lm_challenge_response = if negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM) {
diff --git a/src/messages/challenge.rs b/src/messages/challenge.rs
index fb76052..75c4ecc 100644
--- a/src/messages/challenge.rs
+++ b/src/messages/challenge.rs
@@ -11,7 +11,7 @@ use crate::messages::{
     structures::{AvPair, FileTime, MsvAvFlags, ServerChallenge, SingleHostData, Version},
     unicode_string::UnicodeString,
     utils::{write_u32, write_u64},
-    Field, Wire, SIGNATURE,
+    Field, Wire, SIGNATURE, VERSION_SIZE,
 };
 
 const MESSAGE_TYPE: u32 = 0x00000002;
@@ -135,6 +135,8 @@ impl<'a> Wire<'a> for Challenge {
 
         if let Some(ref version) = self.version {
             version.serialize_into(&mut payload).unwrap();
+        } else {
+            payload.extend_from_slice(&[0; VERSION_SIZE][..]);
         }
 
         writer.write_all(&SIGNATURE[..])?;
diff --git a/src/messages/negotiate.rs b/src/messages/negotiate.rs
index 8669411..32d2814 100644
--- a/src/messages/negotiate.rs
+++ b/src/messages/negotiate.rs
@@ -9,7 +9,7 @@ use crate::messages::{
     structures::Version,
     unicode_string::OEMString,
     utils::write_u32,
-    Field, Wire, SIGNATURE,
+    Field, Wire, SIGNATURE, VERSION_SIZE,
 };
 
 const MESSAGE_TYPE: u32 = 0x00000001;
@@ -68,6 +68,8 @@ impl<'a> Wire<'a> for Negotiate {
 
         if let Some(ref version) = self.version {
             version.serialize_into(&mut payload).unwrap();
+        } else {
+            payload.extend_from_slice(&[0; VERSION_SIZE][..]);
         }
 
         let mut written = 0;
-- 
2.43.0


From c32065c3e1e3328ddf367aa0e6d8cc3399b65e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 16/31] fix: LMv2 responses were decoded as LMv1 ones

NTLMSSP_NEGOTIATE_NTLM is set for NTLMv2 as well; the version of the LM
response is that of the NT response next to it.
---
 src/messages/authenticate.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/messages/authenticate.rs b/src/messages/authenticate.rs
index 0bd454a..7f1e6d3 100644
--- a/src/messages/authenticate.rs
+++ b/src/messages/authenticate.rs
@@ -145,7 +145,15 @@ impl<'a> Wire<'a> for Authenticate {
         let (rest, _) = context("Authenticate/version", take(VERSION_SIZE))(rest)?;
         let (_, mic) = context("Authenticate/mic", Mic::deserialize)(rest)?;
 
-        let lm_challenge_response = if negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM) {
+        let nt_challenge_response =
+            nt_challenge_response_field.get_data_if("nt_challenge_response", input, true)?;
+        // Both LM responses have the same size: only the NT response tells them apart
+        let is_v1 = match nt_challenge_response {
+            Some(NtChallenge::V1(_)) => true,
+            Some(NtChallenge::V2(_) | NtChallenge::V2Response(_, _)) => false,
+            None => negotiate_flags.has_flag(flags::NTLMSSP_NEGOTIATE_NTLM),
+        };
+        let lm_challenge_response = if is_v1 {
             lm_challenge_response_field
                 .get_data_if::<Lmv1Challenge, E>("lmv1_challenge_response", input, true)
                 .ok()
@@ -158,8 +166,6 @@ impl<'a> Wire<'a> for Authenticate {
                 .flatten()
                 .map(|c| c.into())
         };
-        let nt_challenge_response =
-            nt_challenge_response_field.get_data_if("nt_challenge_response", input, true)?;
         let domain = domain_field.get_data_if("domain", input, true)?;
         let user = user_field.get_data_if("user", input, true)?;
         let workstation = workstation_field.get_data_if("workstation", input, true)?;
-- 
2.43.0


From 0272817ee8c07e072eb18b081daeabb378025b46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 17/31] fix: the strict feature did not reject forbidden flags

`cfg(features = ...)` is never true.
---
 src/messages/flags.rs | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/src/messages/flags.rs b/src/messages/flags.rs
index ad18e92..2dbafd6 100644
--- a/src/messages/flags.rs
+++ b/src/messages/flags.rs
@@ -209,52 +209,52 @@ impl Flags {
 
         if flags.has_flag(R1) {
             log::warn!("flags.has_flag(R1)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R2) {
             log::warn!("flags.has_flag(R2)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R3) {
             log::warn!("flags.has_flag(R3)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R4) {
             log::warn!("flags.has_flag(R4)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R5) {
             log::warn!("flags.has_flag(R5)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R6) {
             log::warn!("flags.has_flag(R6)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R7) {
             log::warn!("flags.has_flag(R7)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R8) {
             log::warn!("flags.has_flag(R8)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R9) {
             log::warn!("flags.has_flag(R9)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         if flags.has_flag(R10) {
             log::warn!("flags.has_flag(R10)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -263,7 +263,7 @@ impl Flags {
             log::warn!(
                 "flags cannot have NTLMSSP_TARGET_TYPE_DOMAIN and NTLMSSP_TARGET_TYPE_SERVER"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -271,7 +271,7 @@ impl Flags {
             log::warn!(
                 "!flags.has_flag(NTLMSSP_NEGOTIATE_UNICODE) && !flags.has_flag(NTLM_NEGOTIATE_OEM)"
             );
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
 
@@ -279,7 +279,7 @@ impl Flags {
             && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)
         {
             log::warn!("flags.has_flag(NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY) && flags.has_flag(NTLMSSP_NEGOTIATE_LM_KEY)");
-            #[cfg(features = "strict")]
+            #[cfg(feature = "strict")]
             return false;
         }
         true
-- 
2.43.0


From 854ff23cf29815d8acf2a83a0011409dc4f141a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 18/31] fix: creating a client panicked when /etc/hostname is
 empty

---
 src/client.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index 8f7891c..8ef53bb 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -273,7 +273,7 @@ where
             return Some(computer_name);
         }
         let hostname = std::fs::read_to_string("/etc/hostname").ok()?;
-        let firstline = hostname.lines().next().unwrap();
+        let firstline = hostname.lines().next()?;
         if let Some((cn, _)) = firstline.split_once('.') {
             Some(cn.trim().to_uppercase())
         } else {
-- 
2.43.0


From bf7bf826d900ff0297b806a022e0da91d7556a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:43 +0000
Subject: [PATCH 19/31] fix: NEGOTIATE did not offer NTLM from level 2 on

NTLMSSP_NEGOTIATE_NTLM must be set in every NEGOTIATE message, as the
documentation of the flag says.
---
 src/client.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 8ef53bb..d56fbac 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -89,6 +89,7 @@ where
     pub fn send_negociate(&mut self) -> &[u8] {
         let mut msg = Negotiate::default();
         msg.negotiate_flags.set_flag(flags::NTLM_NEGOTIATE_OEM);
+        msg.negotiate_flags.set_flag(flags::NTLMSSP_NEGOTIATE_NTLM);
         msg.negotiate_flags.set_flag(flags::NTLMSSP_NEGOTIATE_128);
         msg.negotiate_flags
             .set_flag(flags::NTLMSSP_NEGOTIATE_ALWAYS_SIGN);
@@ -101,14 +102,12 @@ where
 
         match V::version() {
             0 => {
-                msg.negotiate_flags.set_flag(flags::NTLMSSP_NEGOTIATE_NTLM);
                 msg.negotiate_flags
                     .set_flag(flags::NTLMSSP_NEGOTIATE_LM_KEY);
                 msg.negotiate_flags
                     .set_flag(flags::NTLMSSP_NEGOTIATE_KEY_EXCH);
             }
             1 => {
-                msg.negotiate_flags.set_flag(flags::NTLMSSP_NEGOTIATE_NTLM);
                 msg.negotiate_flags
                     .set_flag(flags::NTLMSSP_NEGOTIATE_EXTENDED_SESSIONSECURITY);
             }
-- 
2.43.0


From 88759d464bd02b45474d5d0defa8a4226a6d32cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 20/31] fix: the client kept the session key of a superseded
 AUTHENTICATE

Answering a challenge again draws a new session key, but the client went on
with the one of its first answer.
---
 src/client.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index d56fbac..85814d2 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -256,11 +256,14 @@ where
     }
 
     fn set_authenticated_state(&mut self, auth: Authenticate) {
-        if !matches!(self.state, ClientState::ChallengeReceived(_, _)) {
+        if !matches!(
+            self.state,
+            ClientState::ChallengeReceived(_, _) | ClientState::AuthenticateSent(_, _, _)
+        ) {
             return;
         }
         match std::mem::replace(&mut self.state, ClientState::New) {
-            ClientState::ChallengeReceived(n, c) => {
+            ClientState::ChallengeReceived(n, c) | ClientState::AuthenticateSent(n, c, _) => {
                 self.state = ClientState::AuthenticateSent(n, c, auth);
             }
             _ => unreachable!(),
-- 
2.43.0


From 95e8b9b17f1f5cca80b89b17aba0028e98193eb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:37 +0000
Subject: [PATCH 21/31] Verification hooks, only built with --cfg vp_hooks

Expose the crate-private codec and the client's session key, version and
workstation to the harness.
---
 src/client.rs            | 21 ++++++++++++
 src/messages.rs          |  2 ++
 src/messages/vp_hooks.rs | 70 ++++++++++++++++++++++++++++++++++++++++
 3 files changed, 93 insertions(+)
 create mode 100644 src/messages/vp_hooks.rs

diff --git a/src/client.rs b/src/client.rs
index 85814d2..95c7f69 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -319,6 +319,27 @@ where
     }
 }
 
+#[cfg(vp_hooks)]
+impl<V> Client<V> {
+    pub fn vp_set_version(&mut self, version: Option<Version>) {
+        self.version = version;
+    }
+
+    pub fn vp_set_workstation(&mut self, workstation: Option<String>) {
+        self.workstation = workstation;
+    }
+
+    /// Session key of the last AUTHENTICATE message, if one was sent
+    pub fn vp_exported_session_key(&self) -> Option<Vec<u8>> {
+        match self.state {
+            ClientState::AuthenticateSent(_, _, ref a) => {
+                a.exported_session_key.as_ref().map(|k| k.to_vec())
+            }
+            _ => None,
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/messages.rs b/src/messages.rs
index f7da067..109548f 100644
--- a/src/messages.rs
+++ b/src/messages.rs
@@ -116,6 +116,8 @@ pub mod negotiate;
 pub mod structures;
 mod unicode_string;
 mod utils;
+#[cfg(vp_hooks)]
+pub mod vp_hooks;
 
 pub use authenticate::Authenticate;
 pub use challenge::Challenge;
diff --git a/src/messages/vp_hooks.rs b/src/messages/vp_hooks.rs
new file mode 100644
index 0000000..38da6b5
--- /dev/null
+++ b/src/messages/vp_hooks.rs
@@ -0,0 +1,70 @@
+//! Access to the crate-private codec for the verification harness (`--cfg vp_hooks` only)
+
+use std::io::{self, Write};
+
+use super::{structures::*, Wire};
+
+pub use super::{
+    field::Field,
+    unicode_string::{OEMString, UnicodeString},
+};
+use super::{Authenticate, Challenge, Flags, Negotiate};
+
+pub trait Codec: Sized {
+    /// Encodes to any writer, returning the reported size
+    fn vp_encode_into(&self, writer: &mut dyn Write) -> io::Result<usize>;
+    /// Encodes to memory
+    fn vp_encode(&self) -> Vec<u8>;
+    /// Decodes a value, returning it with the number of bytes left over
+    fn vp_decode(input: &[u8]) -> Result<(Self, usize), ()>;
+}
+
+macro_rules! impl_codec {
+    ($($typename:ty),* $(,)?) => {
+        $(impl Codec for $typename {
+            fn vp_encode_into(&self, mut writer: &mut dyn Write) -> io::Result<usize> {
+                self.serialize_into(&mut writer)
+            }
+            fn vp_encode(&self) -> Vec<u8> {
+                self.serialize()
+            }
+            fn vp_decode(input: &[u8]) -> Result<(Self, usize), ()> {
+                match Self::deserialize::<nom::error::VerboseError<&[u8]>>(input) {
+                    Ok((rest, value)) => Ok((value, rest.len())),
+                    Err(_) => Err(()),
+                }
+            }
+        })*
+    };
+}
+
+impl_codec!(
+    Negotiate,
+    Challenge,
+    Authenticate,
+    Flags,
+    Field,
+    UnicodeString,
+    OEMString,
+    Version,
+    AvPair,
+    Vec<AvPair>,
+    MsvAvFlags,
+    FileTime,
+    SingleHostData,
+    MessageSignature,
+    LmChallenge,
+    Lmv1Challenge,
+    Lmv2Challenge,
+    NtChallenge,
+    Ntv1Challenge,
+    Ntv2Challenge,
+    ServerChallenge,
+    ClientChallenge,
+    EncryptedRandomSessionKey,
+    NtProofStr,
+    Mic,
+    RandomPad,
+    Response16,
+    Response24,
+);
-- 
2.43.0


From 89c417c093a027ba7c7b973cdc89fd6595486137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:24 +0000
Subject: [PATCH 22/31] fix: target information added to a decoded challenge
 was not announced in its flags

---
 src/messages/challenge.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/messages/challenge.rs b/src/messages/challenge.rs
index 75c4ecc..1f27af5 100644
--- a/src/messages/challenge.rs
+++ b/src/messages/challenge.rs
@@ -38,12 +38,12 @@ impl Challenge {
         if self.target_infos.is_empty() {
             self.target_infos.push(info);
             self.target_infos.push(AvPair::MsvAvEOL);
-            self.negotiate_flags
-                .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
         } else {
             let index = self.target_infos.len() - 1;
             self.target_infos.insert(index, info);
         }
+        self.negotiate_flags
+            .set_flag(flags::NTLMSSP_NEGOTIATE_TARGET_INFO);
     }
 
     pub fn target_infos_add_computername(&mut self, computername: impl Into<String>) -> &mut Self {
-- 
2.43.0


From 8544f040f5580abe14c4aaefa620ec0cc8dd3e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:41 +0000
Subject: [PATCH 23/31] fix: an LM response field outside the message was
 accepted as absent

---
 src/messages/authenticate.rs | 4 ++++
 src/messages/field.rs        | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/messages/authenticate.rs b/src/messages/authenticate.rs
index 7f1e6d3..90cce94 100644
--- a/src/messages/authenticate.rs
+++ b/src/messages/authenticate.rs
@@ -147,6 +147,10 @@ impl<'a> Wire<'a> for Authenticate {
 
         let nt_challenge_response =
             nt_challenge_response_field.get_data_if("nt_challenge_response", input, true)?;
+        // An LM response of another size counts as absent, but it has to lie inside the message
+        if lm_challenge_response_field.len != 0 {
+            lm_challenge_response_field.get_slice(input)?;
+        }
         // Both LM responses have the same size: only the NT response tells them apart
         let is_v1 = match nt_challenge_response {
             Some(NtChallenge::V1(_)) => true,
diff --git a/src/messages/field.rs b/src/messages/field.rs
index 73c811d..841d9d7 100644
--- a/src/messages/field.rs
+++ b/src/messages/field.rs
@@ -55,7 +55,7 @@ impl Field {
         start..end
     }
 
-    fn get_slice<'a, E>(&self, input: &'a [u8]) -> Result<&'a [u8], nom::Err<E>>
+    pub(super) fn get_slice<'a, E>(&self, input: &'a [u8]) -> Result<&'a [u8], nom::Err<E>>
     where
         E: NomError<'a>,
     {
-- 
2.43.0


From 2fce9945818ce1c29eafea4c294501320ca2c9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:02:30 +0000
Subject: [PATCH 24/31] Verification hook: src/win.rs on other systems, only
 with --cfg vp_hooks --cfg vp_win

---
 src/lib.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib.rs b/src/lib.rs
index 31511ab..fb4477a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -8,3 +8,5 @@ pub mod messages;
 
 #[cfg(target_family = "windows")]
 mod win;
+#[cfg(all(vp_hooks, vp_win, not(target_family = "windows")))]
+pub mod win;
-- 
2.43.0


From a7e8ad831e76f349dbb2f92f7707d57bb1ba7bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:01 +0000
Subject: [PATCH 25/31] fix: the SSPI client never gave back its credentials
 and context

---
 src/win.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/win.rs b/src/win.rs
index 43b82c3..428d338 100644
--- a/src/win.rs
+++ b/src/win.rs
@@ -10,11 +10,11 @@ use windows::{
         Foundation::{SEC_I_COMPLETE_AND_CONTINUE, SEC_I_COMPLETE_NEEDED, SEC_I_CONTINUE_NEEDED},
         Security::{
             Authentication::Identity::{
-                AcquireCredentialsHandleA, CompleteAuthToken, EnumerateSecurityPackagesA,
-                FreeContextBuffer, InitSecurityInterfaceA, InitializeSecurityContextA, SecBuffer,
-                SecBufferDesc, SecPkgInfoA, SecurityFunctionTableA, ISC_REQ_CONNECTION,
-                ISC_REQ_INTEGRITY, ISC_REQ_STREAM, SECBUFFER_TOKEN, SECPKG_CRED_OUTBOUND,
-                SECURITY_NATIVE_DREP,
+                AcquireCredentialsHandleA, CompleteAuthToken, DeleteSecurityContext,
+                EnumerateSecurityPackagesA, FreeContextBuffer, FreeCredentialsHandle,
+                InitSecurityInterfaceA, InitializeSecurityContextA, SecBuffer, SecBufferDesc,
+                SecPkgInfoA, SecurityFunctionTableA, ISC_REQ_CONNECTION, ISC_REQ_INTEGRITY,
+                ISC_REQ_STREAM, SECBUFFER_TOKEN, SECPKG_CRED_OUTBOUND, SECURITY_NATIVE_DREP,
             },
             Credentials::SecHandle,
         },
@@ -160,6 +160,17 @@ impl WinClient {
     }
 }
 
+impl Drop for WinClient {
+    fn drop(&mut self) {
+        unsafe {
+            if let Some(context) = self.context.as_ref() {
+                let _ = DeleteSecurityContext(context);
+            }
+            let _ = FreeCredentialsHandle(&self.credentials);
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 8cf063e9c4e9a96f466c5fd4b96c21e15b67b93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:04:58 +0000
Subject: [PATCH 26/31] fix: the SSPI client took failures for success

---
 src/win.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/win.rs b/src/win.rs
index 428d338..63d67ee 100644
--- a/src/win.rs
+++ b/src/win.rs
@@ -130,9 +130,11 @@ impl WinClient {
                     Some(ptr::addr_of_mut!(self.lifetime)),
                 )
             };
+            ret.ok()?;
             self.context = Some(unsafe { new_context.assume_init() });
             ret
         };
+        ret.ok()?;
         unsafe {
             self.output_buffer
                 .set_len(output_sec_buffer.cbBuffer.try_into().unwrap());
-- 
2.43.0


From 31df44e227b262a3bab0aca177187c007dd5241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:07 +0000
Subject: [PATCH 27/31] fix: a field range overflowed usize on 32-bit targets

---
 src/messages/field.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/messages/field.rs b/src/messages/field.rs
index 841d9d7..bcde889 100644
--- a/src/messages/field.rs
+++ b/src/messages/field.rs
@@ -51,7 +51,7 @@ impl<'a> Wire<'a> for Field {
 impl Field {
     pub(crate) fn get_range(&self) -> Range<usize> {
         let start = self.offset as usize;
-        let end = start + self.len as usize;
+        let end = start.saturating_add(self.len as usize);
         start..end
     }
 
-- 
2.43.0


From ef59b0ab889cfa9dea7be1d5fc755d2d72fd5233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:07 +0000
Subject: [PATCH 28/31] fix: UTF-16 text was hashed and sent in the byte order
 of the host

---
 src/crypto/nt.rs                | 15 ++++-----------
 src/messages/structures/avid.rs |  3 +--
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/crypto/nt.rs b/src/crypto/nt.rs
index 3871abc..5b31e0e 100644
--- a/src/crypto/nt.rs
+++ b/src/crypto/nt.rs
@@ -3,27 +3,20 @@ use super::{hmac_md5, md4};
 pub type NtHash = [u8; 16];
 
 pub fn ntowfv1(password: &str) -> NtHash {
-    let bytes: Vec<_> = password.encode_utf16().collect();
+    let bytes: Vec<u8> = password.encode_utf16().flat_map(u16::to_le_bytes).collect();
     let mut nt_hash = NtHash::default();
 
-    md4(
-        unsafe { std::slice::from_raw_parts(bytes.as_ptr().cast(), bytes.len() * 2) },
-        &mut nt_hash,
-    );
+    md4(&bytes, &mut nt_hash);
 
     nt_hash
 }
 
 pub fn ntowfv2(username: &str, hash: &NtHash, domain_name: &str) -> NtHash {
     let user = format!("{}{}", username.to_uppercase(), domain_name);
-    let raw_user: Vec<_> = user.encode_utf16().collect();
+    let raw_user: Vec<u8> = user.encode_utf16().flat_map(u16::to_le_bytes).collect();
     let mut nt_hash = NtHash::default();
 
-    hmac_md5(
-        &hash[..],
-        unsafe { std::slice::from_raw_parts(raw_user.as_ptr().cast(), raw_user.len() * 2) },
-        &mut nt_hash[..],
-    );
+    hmac_md5(&hash[..], &raw_user, &mut nt_hash[..]);
     nt_hash
 }
 
diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index cebeb84..e32b29d 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -164,8 +164,7 @@ where
     W: io::Write,
 {
     let mut written = 0;
-    let utf16: Vec<_> = s.encode_utf16().collect();
-    let data = unsafe { std::slice::from_raw_parts(utf16.as_ptr().cast(), utf16.len() * 2) };
+    let data: Vec<u8> = s.encode_utf16().flat_map(u16::to_le_bytes).collect();
     written += write_u16(writer, data.len().try_into().expect("String too long"))?;
     writer.write_all(&data[..])?;
     written += data.len();
-- 
2.43.0


From d2d422815b8aff4f556cd851420f8610df870151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:08 +0000
Subject: [PATCH 29/31] fix: a truncated AV pair is an error, not Incomplete

length_data is a streaming parser: for a pair whose declared length exceeds the
input it returned Err::Incomplete, although the input is complete. Callers that
use nom's Finish panic on it and others wait for bytes that never come.
---
 src/messages/structures/avid.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/messages/structures/avid.rs b/src/messages/structures/avid.rs
index e32b29d..216564d 100644
--- a/src/messages/structures/avid.rs
+++ b/src/messages/structures/avid.rs
@@ -2,9 +2,8 @@ use std::io;
 use std::mem::size_of;
 
 use nom::bytes::complete::take;
-use nom::combinator::{all_consuming, map_opt, verify};
+use nom::combinator::{all_consuming, cut, flat_map, map_opt, verify};
 use nom::error::context;
-use nom::multi::length_data;
 use nom::number::complete::{le_u16, le_u32};
 use nom::sequence::tuple;
 
@@ -227,8 +226,10 @@ impl<'a> Wire<'a> for AvPair {
     where
         E: NomError<'a>,
     {
-        let (rest, (id, data)) =
-            context("AvPair", tuple((AvId::deserialize, length_data(le_u16))))(input)?;
+        let (rest, (id, data)) = context(
+            "AvPair",
+            tuple((AvId::deserialize, flat_map(le_u16, |len| cut(take(len))))),
+        )(input)?;
         match id {
             AvId::MsvAvEOL => {
                 if !data.is_empty() {
-- 
2.43.0


From 6bcdfbb2acc2ff751bfab21642ef6e7625adbf5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:27:08 +0000
Subject: [PATCH 30/31] vp_hooks: decoding with any error type

---
 src/messages/vp_hooks.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/messages/vp_hooks.rs b/src/messages/vp_hooks.rs
index 38da6b5..16e69b4 100644
--- a/src/messages/vp_hooks.rs
+++ b/src/messages/vp_hooks.rs
@@ -2,7 +2,7 @@
 
 use std::io::{self, Write};
 
-use super::{structures::*, Wire};
+use super::{structures::*, NomError, Wire};
 
 pub use super::{
     field::Field,
@@ -17,6 +17,8 @@ pub trait Codec: Sized {
     fn vp_encode(&self) -> Vec<u8>;
     /// Decodes a value, returning it with the number of bytes left over
     fn vp_decode(input: &[u8]) -> Result<(Self, usize), ()>;
+    /// Decodes with errors of any type
+    fn vp_decode_as<'a, E: NomError<'a>>(input: &'a [u8]) -> nom::IResult<&'a [u8], Self, E>;
 }
 
 macro_rules! impl_codec {
@@ -34,6 +36,9 @@ macro_rules! impl_codec {
                     Err(_) => Err(()),
                 }
             }
+            fn vp_decode_as<'a, E: NomError<'a>>(input: &'a [u8]) -> nom::IResult<&'a [u8], Self, E> {
+                Self::deserialize(input)
+            }
         })*
     };
 }
-- 
2.43.0


From 1e937899d251d731029f0bff9d4f711a4e6be0e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:21 +0000
Subject: [PATCH 31/31] fix: asking for a NEGOTIATE wrote to standard error,
 and panicked where it cannot

---
 src/client.rs | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 95c7f69..a1e9ffd 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -135,8 +135,6 @@ where
         self.buffer.clear();
         let size = msg.serialize_into(&mut self.buffer).unwrap();
         self.state = ClientState::NegociateSent(msg);
-        dbg!(self.buffer.len());
-        dbg!(size);
         &self.buffer[..size]
     }
 
-- 
2.43.0

