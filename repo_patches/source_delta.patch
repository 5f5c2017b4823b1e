From 16b906c2f02b2c98d515e2b61c81630887e3ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 01/70] fix: report the number of open sessions in
 C_GetTokenInfo

---
 src/slot.rs | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/slot.rs b/src/slot.rs
index 0c44a1d..d27a67e 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -97,10 +97,20 @@ impl Slot {
     }
 
     /// Returns a copy of the token information (`CK_TOKEN_INFO`) for the
-    /// token within this slot. Acquires a read lock on the token.
+    /// token within this slot, including the current number of open
+    /// sessions. Acquires read locks on the sessions first and then on the
+    /// token, never both at the same time.
     pub fn get_token_info(&self) -> CK_TOKEN_INFO {
-        let tok = self.token.read().unwrap();
-        *tok.get_token_info()
+        let mut rw_sessions: CK_ULONG = 0;
+        for (_key, val) in self.sessions.iter() {
+            if val.read().unwrap().is_writable() {
+                rw_sessions += 1;
+            }
+        }
+        let mut info = *self.token.read().unwrap().get_token_info();
+        info.ulSessionCount = self.sessions.len() as CK_ULONG;
+        info.ulRwSessionCount = rw_sessions;
+        info
     }
 
     /// Gets a read lock guard for the `Token` in this slot.
-- 
2.43.0


From 1ccf3520f6a374c2e3118d5e679739e9883aa25b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:11 +0000
Subject: [PATCH 02/70] fix: new sessions opened while the SO is logged in are
 SO sessions

---
 src/session.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/session.rs b/src/session.rs
index ab48f2a..35f2c78 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -352,7 +352,7 @@ impl Session {
                     }
                     CKU_SO => {
                         if rw {
-                            CKS_RW_USER_FUNCTIONS
+                            CKS_RW_SO_FUNCTIONS
                         } else {
                             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
                         }
-- 
2.43.0


From 82666cd74a4bf6950308475aafd8e0482de16a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:46 +0000
Subject: [PATCH 03/70] fix: private token objects are accessible only to the
 logged in user

---
 src/token.rs | 66 +++++++++++++++++++++++++++++++++-------------------
 1 file changed, 42 insertions(+), 24 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index 8c7ce83..d3de919 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -329,6 +329,13 @@ impl Token {
         }
     }
 
+    /// Checks if an object is currently out of reach. Private token objects
+    /// can be accessed only while the normal user is logged in, the SO has
+    /// no access to them.
+    fn is_hidden(&self, obj: &Object) -> bool {
+        !self.is_logged_in(CKU_USER) && obj.is_token() && obj.is_private()
+    }
+
     /// Updates token flags related to PIN status (locked, final try, count low).
     fn update_auth_flags(&mut self, user_type: CK_USER_TYPE, flags: CK_FLAGS) {
         match user_type {
@@ -546,8 +553,7 @@ impl Token {
             Some(o) => o.clone(),
             None => self.storage.fetch(&self.facilities, o_handle, &[])?,
         };
-        if !self.is_logged_in(KRY_UNSPEC) && obj.is_token() && obj.is_private()
-        {
+        if self.is_hidden(&obj) {
             return Err(CKR_USER_NOT_LOGGED_IN)?;
         }
         if obj.is_sensitive() {
@@ -576,7 +582,7 @@ impl Token {
     ) -> Result<CK_OBJECT_HANDLE> {
         let handle: CK_OBJECT_HANDLE;
         if obj.is_token() {
-            if !self.is_logged_in(KRY_UNSPEC) {
+            if !self.is_logged_in(KRY_UNSPEC) || self.is_hidden(&obj) {
                 return Err(CKR_USER_NOT_LOGGED_IN)?;
             }
             handle = self.storage.store(&mut self.facilities, obj)?;
@@ -725,7 +731,7 @@ impl Token {
         let object = self.facilities.factories.create(template)?;
 
         if object.is_token() {
-            if !self.is_logged_in(KRY_UNSPEC) {
+            if !self.is_logged_in(KRY_UNSPEC) || self.is_hidden(&object) {
                 return Err(CKR_USER_NOT_LOGGED_IN)?;
             }
 
@@ -751,16 +757,20 @@ impl Token {
                 let _ = self.session_objects.remove(&o_handle);
             }
             None => {
-                let destroyable: CK_ATTRIBUTE = CK_ATTRIBUTE {
-                    type_: CKA_DESTROYABLE,
-                    pValue: std::ptr::null_mut(),
-                    ulValueLen: 0,
-                };
+                /* value does not matter, only type does */
+                let dnm = CK_FALSE;
+                let mut attrs = CkAttrs::with_capacity(3);
+                attrs.add_bool(CKA_DESTROYABLE, &dnm);
+                attrs.add_bool(CKA_TOKEN, &dnm);
+                attrs.add_bool(CKA_PRIVATE, &dnm);
                 let obj = self.storage.fetch(
                     &self.facilities,
                     o_handle,
-                    &[destroyable],
+                    attrs.as_slice(),
                 )?;
+                if self.is_hidden(&obj) {
+                    return Err(CKR_USER_NOT_LOGGED_IN)?;
+                }
                 if !obj.is_destroyable() {
                     return Err(CKR_ACTION_PROHIBITED)?;
                 }
@@ -783,12 +793,12 @@ impl Token {
         o_handle: CK_OBJECT_HANDLE,
         template: &mut [CK_ATTRIBUTE],
     ) -> Result<()> {
-        let is_logged = self.is_logged_in(KRY_UNSPEC);
+        let is_user = self.is_logged_in(CKU_USER);
 
         /* value does not matter, only type does */
         let dnm: CK_BBOOL = CK_FALSE;
         let mut attrs = CkAttrs::from(template);
-        if !is_logged {
+        if !is_user {
             attrs.add_bool(CKA_TOKEN, &dnm);
             attrs.add_bool(CKA_PRIVATE, &dnm);
         }
@@ -801,7 +811,7 @@ impl Token {
                 attrs.as_slice(),
             )?),
         };
-        if !is_logged && obj.is_token() && obj.is_private() {
+        if self.is_hidden(&obj) {
             /* do not reveal if the object exists or not */
             return Err(CKR_OBJECT_HANDLE_INVALID)?;
         }
@@ -836,16 +846,21 @@ impl Token {
                 /* value does not matter, only type does */
                 let dnmu = CK_UNAVAILABLE_INFORMATION;
                 let dnmb = CK_FALSE;
-                let mut attrs = CkAttrs::with_capacity(3);
+                let mut attrs = CkAttrs::with_capacity(5);
                 attrs.add_ulong(CKA_CLASS, &dnmu);
                 attrs.add_ulong(CKA_KEY_TYPE, &dnmu);
                 attrs.add_bool(CKA_MODIFIABLE, &dnmb);
+                attrs.add_bool(CKA_TOKEN, &dnmb);
+                attrs.add_bool(CKA_PRIVATE, &dnmb);
 
                 let obj = self.storage.fetch(
                     &self.facilities,
                     o_handle,
                     attrs.as_slice(),
                 )?;
+                if self.is_hidden(&obj) {
+                    return Err(CKR_USER_NOT_LOGGED_IN)?;
+                }
                 let factory =
                     self.facilities.factories.get_object_factory(&obj)?;
                 if !obj.is_modifiable() {
@@ -869,6 +884,9 @@ impl Token {
                 &[],
             )?),
         };
+        if self.is_hidden(&obj) {
+            return Err(CKR_USER_NOT_LOGGED_IN)?;
+        }
         obj.rough_size()
     }
 
@@ -883,17 +901,17 @@ impl Token {
         o_handle: CK_OBJECT_HANDLE,
         template: &[CK_ATTRIBUTE],
     ) -> Result<CK_OBJECT_HANDLE> {
-        let obj = match self.session_objects.get_mut(&o_handle) {
+        let obj = match self.session_objects.get(&o_handle) {
             Some(o) => Cow::Borrowed(o),
-            _ => {
-                let o =
-                    self.storage.fetch(&mut self.facilities, o_handle, &[])?;
-                if !self.is_logged_in(KRY_UNSPEC) && o.is_private() {
-                    return Err(CKR_USER_NOT_LOGGED_IN)?;
-                }
-                Cow::Owned(o)
-            }
+            None => Cow::Owned(self.storage.fetch(
+                &self.facilities,
+                o_handle,
+                &[],
+            )?),
         };
+        if self.is_hidden(&obj) {
+            return Err(CKR_USER_NOT_LOGGED_IN)?;
+        }
         let newobj = self.facilities.factories.copy(&obj, template)?;
         self.insert_object(s_handle, newobj)
     }
@@ -926,7 +944,7 @@ impl Token {
             }
         }
 
-        if !self.is_logged_in(KRY_UNSPEC) {
+        if !self.is_logged_in(CKU_USER) {
             tmpl.add_owned_bool(CKA_PRIVATE, CK_FALSE)?;
         }
 
-- 
2.43.0


From 717b0c48c206ad1a39972156f51728e76b662083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:06 +0000
Subject: [PATCH 04/70] fix: nssdb PIN checks neither reuse stale derived keys
 nor drop the active login

---
 src/storage/nssdb/ci.rs  |  5 +++++
 src/storage/nssdb/mod.rs | 35 ++++++++++++++++-------------------
 2 files changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/storage/nssdb/ci.rs b/src/storage/nssdb/ci.rs
index 47f3c75..754c872 100644
--- a/src/storage/nssdb/ci.rs
+++ b/src/storage/nssdb/ci.rs
@@ -121,6 +121,11 @@ impl KeysWithCaching {
             zeromem(key.as_mut_slice());
             self.enckey = None;
         }
+        /* keys derived from it are not valid for any other key */
+        match self.cache.get_mut() {
+            Ok(cache) => cache.clear(),
+            Err(e) => e.into_inner().clear(),
+        }
     }
 
     /// Attempts to get a read lock (`LockedKey`) for a cached derived key
diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 2e6ffa9..b62aad2 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1477,37 +1477,34 @@ impl Storage for NSSStorage {
          * to the chosen algorithm. The data is a structured ASN.1
          * structure that includes in formation about which algorithm
          * to use for the decryption.
-         * NOTE: to allow key caching we set the key unchecked, and
-         * then remove it on failure or if only a check was requested */
+         * NOTE: the PIN is checked with a separate set of keys, so that
+         * neither a failure nor a check alters the ones in use, and keys
+         * previously derived and cached can't be used to check it. */
         let (salt, data) = self.fetch_password()?;
         let enckey = enckey_derive(facilities, pin, salt.as_slice())?;
-        let originally_set = self.keys.available();
-        if originally_set && self.keys.check_key(enckey.as_slice()) {
+        if self.keys.check_key(enckey.as_slice()) {
             return Ok(());
         }
-        self.keys.set_key(enckey);
-        let check = match decrypt_data(facilities, &self.keys, data.as_slice())
-        {
+        let mut newkeys = KeysWithCaching::default();
+        newkeys.set_key(enckey);
+        match decrypt_data(facilities, &newkeys, data.as_slice()) {
             Ok(plain) => {
-                if plain.as_slice() == NSS_PASS_CHECK {
-                    Ok(())
-                } else {
-                    Err(CKR_PIN_INCORRECT)?
+                if plain.as_slice() != NSS_PASS_CHECK {
+                    return Err(CKR_PIN_INCORRECT)?;
                 }
             }
-            Err(e) => Err(e),
-        };
-        if check.is_err() {
-            /* unconditionally remove the key on failure */
-            self.keys.unset_key();
-            return check;
+            Err(e) => match e.rv() {
+                /* the wrong key generally causes bad padding */
+                CKR_ENCRYPTED_DATA_INVALID => return Err(CKR_PIN_INCORRECT)?,
+                _ => return Err(e),
+            },
         }
 
         /* NSS does not support any error counter for authentication attempts */
         *flag = 0;
 
-        if check_only && !originally_set {
-            self.keys.unset_key();
+        if !check_only {
+            self.keys = newkeys;
         }
         Ok(())
     }
-- 
2.43.0


From 43b40c1ce26e5a86bfc2423b04940d7ee4621f9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 05/70] fix: object class, key type and secret key values
 cannot be changed after creation

---
 src/aes.rs            | 5 +++--
 src/hotp.rs           | 4 ++--
 src/object/factory.rs | 2 +-
 src/object/key.rs     | 8 ++++----
 4 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/aes.rs b/src/aes.rs
index d51d0ae..68fd3bc 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -110,8 +110,9 @@ impl AesKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Defval | OAFlags::Sensitive
-            | OAFlags::RequiredOnCreate | OAFlags::SettableOnlyOnCreate;
-            Attribute::from_bytes; val Vec::new()));
+            | OAFlags::RequiredOnCreate | OAFlags::SettableOnlyOnCreate
+            | OAFlags::Unchangeable; Attribute::from_bytes;
+            val Vec::new()));
         attributes.push(attr_element!(
             CKA_VALUE_LEN; OAFlags::RequiredOnGenerate;
             Attribute::from_bytes; val Vec::new()));
diff --git a/src/hotp.rs b/src/hotp.rs
index 3047024..7b23e21 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -68,8 +68,8 @@ impl HOTPKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
-            | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
-            val Vec::new()));
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
             CKA_VALUE_LEN; OAFlags::Defval; Attribute::from_ulong;
             val 20));
diff --git a/src/object/factory.rs b/src/object/factory.rs
index 4d74146..61d6fcb 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -265,7 +265,7 @@ pub trait ObjectFactory: Debug + Send + Sync {
     fn add_common_object_attrs(&mut self) {
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_CLASS; OAFlags::RequiredOnCreate;
+            CKA_CLASS; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
             Attribute::from_ulong; val 0));
         attrs.push(attr_element!(
             CKA_UNIQUE_ID; OAFlags::NeverSettable | OAFlags::Unchangeable;
diff --git a/src/object/key.rs b/src/object/key.rs
index ade2b24..5e69146 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -25,8 +25,8 @@ pub trait KeyFactory: ObjectFactory {
         self.add_common_storage_attrs(private);
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_KEY_TYPE; OAFlags::RequiredOnCreate; Attribute::from_ulong;
-            val CK_UNAVAILABLE_INFORMATION));
+            CKA_KEY_TYPE; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
+            Attribute::from_ulong; val CK_UNAVAILABLE_INFORMATION));
         attrs.push(attr_element!(
             CKA_ID; OAFlags::empty(); Attribute::from_bytes;
             val Vec::new()));
@@ -528,8 +528,8 @@ impl GenericSecretKeyFactory {
 
         attributes.push(attr_element!(
             CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
-            | OAFlags::SettableOnlyOnCreate; Attribute::from_bytes;
-            val Vec::new()));
+            | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
+            Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
             CKA_VALUE_LEN; OAFlags::RequiredOnGenerate; Attribute::from_bytes;
             val Vec::new()));
-- 
2.43.0


From 22056b946e1af03062257d1789b199c3ebfa1354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 06/70] fix: never-settable attributes are refused in copy,
 generate, unwrap and derive templates

---
 src/object/factory.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 61d6fcb..976aac2 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -323,7 +323,9 @@ pub trait ObjectFactory: Debug + Send + Sync {
         for ck_attr in template {
             match attributes.iter().find(|a| a.get_type() == ck_attr.type_) {
                 Some(attr) => {
-                    if attr.is(unacceptable_flags) {
+                    if attr.is(OAFlags::NeverSettable)
+                        || attr.is(unacceptable_flags)
+                    {
                         return Err(CKR_ATTRIBUTE_TYPE_INVALID)?;
                     }
                     /* duplicate? */
@@ -408,6 +410,9 @@ pub trait ObjectFactory: Debug + Send + Sync {
         for ck_attr in template {
             match attributes.iter().find(|a| a.get_type() == ck_attr.type_) {
                 Some(attr) => {
+                    if attr.is(OAFlags::NeverSettable) {
+                        return Err(CKR_ACTION_PROHIBITED)?;
+                    }
                     if attr.is(OAFlags::Unchangeable) {
                         if attr
                             .is(OAFlags::ChangeToFalse | OAFlags::ChangeToTrue)
-- 
2.43.0


From 8465d64e22b5adce3433fc73c1a2c8ff8da1a099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:32 +0000
Subject: [PATCH 07/70] fix: C_SetAttributeValue parses all values before
 changing the object

---
 src/object/factory.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 976aac2..6cdc4de 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -534,9 +534,15 @@ pub trait ObjectFactory: Debug + Send + Sync {
         /* first check that all attributes can be changed */
         self.check_set_attributes(template)?;
 
-        /* if checks clear out, apply changes */
+        /* parse all values before changing anything */
+        let mut changes = Vec::with_capacity(template.len());
         for ck_attr in template {
-            obj.set_attr(Attribute::from_ck_attr(ck_attr)?)?;
+            changes.push(Attribute::from_ck_attr(ck_attr)?);
+        }
+
+        /* if checks clear out, apply changes */
+        for attr in changes {
+            obj.set_attr(attr)?;
         }
 
         Ok(())
-- 
2.43.0


From 03adf308058e1a727754b03be2d472be84662583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:34 +0000
Subject: [PATCH 08/70] fix: DH private key values are sensitive attributes

---
 src/ffdh.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ffdh.rs b/src/ffdh.rs
index 4e8d868..d91d38c 100644
--- a/src/ffdh.rs
+++ b/src/ffdh.rs
@@ -191,7 +191,7 @@ impl FFDHPrivFactory {
             CKA_BASE; OAFlags::RequiredOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-            CKA_VALUE; OAFlags::RequiredOnCreate
+            CKA_VALUE; OAFlags::Sensitive | OAFlags::RequiredOnCreate
             | OAFlags::SettableOnlyOnCreate | OAFlags::Unchangeable;
             Attribute::from_bytes; val Vec::new()));
         attributes.push(attr_element!(
-- 
2.43.0


From 4a56c4fe2b4bbb07ff2335a3265efbceb4ad789d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:21 +0000
Subject: [PATCH 09/70] fix: only the SO can set CKA_TRUSTED to true

---
 src/token.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index d3de919..d268e8a 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -336,6 +336,19 @@ impl Token {
         !self.is_logged_in(CKU_USER) && obj.is_token() && obj.is_private()
     }
 
+    /// Only the SO can set CKA_TRUSTED to true
+    fn check_trusted(&self, template: &[CK_ATTRIBUTE]) -> Result<()> {
+        if self.is_logged_in(CKU_SO) {
+            return Ok(());
+        }
+        for attr in template.iter().filter(|a| a.type_ == CKA_TRUSTED) {
+            if attr.to_bool()? {
+                return Err(CKR_ATTRIBUTE_READ_ONLY)?;
+            }
+        }
+        Ok(())
+    }
+
     /// Updates token flags related to PIN status (locked, final try, count low).
     fn update_auth_flags(&mut self, user_type: CK_USER_TYPE, flags: CK_FLAGS) {
         match user_type {
@@ -729,6 +742,7 @@ impl Token {
         template: &[CK_ATTRIBUTE],
     ) -> Result<CK_OBJECT_HANDLE> {
         let object = self.facilities.factories.create(template)?;
+        self.check_trusted(template)?;
 
         if object.is_token() {
             if !self.is_logged_in(KRY_UNSPEC) || self.is_hidden(&object) {
@@ -832,6 +846,7 @@ impl Token {
         o_handle: CK_OBJECT_HANDLE,
         template: &[CK_ATTRIBUTE],
     ) -> Result<()> {
+        self.check_trusted(template)?;
         match self.session_objects.get_mut(&o_handle) {
             Some(mut obj) => self
                 .facilities
@@ -913,6 +928,7 @@ impl Token {
             return Err(CKR_USER_NOT_LOGGED_IN)?;
         }
         let newobj = self.facilities.factories.copy(&obj, template)?;
+        self.check_trusted(template)?;
         self.insert_object(s_handle, newobj)
     }
 
-- 
2.43.0


From 63d87a18e88a4797bd209d5a54c0328ce1568905 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:59 +0000
Subject: [PATCH 10/70] fix: the certificate type cannot be changed after
 creation

---
 src/object/certs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/object/certs.rs b/src/object/certs.rs
index 9d47268..b690c4d 100644
--- a/src/object/certs.rs
+++ b/src/object/certs.rs
@@ -24,7 +24,8 @@ pub trait CertFactory: ObjectFactory {
         self.add_common_storage_attrs(false);
         let attrs = self.get_data_mut().get_attributes_mut();
         attrs.push(attr_element!(
-            CKA_CERTIFICATE_TYPE; OAFlags::AlwaysRequired;
+            CKA_CERTIFICATE_TYPE;
+            OAFlags::AlwaysRequired | OAFlags::Unchangeable;
             Attribute::from_ulong; val 0));
         attrs.push(attr_element!(
             CKA_TRUSTED; OAFlags::Defval; Attribute::from_bool;
-- 
2.43.0


From a092510ae29eb223a58aab4cdc3957f4621a3e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:08 +0000
Subject: [PATCH 11/70] fix: keys derived by concatenation, xor or extraction
 keep the protection of their base keys

---
 src/native/simplekdf.rs | 73 +++++++++++++++++++----------------------
 1 file changed, 34 insertions(+), 39 deletions(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index 0ecf0e7..3eedd4d 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -201,47 +201,42 @@ impl Derive for SimpleKDFOperation {
         let mut dkey =
             factory.as_key_factory()?.key_derive(tmpl.as_slice(), key)?;
 
+        let other_key_info = match self.mech {
+            CKM_CONCATENATE_BASE_AND_KEY => match &self.key_info {
+                Some(k) => Some(k),
+                None => return Err(CKR_MECHANISM_PARAM_INVALID)?,
+            },
+            _ => None,
+        };
+
+        /* The derived key reveals its origin keys so it must be protected
+         * at least as much as they are */
+        let sensitive = base_key_info.sensitive
+            || other_key_info.map_or(false, |k| k.sensitive)
+            || dkey.is_sensitive();
+        dkey.set_attr(Attribute::from_bool(CKA_SENSITIVE, sensitive))?;
+        let extractable = base_key_info.extractable
+            && other_key_info.map_or(true, |k| k.extractable)
+            && dkey.is_extractable();
+        dkey.set_attr(Attribute::from_bool(CKA_EXTRACTABLE, extractable))?;
+        let always_sensitive = sensitive
+            && base_key_info.always_sensitive
+            && other_key_info.map_or(true, |k| k.always_sensitive);
+        dkey.set_attr(Attribute::from_bool(
+            CKA_ALWAYS_SENSITIVE,
+            always_sensitive,
+        ))?;
+        let never_extractable = !extractable
+            && base_key_info.never_extractable
+            && other_key_info.map_or(true, |k| k.never_extractable);
+        dkey.set_attr(Attribute::from_bool(
+            CKA_NEVER_EXTRACTABLE,
+            never_extractable,
+        ))?;
+
         let other_data_len = match self.mech {
             CKM_CONCATENATE_BASE_AND_KEY => {
-                let another_key_info = match &self.key_info {
-                    Some(k) => k,
-                    None => return Err(CKR_MECHANISM_PARAM_INVALID)?,
-                };
-
-                let mut sensitive =
-                    base_key_info.sensitive || another_key_info.sensitive;
-                if !sensitive {
-                    match tmpl.find_attr(CKA_SENSITIVE) {
-                        Some(b) => sensitive = b.to_bool()?,
-                        None => (),
-                    };
-                }
-                dkey.set_attr(Attribute::from_bool(CKA_SENSITIVE, sensitive))?;
-                let mut extractable =
-                    base_key_info.extractable && another_key_info.extractable;
-                if extractable {
-                    match tmpl.find_attr(CKA_EXTRACTABLE) {
-                        Some(b) => extractable = b.to_bool()?,
-                        None => (),
-                    };
-                }
-                dkey.set_attr(Attribute::from_bool(
-                    CKA_EXTRACTABLE,
-                    extractable,
-                ))?;
-                let always_sensitive = base_key_info.always_sensitive
-                    && another_key_info.always_sensitive;
-                dkey.set_attr(Attribute::from_bool(
-                    CKA_ALWAYS_SENSITIVE,
-                    always_sensitive,
-                ))?;
-                let never_extractable = base_key_info.never_extractable
-                    && another_key_info.never_extractable;
-                dkey.set_attr(Attribute::from_bool(
-                    CKA_NEVER_EXTRACTABLE,
-                    never_extractable,
-                ))?;
-                another_key_info.value.len()
+                other_key_info.map_or(0, |k| k.value.len())
             }
             CKM_CONCATENATE_BASE_AND_DATA
             | CKM_CONCATENATE_DATA_AND_BASE
-- 
2.43.0


From 74a0ba76882901e86552d68c63a49cd470642e71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 12/70] fix: EXTRACT_KEY_FROM_KEY with a byte aligned or huge
 offset

---
 src/native/simplekdf.rs | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index 3eedd4d..f127f6f 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -276,7 +276,7 @@ impl Derive for SimpleKDFOperation {
             let required_bits = keylen * 8;
             let available_bits = base_key_info.value.len() * 8;
             if (required_bits > available_bits)
-                || (bit_offset + 7) / 8 > available_bits as CK_ULONG
+                || bit_offset >= available_bits as CK_ULONG
             {
                 return Err(CKR_TEMPLATE_INCONSISTENT)?;
             }
@@ -336,13 +336,11 @@ impl Derive for SimpleKDFOperation {
                 let base_byte = (bit_offset - bit_shift) / 8;
 
                 for i in 0..keylen {
-                    let first_half = base_key_info.value
-                        [(base_byte + i) % outlen]
-                        << bit_shift;
-                    let second_half = base_key_info.value
-                        [(base_byte + i + 1) % outlen]
-                        >> (8 - bit_shift);
-                    secret[i] = first_half | second_half;
+                    let first = base_key_info.value[(base_byte + i) % outlen];
+                    let second =
+                        base_key_info.value[(base_byte + i + 1) % outlen];
+                    let pair = u16::from_be_bytes([first, second]);
+                    secret[i] = (pair << bit_shift).to_be_bytes()[0];
                 }
             }
             _ => return Err(CKR_MECHANISM_INVALID)?,
-- 
2.43.0


From e62d5a6ab5afa22b36462de036716b3b917d54dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:45 +0000
Subject: [PATCH 13/70] fix: searches by value do not match unextractable keys

---
 src/storage/format.rs | 2 +-
 src/token.rs          | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index 611150b..d96be53 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -430,7 +430,7 @@ impl Storage for StdStorageFormat {
         let mut objects = self.store.search(template)?;
         let mut result = Vec::<CK_OBJECT_HANDLE>::with_capacity(objects.len());
         for mut obj in objects.drain(..) {
-            if obj.is_sensitive() {
+            if obj.is_sensitive() || !obj.is_extractable() {
                 obj.set_zeroize();
                 match facilities.factories.check_sensitive(&obj, template) {
                     Err(_) => continue,
diff --git a/src/token.rs b/src/token.rs
index d268e8a..2c7178b 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -949,7 +949,7 @@ impl Token {
 
         /* First add internal session objects */
         for (_, o) in &self.session_objects {
-            if o.is_sensitive() {
+            if o.is_sensitive() || !o.is_extractable() {
                 match self.facilities.factories.check_sensitive(o, template) {
                     Err(_) => continue,
                     Ok(()) => (),
-- 
2.43.0


From 997961e5f0dbb157f2afb42d2e3210a54609826b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:51 +0000
Subject: [PATCH 14/70] fix: copying a token object through a read-only session
 creates no token object

---
 src/fns/objmgmt.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/fns/objmgmt.rs b/src/fns/objmgmt.rs
index 4555924..abbfe09 100644
--- a/src/fns/objmgmt.rs
+++ b/src/fns/objmgmt.rs
@@ -141,11 +141,19 @@ fn copy_object(
     } else {
         &mut []
     };
+    let slot_id = session.get_slot_id();
+    let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+
     if !session.is_writable() {
         fail_if_cka_token_true(tmpl)?;
+        /* unless told otherwise the copy of a token object is also stored
+         * on the token */
+        if !tmpl.iter().any(|a| a.type_ == CKA_TOKEN)
+            && token.get_object_by_handle(o_handle)?.is_token()
+        {
+            return Err(CKR_SESSION_READ_ONLY)?;
+        }
     }
-    let slot_id = session.get_slot_id();
-    let mut token = rstate.get_token_from_slot_mut(slot_id)?;
 
     /* TODO: return CKR_ACTION_PROHIBITED instead of CKR_USER_NOT_LOGGED_IN ? */
     let oh = token.copy_object(s_handle, o_handle, tmpl)?;
-- 
2.43.0


From 6433ac31fe3149d60b86ce435673267d2cfa1850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:57:51 +0000
Subject: [PATCH 15/70] fix: derivation through a read-only session creates no
 additional token keys

---
 src/fns/keymgmt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 4034047..803e976 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -620,6 +620,10 @@ fn derive_key(
     if result.len() == 0 {
         return Err(CKR_GENERAL_ERROR)?;
     }
+    /* additional keys have their own templates in the mechanism parameters */
+    if !session.is_writable() && result.iter().any(|k| k.is_token()) {
+        return Err(CKR_SESSION_READ_ONLY)?;
+    }
 
     #[cfg(feature = "fips")]
     {
-- 
2.43.0


From 413cfeb9ba6cdffbcb022309a497579dc5290b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:03 +0000
Subject: [PATCH 16/70] fix: AES key generation refuses impossible key lengths

---
 src/aes.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/aes.rs b/src/aes.rs
index 68fd3bc..f9de3aa 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -314,6 +314,11 @@ impl Mechanism for AesMechanism {
         key.ensure_ulong(CKA_KEY_TYPE, CKK_AES)
             .map_err(|_| CKR_TEMPLATE_INCONSISTENT)?;
 
+        match key.get_attr_as_ulong(CKA_VALUE_LEN) {
+            Ok(len) => check_key_len(usize::try_from(len)?)?,
+            Err(_) => return Err(CKR_TEMPLATE_INCOMPLETE)?,
+        }
+
         default_secret_key_generate(&mut key)?;
         default_key_attributes(&mut key, mech.mechanism)?;
         Ok(key)
-- 
2.43.0


From 78374f95b73c200747d4c6ae49840a81eea5e0f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:08 +0000
Subject: [PATCH 17/70] fix: nssdb reads back CK_UNAVAILABLE_INFORMATION values
 as such

---
 src/storage/nssdb/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index b62aad2..9497f33 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -545,8 +545,10 @@ impl NSSStorage {
                                     return Err(CKR_ATTRIBUTE_VALUE_INVALID)?
                                 }
                             };
-                            let number = u32::from_be_bytes(bytes);
-                            number as CK_ULONG
+                            match u32::from_be_bytes(bytes) {
+                                u32::MAX => CK_UNAVAILABLE_INFORMATION,
+                                number => number as CK_ULONG,
+                            }
                         };
                         Attribute::from_attr_slice(
                             cols[i],
-- 
2.43.0


From 162d25f294b67f4a1059809636acdf1b681c8881 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:17 +0000
Subject: [PATCH 18/70] fix: failed key pair generation or derivation leaves no
 undestroyable object behind

---
 src/fns/keymgmt.rs |  8 ++++----
 src/token.rs       | 10 ++++++++++
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index 803e976..d06e069 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -200,7 +200,7 @@ fn generate_key_pair(
                     Ok(())
                 }
                 Err(e) => {
-                    let _ = token.destroy_object(pubh);
+                    token.discard_object(pubh);
                     Err(e)?
                 }
             }
@@ -699,9 +699,9 @@ fn derive_key(
                         Ok(h) => ah.push(h),
                         Err(e) => {
                             for h in ah {
-                                let _ = token.destroy_object(h);
+                                token.discard_object(h);
                             }
-                            let _ = token.destroy_object(kh);
+                            token.discard_object(kh);
                             return Err(e)?;
                         }
                     }
@@ -738,7 +738,7 @@ fn derive_key(
                     Ok(h) => ah.push(h),
                     Err(e) => {
                         for h in ah {
-                            let _ = token.destroy_object(h);
+                            token.discard_object(h);
                         }
                         return Err(e)?;
                     }
diff --git a/src/token.rs b/src/token.rs
index 2c7178b..29e97f7 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -795,6 +795,16 @@ impl Token {
         Ok(())
     }
 
+    /// Removes an object that was just inserted by a call that then failed.
+    ///
+    /// The caller never got the handle, so CKA_DESTROYABLE is not consulted.
+    pub fn discard_object(&mut self, o_handle: CK_OBJECT_HANDLE) {
+        if self.session_objects.remove(&o_handle).is_none() {
+            let _ = self.storage.remove(&self.facilities, o_handle);
+        }
+        self.facilities.handles.remove(o_handle);
+    }
+
     /// Retrieves specified attributes for an object identified by its handle.
     ///
     /// Checks session cache then storage. Performs login checks. Uses the
-- 
2.43.0


From 8b8d9c0419ab1cf2091c720785ad5824850c36fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:13:17 +0000
Subject: [PATCH 19/70] fix: C_DestroyObject removes nssdb objects and reports
 storage errors

---
 src/storage/nssdb/mod.rs | 48 ++++++++++++++++++++++++++++++++++++----
 src/token.rs             |  2 +-
 2 files changed, 45 insertions(+), 5 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 9497f33..16b1179 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -984,6 +984,18 @@ impl NSSStorage {
         Self::save_metadata(tx, &name, val, &[])
     }
 
+    /// Deletes the signature of an authenticated attribute, if there is one.
+    fn delete_signature(
+        tx: &mut Transaction,
+        dbtype: &str,
+        nssobjid: u32,
+        atype: CK_ULONG,
+    ) -> Result<()> {
+        let name = format!("sig_{}_{:08x}_{:08x}", dbtype, nssobjid, atype);
+        tx.execute("DELETE FROM metaData WHERE id=?", params![name])?;
+        Ok(())
+    }
+
     /// Updates attributes of an existing object in the specified table within
     /// a transaction.
     ///
@@ -1420,13 +1432,41 @@ impl Storage for NSSStorage {
         Ok(result)
     }
 
-    /// Removes an object by handle (currently not supported for NSS DB).
+    /// Removes an object by handle, along with the signatures of its
+    /// authenticated attributes.
     fn remove(
         &mut self,
-        _facilities: &TokenFacilities,
-        _handle: CK_OBJECT_HANDLE,
+        facilities: &TokenFacilities,
+        handle: CK_OBJECT_HANDLE,
     ) -> Result<()> {
-        Err(CKR_FUNCTION_NOT_SUPPORTED)?
+        let nssid = match facilities.handles.get(handle) {
+            Some(id) => id,
+            None => return Err(CKR_OBJECT_HANDLE_INVALID)?,
+        };
+        let (table, nssobjid) = nss_id_parse(nssid)?;
+
+        let dbtype = match table.as_str() {
+            NSS_PUBLIC_TABLE => "cert",
+            NSS_PRIVATE_TABLE => "key",
+            _ => return Err(CKR_GENERAL_ERROR)?,
+        };
+
+        let mut conn = self.conn.lock()?;
+        let mut tx = conn.transaction()?;
+        tx.set_drop_behavior(rusqlite::DropBehavior::Rollback);
+        tx.execute(
+            &format!("DELETE FROM {} WHERE id=?", table),
+            params![nssobjid],
+        )?;
+        for attr_info in ALL_ATTRIBUTES.iter().filter(|a| a.authenticated) {
+            Self::delete_signature(
+                &mut tx,
+                dbtype,
+                nssobjid,
+                attr_info.attr_type,
+            )?;
+        }
+        Ok(tx.commit()?)
     }
 
     /// Loads the token info (derived from configuration and DB state).
diff --git a/src/token.rs b/src/token.rs
index 29e97f7..f16b4ad 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -788,7 +788,7 @@ impl Token {
                 if !obj.is_destroyable() {
                     return Err(CKR_ACTION_PROHIBITED)?;
                 }
-                let _ = self.storage.remove(&self.facilities, o_handle);
+                self.storage.remove(&self.facilities, o_handle)?;
             }
         }
         self.facilities.handles.remove(o_handle);
-- 
2.43.0


From b25fb62b5427bd6982f535371543c52fe6bb5b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:00 +0000
Subject: [PATCH 20/70] fix: a new PIN clears the lockout flags of the old one

---
 src/token.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/token.rs b/src/token.rs
index f16b4ad..164a3ab 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -313,6 +313,8 @@ impl Token {
 
         self.storage.set_user_pin(&self.facilities, utype, pin)?;
 
+        /* a new PIN has all its attempts left */
+        self.update_auth_flags(utype, 0);
         if utype == CKU_USER {
             self.info.flags |= CKF_USER_PIN_INITIALIZED;
         }
-- 
2.43.0


From 23172a11b9c4384e3ab37cd928d209c16488788a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:00 +0000
Subject: [PATCH 21/70] fix: track the context specific login per operation

A session kept one login status for all of its operations, so initializing
any other operation after a sign or decrypt operation with an
always-authenticate key removed the need for the context specific login.
---
 src/fns/sessmgmt.rs |  9 +----
 src/session.rs      | 83 ++++++++++++++++++++++++++++++++++-----------
 2 files changed, 64 insertions(+), 28 deletions(-)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index c433910..1845c09 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -299,14 +299,7 @@ fn login(
     let vpin = unsafe { bytes_to_slice(pin as *const u8, pin_len as usize) };
     let mut token = rstate.get_token_from_slot_mut(slot_id)?;
     if user_type == CKU_CONTEXT_SPECIFIC {
-        let session = rstate.get_session_mut(s_handle)?;
-        match session.check_login_status() {
-            Err(e) => match e.rv() {
-                CKR_USER_NOT_LOGGED_IN => (),
-                _ => return Err(CKR_OPERATION_NOT_INITIALIZED)?,
-            },
-            Ok(()) => return Err(CKR_OPERATION_NOT_INITIALIZED)?,
-        }
+        rstate.get_session_mut(s_handle)?.check_login_pending()?;
     }
 
     let result = token.login(user_type, &vpin);
diff --git a/src/session.rs b/src/session.rs
index 35f2c78..7785eec 100644
--- a/src/session.rs
+++ b/src/session.rs
@@ -49,7 +49,7 @@ impl SearchOperation for SessionSearch {
 }
 
 /// Represents the login status requirement for an active operation.
-#[derive(Debug)]
+#[derive(Debug, Clone, Copy, PartialEq)]
 pub enum OpLoginStatus {
     /// No operation active.
     NotInitialized,
@@ -69,6 +69,7 @@ pub trait ManageOperation {
     fn check_no_op(so: &SessionOperations) -> Result<()>;
     fn get_op(so: &mut SessionOperations) -> Result<&mut Self>;
     fn set_op(so: &mut SessionOperations, op: Box<Self>);
+    fn login_status(so: &mut SessionOperations) -> &mut OpLoginStatus;
 }
 
 /// Macro to implement the `ManageOperation` trait for a specific operation
@@ -78,6 +79,7 @@ macro_rules! impl_mop {
         impl ManageOperation for dyn $optype {
             fn cancel_operation(so: &mut SessionOperations) -> Result<()> {
                 so.$($opname).+ = None;
+                so.login.$($opname).+ = OpLoginStatus::NotInitialized;
                 Ok(())
             }
 
@@ -113,6 +115,10 @@ macro_rules! impl_mop {
             fn set_op(so: &mut SessionOperations, op: Box<Self>) {
                 so.$($opname).+ = Some(op);
             }
+
+            fn login_status(so: &mut SessionOperations) -> &mut OpLoginStatus {
+                &mut so.login.$($opname).+
+            }
         }
     };
 }
@@ -130,6 +136,22 @@ pub struct SessionOperations {
     sign: Option<Box<dyn Sign>>,
     verify: Option<Box<dyn Verify>>,
     verifysig: Option<Box<dyn VerifySignature>>,
+    /// Login requirement status of each of the operations above.
+    login: OperationsLogin,
+}
+
+/// Login requirement status per operation type
+#[derive(Debug)]
+struct OperationsLogin {
+    msg_encryption: OpLoginStatus,
+    msg_decryption: OpLoginStatus,
+    search: OpLoginStatus,
+    encryption: OpLoginStatus,
+    decryption: OpLoginStatus,
+    digest: OpLoginStatus,
+    sign: OpLoginStatus,
+    verify: OpLoginStatus,
+    verifysig: OpLoginStatus,
 }
 
 impl_mop!(MsgEncryption, msg_encryption);
@@ -301,6 +323,17 @@ impl SessionOperations {
             sign: None,
             verify: None,
             verifysig: None,
+            login: OperationsLogin {
+                msg_encryption: OpLoginStatus::NotInitialized,
+                msg_decryption: OpLoginStatus::NotInitialized,
+                search: OpLoginStatus::NotInitialized,
+                encryption: OpLoginStatus::NotInitialized,
+                decryption: OpLoginStatus::NotInitialized,
+                digest: OpLoginStatus::NotInitialized,
+                sign: OpLoginStatus::NotInitialized,
+                verify: OpLoginStatus::NotInitialized,
+                verifysig: OpLoginStatus::NotInitialized,
+            },
         }
     }
 }
@@ -314,8 +347,9 @@ pub struct Session {
     //notify: CK_NOTIFY,
     /// Container for active cryptographic operations.
     operations: SessionOperations,
-    /// Tracks login requirement status for the current operation.
-    login_status: OpLoginStatus,
+    /// Points at the login requirement status of the last initialized
+    /// operation that needs a context specific login.
+    login_pending: Option<fn(&mut SessionOperations) -> &mut OpLoginStatus>,
     /// Tracks FIPS approval status for the current operation.
     fips_indicator: Option<bool>,
 }
@@ -365,7 +399,7 @@ impl Session {
             //application: std::ptr::null_mut(),
             //notify: unsafe { std::ptr::null_mut() },
             operations: SessionOperations::new(),
-            login_status: OpLoginStatus::NotInitialized,
+            login_pending: None,
             fips_indicator: None,
         })
     }
@@ -522,18 +556,17 @@ impl Session {
         O::check_no_op(&self.operations)
     }
 
-    /// Checks if the current login state permits the active operation.
+    /// Checks if an active operation is waiting for a context specific login
     ///
-    /// Returns `CKR_USER_NOT_LOGGED_IN` if login is required but not satisfied.
-    pub fn check_login_status(&self) -> Result<()> {
-        match self.login_status {
-            OpLoginStatus::NotInitialized => {
-                Err(CKR_OPERATION_NOT_INITIALIZED)?
+    /// Only the last initialized operation that needs a login is considered.
+    /// Returns CKR_OPERATION_NOT_INITIALIZED if there is no such operation.
+    pub fn check_login_pending(&mut self) -> Result<()> {
+        if let Some(login_status) = self.login_pending {
+            if *login_status(&mut self.operations) == OpLoginStatus::Required {
+                return Ok(());
             }
-            OpLoginStatus::NotRequired => Ok(()),
-            OpLoginStatus::Required => Err(CKR_USER_NOT_LOGGED_IN)?,
-            OpLoginStatus::LoginOk => Ok(()),
         }
+        Err(CKR_OPERATION_NOT_INITIALIZED)?
     }
 
     /// Gets a mutable reference to the currently active operation of type `O`.
@@ -542,7 +575,13 @@ impl Session {
     pub fn get_operation<O: ManageOperation + ?Sized>(
         &mut self,
     ) -> Result<&mut O> {
-        self.check_login_status()?;
+        match *O::login_status(&mut self.operations) {
+            OpLoginStatus::NotInitialized => {
+                Err(CKR_OPERATION_NOT_INITIALIZED)?
+            }
+            OpLoginStatus::Required => Err(CKR_USER_NOT_LOGGED_IN)?,
+            OpLoginStatus::NotRequired | OpLoginStatus::LoginOk => (),
+        }
         O::get_op(&mut self.operations)
     }
 
@@ -556,7 +595,8 @@ impl Session {
         needs_login: bool,
     ) {
         self.fips_indicator = None; /* FIXME: per operation ? */
-        self.login_status = if needs_login {
+        *O::login_status(&mut self.operations) = if needs_login {
+            self.login_pending = Some(O::login_status);
             OpLoginStatus::Required
         } else {
             OpLoginStatus::NotRequired
@@ -565,9 +605,12 @@ impl Session {
         O::set_op(&mut self.operations, op);
     }
 
-    /// Marks the current operation's login requirement as satisfied.
+    /// Marks the login requirement of the operation waiting for it as
+    /// satisfied.
     pub fn set_login_ok(&mut self) {
-        self.login_status = OpLoginStatus::LoginOk;
+        if let Some(login_status) = self.login_pending.take() {
+            *login_status(&mut self.operations) = OpLoginStatus::LoginOk;
+        }
     }
 
     pub fn state_size(&mut self) -> Result<usize> {
@@ -751,19 +794,19 @@ impl Session {
             }
             let mech = mechanisms.get(op.mech)?;
             let operation = mech.digest_restore(op.mech, op.data)?;
-            <dyn Digest>::set_op(&mut self.operations, operation);
+            self.set_operation::<dyn Digest>(operation, false);
         }
         if let Some(op) = opstate.sig {
             let op_key = key.ok_or(CKR_KEY_NEEDED)?;
             let mech_h = mechanisms.get(op.mech)?;
             let operation = mech_h.sign_restore(op.mech, op_key, op.data)?;
-            <dyn Sign>::set_op(&mut self.operations, operation);
+            self.set_operation::<dyn Sign>(operation, op_key.always_auth());
         }
         if let Some(op) = opstate.ver {
             let op_key = key.ok_or(CKR_KEY_NEEDED)?;
             let mech_h = mechanisms.get(op.mech)?;
             let operation = mech_h.verify_restore(op.mech, op_key, op.data)?;
-            <dyn Verify>::set_op(&mut self.operations, operation);
+            self.set_operation::<dyn Verify>(operation, false);
         }
         if let Some(_op) = opstate.versig {
             return Err(CKR_SAVED_STATE_INVALID)?;
-- 
2.43.0


From 091e8da656442e576eda863c4e941d3f83f20c27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 22/70] fix: AES short buffers and one-shot calls keep the
 operation intact

---
 src/ossl/aes.rs | 86 ++++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 68 insertions(+), 18 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 48f9a44..b83b4c3 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -157,6 +157,8 @@ pub struct AesOperation {
     ctx: Option<OsslCipher>,
     /// Internal buffer for handling partial blocks or accumulating data.
     buffer: Vec<u8>,
+    /// Last part of a padded decryption the caller had no room for.
+    last_part: Option<Vec<u8>>,
     /// Counter for blocks processed (used for CTR mode limits).
     blockctr: u128,
     /// Option to report fips indicator status
@@ -167,6 +169,9 @@ pub struct AesOperation {
 impl Drop for AesOperation {
     fn drop(&mut self) {
         zeromem(self.buffer.as_mut_slice());
+        if let Some(last) = &mut self.last_part {
+            zeromem(last.as_mut_slice());
+        }
     }
 }
 
@@ -623,6 +628,7 @@ impl AesOperation {
             in_use: false,
             ctx: Some(ctx),
             buffer: Vec::new(),
+            last_part: None,
             blockctr: 0,
             #[cfg(feature = "fips")]
             fips_approval: fips_approval,
@@ -662,6 +668,7 @@ impl AesOperation {
             in_use: false,
             ctx: Some(ctx),
             buffer: Vec::new(),
+            last_part: None,
             blockctr: 0,
             #[cfg(feature = "fips")]
             fips_approval: fips_approval,
@@ -993,6 +1000,7 @@ impl AesOperation {
             in_use: false,
             ctx: None,
             buffer: Vec::new(),
+            last_part: None,
             blockctr: 0,
             #[cfg(feature = "fips")]
             fips_approval: FipsApproval::init(),
@@ -1063,6 +1071,7 @@ impl AesOperation {
             in_use: false,
             ctx: None,
             buffer: Vec::new(),
+            last_part: None,
             blockctr: 0,
             #[cfg(feature = "fips")]
             fips_approval: FipsApproval::init(),
@@ -1182,9 +1191,15 @@ impl Encryption for AesOperation {
     /// Internally calls [AesOperation::encrypt_update] and
     /// [AesOperation::encrypt_final]
     fn encrypt(&mut self, plain: &[u8], cipher: &mut [u8]) -> Result<usize> {
-        if self.finalized {
+        if self.finalized || self.in_use {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        /* check for the whole output, so that a buffer that is too small
+         * is reported before any data is consumed */
+        let needed_len = self.encryption_len(plain.len(), true)?;
+        if cipher.len() < needed_len {
+            return Err(error::Error::buf_too_small(needed_len));
+        }
         let outl = self.encrypt_update(plain, cipher)?;
         if outl > cipher.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
@@ -1202,8 +1217,8 @@ impl Encryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
-        self.in_use = true;
 
+        let mut blocks = 0;
         let mut outlen = self.encryption_len(plain.len(), false)?;
         match self.mech {
             CKM_AES_CTS => {
@@ -1212,11 +1227,10 @@ impl Encryption for AesOperation {
                 }
                 /* some modes are one shot, and we use blockctr to mark that update
                  * has already been called once */
-                if self.blockctr == 0 {
-                    self.blockctr = 1;
-                } else {
+                if self.blockctr != 0 {
                     return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
                 }
+                blocks = 1;
             }
             CKM_AES_CCM => {
                 /* This should allow smaller plain length to update
@@ -1244,7 +1258,7 @@ impl Encryption for AesOperation {
                     if self.blockctr + reqblocks > self.params.maxblocks {
                         return Err(self.op_err(CKR_DATA_LEN_RANGE));
                     }
-                    self.blockctr += reqblocks;
+                    blocks = reqblocks;
                 }
             }
             CKM_AES_KEY_WRAP => {
@@ -1258,6 +1272,8 @@ impl Encryption for AesOperation {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        self.in_use = true;
+        self.blockctr += blocks;
 
         let ctx = match &mut self.ctx {
             Some(c) => c,
@@ -1335,7 +1351,8 @@ impl Encryption for AesOperation {
                     if cipher_offset != plain.len() {
                         return Err(self.op_err(CKR_DEVICE_ERROR));
                     }
-                    cipher.copy_from_slice(&buffer[..cipher_offset]);
+                    cipher[..cipher_offset]
+                        .copy_from_slice(&buffer[..cipher_offset]);
                     zeromem(&mut buffer);
                     /* input fully consumed */
                     plain_offset = plain_end;
@@ -1549,7 +1566,7 @@ impl Decryption for AesOperation {
     /// Internally calls [AesOperation::decrypt_update] and
     /// [AesOperation::decrypt_final]
     fn decrypt(&mut self, cipher: &[u8], plain: &mut [u8]) -> Result<usize> {
-        if self.finalized {
+        if self.finalized || self.in_use {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
         let outl = self.decrypt_update(cipher, plain)?;
@@ -1569,6 +1586,10 @@ impl Decryption for AesOperation {
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        if self.last_part.is_some() {
+            /* only the retry of final may follow */
+            return Err(CKR_OPERATION_NOT_INITIALIZED)?;
+        }
         match self.mech {
             CKM_AES_CTS => {
                 if cipher.len() < AES_BLOCK_SIZE {
@@ -1577,9 +1598,7 @@ impl Decryption for AesOperation {
 
                 /* CTS mode is one shot, and we use blockctr to mark that update
                  * has already been called once */
-                if self.blockctr == 0 {
-                    self.blockctr = 1;
-                } else {
+                if self.blockctr != 0 {
                     return Err(self.op_err(CKR_OPERATION_NOT_INITIALIZED));
                 }
             }
@@ -1597,8 +1616,8 @@ impl Decryption for AesOperation {
             }
             _ => (),
         }
-        self.in_use = true;
 
+        let mut blocks = 0;
         let outlen = match self.mech {
             CKM_AES_CCM => {
                 let needlen = self.params.datalen + self.params.taglen;
@@ -1627,7 +1646,7 @@ impl Decryption for AesOperation {
                     if self.blockctr + reqblocks > self.params.maxblocks {
                         return Err(self.op_err(CKR_DATA_LEN_RANGE));
                     }
-                    self.blockctr += reqblocks;
+                    blocks = reqblocks;
                 }
                 cipher.len()
             }
@@ -1644,12 +1663,18 @@ impl Decryption for AesOperation {
                     * AES_BLOCK_SIZE
             }
             CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => cipher.len(),
+            CKM_AES_CTS => {
+                blocks = 1;
+                cipher.len()
+            }
             _ => cipher.len(),
         };
         if plain.len() < outlen {
             /* This is the only, non-fatal error */
             return Err(error::Error::buf_too_small(outlen));
         }
+        self.in_use = true;
+        self.blockctr += blocks;
 
         let ctx = match &mut self.ctx {
             Some(c) => c,
@@ -1789,7 +1814,8 @@ impl Decryption for AesOperation {
                     if plain_offset != cipher.len() {
                         return Err(self.op_err(CKR_DEVICE_ERROR));
                     }
-                    plain.copy_from_slice(&buffer[..plain_offset]);
+                    plain[..plain_offset]
+                        .copy_from_slice(&buffer[..plain_offset]);
                     zeromem(&mut buffer);
                     /* input fully consumed */
                     cipher_offset = cipher_end;
@@ -1888,10 +1914,30 @@ impl Decryption for AesOperation {
                 if self.buffer.len() != 0 {
                     return Err(CKR_DATA_LEN_RANGE)?;
                 }
-                outlen = match ctx.finalize(plain) {
-                    Ok(len) => len,
-                    Err(_) => return Err(CKR_ENCRYPTED_DATA_INVALID)?,
+                /* The last part can be anything up to a block, and its size
+                 * is known only once it has been decrypted: keep it around
+                 * if the caller's buffer turns out to be too small */
+                let mut last = match self.last_part.take() {
+                    Some(l) => l,
+                    None => {
+                        let mut buf = vec![0u8; AES_BLOCK_SIZE];
+                        match ctx.finalize(&mut buf) {
+                            Ok(len) => buf.truncate(len),
+                            Err(_) => {
+                                return Err(CKR_ENCRYPTED_DATA_INVALID)?
+                            }
+                        }
+                        buf
+                    }
                 };
+                outlen = last.len();
+                if plain.len() < outlen {
+                    self.last_part = Some(last);
+                    self.finalized = false;
+                    return Err(error::Error::buf_too_small(outlen));
+                }
+                plain[..outlen].copy_from_slice(&last);
+                zeromem(last.as_mut_slice());
             }
             #[cfg(not(feature = "fips"))]
             CKM_AES_CFB8 | CKM_AES_CFB1 | CKM_AES_CFB128 | CKM_AES_OFB => (),
@@ -1942,7 +1988,11 @@ impl Decryption for AesOperation {
                     if (self.buffer.len() + data_len) % AES_BLOCK_SIZE != 0 {
                         return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
                     }
-                    self.buffer.len() + data_len
+                    /* after an update a block may still be held back until
+                     * the padding can be checked */
+                    self.buffer.len()
+                        + data_len
+                        + if self.in_use { AES_BLOCK_SIZE } else { 0 }
                 }
                 CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => {
                     if data_len % AES_KWP_BLOCK != 0 {
-- 
2.43.0


From 9442a12970a99e79cb49b2acf3ed2152d38d88b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 23/70] fix: AES-GCM multi-part decryption dropped ciphertext

---
 src/ossl/aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index b83b4c3..4967fe0 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1757,9 +1757,9 @@ impl Decryption for AesOperation {
                             zeromem(&mut self.buffer.as_mut_slice()[..buflen]);
                             let _ = self.buffer.drain(..buflen);
                         }
+                        /* The cipher buffer has been utilized */
+                        cipher_offset = cipher_end;
                     }
-                    /* The cipher buffer has been utilized */
-                    cipher_offset = cipher_end;
                 } else if cipher_end > self.params.taglen {
                     cipher_end -= self.params.taglen;
                     self.buffer.extend_from_slice(&cipher[cipher_end..]);
-- 
2.43.0


From 3223e390a91114e0e363b103a89dba3848266a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 24/70] fix: AES-CCM takes exactly the announced data, once

---
 src/ossl/aes.rs | 28 +++++++++++++++++++++-------
 1 file changed, 21 insertions(+), 7 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 4967fe0..9eaee63 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1233,6 +1233,10 @@ impl Encryption for AesOperation {
                 blocks = 1;
             }
             CKM_AES_CCM => {
+                /* a whole message has been processed already */
+                if self.blockctr != 0 && plain.len() > 0 {
+                    return Err(self.op_err(CKR_DATA_LEN_RANGE));
+                }
                 /* This should allow smaller plain length to update
                  * piecemeal, but CCM is one shot in OpenSSL so we
                  * have to force a full update for large datalens
@@ -1248,6 +1252,8 @@ impl Encryption for AesOperation {
                 }
                 if plain.len() + self.buffer.len() < self.params.datalen {
                     outlen = 0;
+                } else {
+                    blocks = 1;
                 }
             }
             CKM_AES_CTR => {
@@ -1400,6 +1406,11 @@ impl Encryption for AesOperation {
         let mut outlen = 0;
         match self.mech {
             CKM_AES_CCM | CKM_AES_GCM => {
+                if self.mech == CKM_AES_CCM && self.blockctr == 0 {
+                    /* the announced data has not been provided in full */
+                    self.finalized = true;
+                    return Err(CKR_DATA_LEN_RANGE)?;
+                }
                 if cipher.len() < self.params.taglen {
                     /* This is the only, non-fatal error */
                     return Err(error::Error::buf_too_small(
@@ -1603,6 +1614,10 @@ impl Decryption for AesOperation {
                 }
             }
             CKM_AES_CCM => {
+                /* a whole message has been processed already */
+                if self.blockctr != 0 && cipher.len() > 0 {
+                    return Err(self.op_err(CKR_DATA_LEN_RANGE));
+                }
                 if cipher.len() + self.buffer.len()
                     > self.params.datalen + self.params.taglen
                 {
@@ -1634,6 +1649,9 @@ impl Decryption for AesOperation {
                 if cipher.len() + self.buffer.len() > needlen {
                     return Err(self.op_err(CKR_DATA_LEN_RANGE));
                 }
+                if cipher.len() + self.buffer.len() == needlen {
+                    blocks = 1;
+                }
                 /* always return the amount we know will be
                  * ultimately needed */
                 self.params.datalen
@@ -1868,7 +1886,7 @@ impl Decryption for AesOperation {
         let mut outlen = 0;
         match self.mech {
             CKM_AES_CCM => {
-                if self.buffer.len() > 0 {
+                if self.blockctr == 0 || self.buffer.len() > 0 {
                     return Err(CKR_DATA_LEN_RANGE)?;
                 }
             }
@@ -2004,12 +2022,8 @@ impl Decryption for AesOperation {
             }
         } else {
             match self.mech {
-                CKM_AES_CCM => {
-                    if self.buffer.len() + data_len < self.params.taglen {
-                        return Err(self.op_err(CKR_ENCRYPTED_DATA_LEN_RANGE));
-                    }
-                    self.buffer.len() + data_len - self.params.taglen
-                }
+                /* decrypt_update always wants room for all of the data */
+                CKM_AES_CCM => self.params.datalen,
                 CKM_AES_GCM => {
                     if self.buffer.len() + data_len < self.params.taglen {
                         0
-- 
2.43.0


From cf4f1290f119f2a7346cd0cf82090550df418210 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:43 +0000
Subject: [PATCH 25/70] fix: AES-CTR counter limit with a partial counter octet

---
 src/ossl/aes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 9eaee63..a175638 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -314,8 +314,9 @@ impl AesOperation {
                     }
                     let part = u128::try_from(ctrbits % 8)?;
                     if part > 0 {
+                        let mask = (1u128 << part) - 1;
                         maxblocks -=
-                            (u128::try_from(iv[15 - idx])? & part) << (idx * 8);
+                            (u128::try_from(iv[15 - idx])? & mask) << (idx * 8);
                     }
                     if maxblocks == 0 {
                         return Err(CKR_MECHANISM_PARAM_INVALID)?;
-- 
2.43.0


From a20c1b983109600631e12cb77ceee15439097289 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 26/70] fix: RSA encryption reported success for an empty
 output buffer

---
 src/ossl/rsa.rs | 15 +++------------
 1 file changed, 3 insertions(+), 12 deletions(-)

diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index e009014..489e4d3 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -548,8 +548,7 @@ impl RsaPKCSOperation {
         info: &CK_MECHANISM_INFO,
     ) -> Result<Vec<u8>> {
         let mut op = Self::decrypt_new(mech, wrapping_key, info)?;
-        let outlen = op.decrypt(data, &mut [])?;
-        let mut result = vec![0u8; outlen];
+        let mut result = vec![0u8; op.decryption_len(data.len(), true)?];
         let outlen = op.decrypt(data, result.as_mut_slice())?;
         result.resize(outlen, 0);
         Ok(result)
@@ -584,12 +583,8 @@ impl Encryption for RsaPKCSOperation {
 
         let len = if let Some(ctx) = &mut self.encctx {
             let outlen = ctx.encrypt(plain, None)?;
-            if cipher.len() == 0 {
-                return Ok(outlen);
-            } else {
-                if cipher.len() < outlen {
-                    return Err(Error::buf_too_small(outlen));
-                }
+            if cipher.len() < outlen {
+                return Err(Error::buf_too_small(outlen));
             }
 
             self.finalized = true;
@@ -642,10 +637,6 @@ impl Decryption for RsaPKCSOperation {
 
         let len = if let Some(ctx) = &mut self.encctx {
             let mut outlen = ctx.decrypt(cipher, None)?;
-            if plain.len() == 0 {
-                return Ok(outlen);
-            }
-
             if plain.len() < outlen && plain.len() < self.output_len {
                 return Err(CKR_BUFFER_TOO_SMALL)?;
             }
-- 
2.43.0


From 34b61ca1fb08f7ee38b28fa6a1522a8fed36055c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:56 +0000
Subject: [PATCH 27/70] fix: C_FindObjectsFinal without a search is an error

---
 src/fns/objmgmt.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fns/objmgmt.rs b/src/fns/objmgmt.rs
index abbfe09..f9e8fb6 100644
--- a/src/fns/objmgmt.rs
+++ b/src/fns/objmgmt.rs
@@ -571,6 +571,7 @@ pub extern "C" fn fn_find_objects(
 fn find_objects_final(s_handle: CK_SESSION_HANDLE) -> Result<()> {
     let rstate = STATE.rlock()?;
     let mut session = rstate.get_session_mut(s_handle)?;
+    session.check_op::<dyn SearchOperation>()?;
     session.cancel_operation::<dyn SearchOperation>()
 }
 
-- 
2.43.0


From f2e0d5fd10c14d9b34b4ff7e29135e80a11415e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:40 +0000
Subject: [PATCH 28/70] fix: AES-CTS needed a larger output buffer than it
 reports

---
 src/ossl/aes.rs | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index a175638..a6a394e 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1346,10 +1346,12 @@ impl Encryption for AesOperation {
             }
             CKM_AES_CTS => {
                 /* CTS requires a minimum of 2 blocks to perform stealing
-                 * so if the output is smaller we need to use a support buffer
-                 * to call into OpenSSL */
-                if cipher.len() < AES_BLOCK_SIZE * 2 {
-                    let mut buffer = [0u8; AES_BLOCK_SIZE * 2];
+                 * and room for whole blocks so if the output is smaller
+                 * we need to use a support buffer to call into OpenSSL */
+                let needlen =
+                    ctx.buffer_size(plain.len()).max(AES_BLOCK_SIZE * 2);
+                if cipher.len() < needlen {
+                    let mut buffer = vec![0u8; needlen];
                     cipher_offset =
                         ctx.update(plain, &mut buffer).or_else(|_| {
                             self.finalized = true;
@@ -1821,10 +1823,12 @@ impl Decryption for AesOperation {
             }
             CKM_AES_CTS => {
                 /* CTS requires a minimum of 2 blocks to perform stealing
-                 * so if the output is smaller we need to use a support buffer
-                 * to call into OpenSSL */
-                if plain.len() < AES_BLOCK_SIZE * 2 {
-                    let mut buffer = [0u8; AES_BLOCK_SIZE * 2];
+                 * and room for whole blocks so if the output is smaller
+                 * we need to use a support buffer to call into OpenSSL */
+                let needlen =
+                    ctx.buffer_size(cipher.len()).max(AES_BLOCK_SIZE * 2);
+                if plain.len() < needlen {
+                    let mut buffer = vec![0u8; needlen];
                     plain_offset =
                         ctx.update(cipher, &mut buffer).or_else(|_| {
                             self.finalized = true;
-- 
2.43.0


From 85786becbf73fdaa987a7cacf4d255c79f0c8ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:26 +0000
Subject: [PATCH 29/70] fix: padded AES decryption failed when parts split a
 block

---
 src/ossl/aes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index a6a394e..5a09960 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1805,7 +1805,11 @@ impl Decryption for AesOperation {
                                 self.finalized = true;
                                 Err(CKR_DEVICE_ERROR)
                             })?;
-                        if plain_offset != AES_BLOCK_SIZE {
+                        /* with padding the last block is always held back,
+                         * so there may be no output yet */
+                        if plain_offset != AES_BLOCK_SIZE
+                            && self.mech != CKM_AES_CBC_PAD
+                        {
                             return Err(self.op_err(CKR_DEVICE_ERROR));
                         }
                         zeromem(self.buffer.as_mut_slice());
-- 
2.43.0


From 3990adc34685a8837969ee1b91d3d0ce6ec98402 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:15 +0000
Subject: [PATCH 30/70] fix: a 7 byte AES-CCM nonce overflowed a shift

---
 src/ossl/aes.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 5a09960..8122dd3 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -219,7 +219,7 @@ impl AesOperation {
                 }
                 let l = 15 - params.ulNonceLen;
                 if params.ulDataLen == 0
-                    || params.ulDataLen > (1 << (8 * l))
+                    || (l < 8 && params.ulDataLen > (1 << (8 * l)))
                     || params.ulDataLen > (CK_ULONG::MAX - params.ulMACLen)
                 {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
@@ -771,7 +771,7 @@ impl AesOperation {
                 }
                 let l = 15 - params.ulNonceLen;
                 if params.ulDataLen == 0
-                    || params.ulDataLen > (1 << (8 * l))
+                    || (l < 8 && params.ulDataLen > (1 << (8 * l)))
                     || params.ulDataLen > (CK_ULONG::MAX - params.ulMACLen)
                 {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
-- 
2.43.0


From f2e45eb13d968a3f8f62bc13d2d1f2b1b0327ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 31/70] fix: AES-MAC of an empty message failed in multi-part
 form

---
 src/ossl/aes.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 8122dd3..7ffa549 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -2934,12 +2934,11 @@ impl AesMacOperation {
     /// Finalizes the MAC computation and returns the output in the
     /// provided buffer
     fn finalize(&mut self, output: &mut [u8]) -> Result<()> {
-        if !self.in_use {
-            return Err(CKR_OPERATION_NOT_INITIALIZED)?;
-        }
         if self.finalized {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
+        /* It is valid to finalize without any update */
+        self.in_use = true;
         self.finalized = true;
 
         if output.len() != self.maclen {
-- 
2.43.0


From f112869f11d03518ed7008166713eefd83045fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:19 +0000
Subject: [PATCH 32/70] fix: AES-CTR limit counts bytes and covers the full
 counter range

---
 src/ossl/aes.rs | 94 ++++++++++++++++++-------------------------------
 1 file changed, 34 insertions(+), 60 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 7ffa549..8d5e2e4 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -159,7 +159,7 @@ pub struct AesOperation {
     buffer: Vec<u8>,
     /// Last part of a padded decryption the caller had no room for.
     last_part: Option<Vec<u8>>,
-    /// Counter for blocks processed (used for CTR mode limits).
+    /// Counter for data processed (bytes in CTR mode, to enforce its limit).
     blockctr: u128,
     /// Option to report fips indicator status
     #[cfg(feature = "fips")]
@@ -291,37 +291,25 @@ impl AesOperation {
                 let iv = params.cb.to_vec();
                 let ctrbits = usize::try_from(params.ulCounterBits)
                     .map_err(|_| CKR_MECHANISM_PARAM_INVALID)?;
-                let mut maxblocks = 0u128;
-                if ctrbits < (AES_BLOCK_SIZE * 8) {
-                    /* FIXME: support arbitrary counterbits wrapping.
-                     * OpenSSL CTR mode is built to handle the whole IV
-                     * as a 128bit counter unconditionally.
-                     * For callers that want a smaller counterbit size all
-                     * we can do is to set a maximum number of blocks so
-                     * that the counter space does *not* wrap (because
-                     * openssl won't wrap it but proceed to increment the
-                     * octets part of the IV/Nonce). This means that for
-                     * applications that initialize the counter to a value
-                     * like 1 all will be fine, but application that
-                     * initialize the counter to a random value and expect
-                     * wrapping will see a failure instead of wrapping */
-                    maxblocks = (1 << ctrbits) - 1;
-                    let fulloctects = ctrbits / 8;
-                    let mut idx = 0;
-                    while fulloctects > idx {
-                        maxblocks -= u128::try_from(iv[15 - idx])? << (idx * 8);
-                        idx += 1;
-                    }
-                    let part = u128::try_from(ctrbits % 8)?;
-                    if part > 0 {
-                        let mask = (1u128 << part) - 1;
-                        maxblocks -=
-                            (u128::try_from(iv[15 - idx])? & mask) << (idx * 8);
-                    }
-                    if maxblocks == 0 {
-                        return Err(CKR_MECHANISM_PARAM_INVALID)?;
-                    }
-                } else if ctrbits > (AES_BLOCK_SIZE * 8) {
+                if ctrbits == 0 || ctrbits > (AES_BLOCK_SIZE * 8) {
+                    return Err(CKR_MECHANISM_PARAM_INVALID)?;
+                }
+                /* FIXME: support arbitrary counterbits wrapping.
+                 * OpenSSL CTR mode is built to handle the whole IV
+                 * as a 128bit counter unconditionally.
+                 * For callers that want a smaller counterbit size all
+                 * we can do is to set a maximum number of blocks so
+                 * that the counter space does *not* wrap (because
+                 * openssl won't wrap it but proceed to increment the
+                 * octets part of the IV/Nonce). This means that for
+                 * applications that initialize the counter to a value
+                 * like 1 all will be fine, but application that
+                 * initialize the counter to a random value and expect
+                 * wrapping will see a failure instead of wrapping */
+                let maxcounter = u128::MAX >> (AES_BLOCK_SIZE * 8 - ctrbits);
+                let maxblocks =
+                    maxcounter - (u128::from_be_bytes(params.cb) & maxcounter);
+                if maxblocks == 0 {
                     return Err(CKR_MECHANISM_PARAM_INVALID)?;
                 }
 
@@ -1259,13 +1247,14 @@ impl Encryption for AesOperation {
             }
             CKM_AES_CTR => {
                 if self.params.maxblocks != 0 {
-                    let reqblocks = ((plain.len() + AES_BLOCK_SIZE - 1)
-                        / AES_BLOCK_SIZE)
-                        as u128;
-                    if self.blockctr + reqblocks > self.params.maxblocks {
+                    /* count bytes, as parts may end within a block */
+                    let total = self.blockctr + plain.len() as u128;
+                    if total.div_ceil(AES_BLOCK_SIZE as u128)
+                        > self.params.maxblocks
+                    {
                         return Err(self.op_err(CKR_DATA_LEN_RANGE));
                     }
-                    blocks = reqblocks;
+                    blocks = plain.len() as u128;
                 }
             }
             CKM_AES_KEY_WRAP => {
@@ -1429,16 +1418,7 @@ impl Encryption for AesOperation {
                 outlen = self.params.taglen;
                 ctx.get_tag(&mut cipher[..outlen])?;
             }
-            CKM_AES_CTR => {
-                self.finalized = true;
-                if self.params.maxblocks > 0 {
-                    if self.blockctr >= self.params.maxblocks {
-                        self.finalized = true;
-                        return Err(CKR_DATA_LEN_RANGE)?;
-                    }
-                }
-            }
-            CKM_AES_CTS => (),
+            CKM_AES_CTR | CKM_AES_CTS => (),
             #[cfg(not(feature = "fips"))]
             CKM_AES_CFB8 | CKM_AES_CFB1 | CKM_AES_CFB128 | CKM_AES_OFB => (),
             CKM_AES_ECB | CKM_AES_CBC => {
@@ -1661,13 +1641,14 @@ impl Decryption for AesOperation {
             }
             CKM_AES_CTR => {
                 if self.params.maxblocks != 0 {
-                    let reqblocks = ((cipher.len() + AES_BLOCK_SIZE - 1)
-                        / AES_BLOCK_SIZE)
-                        as u128;
-                    if self.blockctr + reqblocks > self.params.maxblocks {
+                    /* count bytes, as parts may end within a block */
+                    let total = self.blockctr + cipher.len() as u128;
+                    if total.div_ceil(AES_BLOCK_SIZE as u128)
+                        > self.params.maxblocks
+                    {
                         return Err(self.op_err(CKR_DATA_LEN_RANGE));
                     }
-                    blocks = reqblocks;
+                    blocks = cipher.len() as u128;
                 }
                 cipher.len()
             }
@@ -1913,14 +1894,7 @@ impl Decryption for AesOperation {
                     Err(_) => return Err(CKR_ENCRYPTED_DATA_INVALID)?,
                 }
             }
-            CKM_AES_CTR => {
-                if self.params.maxblocks > 0 {
-                    if self.blockctr >= self.params.maxblocks {
-                        return Err(CKR_DATA_LEN_RANGE)?;
-                    }
-                }
-            }
-            CKM_AES_CTS => (),
+            CKM_AES_CTR | CKM_AES_CTS => (),
             CKM_AES_ECB | CKM_AES_CBC => {
                 if self.buffer.len() != 0 {
                     return Err(CKR_DATA_LEN_RANGE)?;
-- 
2.43.0


From 81ba45426007cb5c9ff6109c61c5fa7d56c6b2b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:34 +0000
Subject: [PATCH 33/70] fix: AES message operations keep messages apart and
 fail cleanly

---
 src/ossl/aes.rs | 44 ++++++++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 8 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 8d5e2e4..8c82db1 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1019,7 +1019,7 @@ impl AesOperation {
         let iv_ptr = self.init_msg_params(parameter, parameter_len, aad)?;
 
         self.finalized = false;
-        self.in_use = true;
+        self.buffer.clear();
 
         self.ctx = Some(Self::cipher_initialize(
             self.mech,
@@ -1027,6 +1027,7 @@ impl AesOperation {
             &self.key,
             true,
         )?);
+        self.in_use = true;
 
         if self.params.iv.generator != CKG_NO_GENERATE {
             let iv = unsafe {
@@ -1090,7 +1091,7 @@ impl AesOperation {
         let _ = self.init_msg_params(parameter, parameter_len, aad)?;
 
         self.finalized = false;
-        self.in_use = true;
+        self.buffer.clear();
 
         self.ctx = Some(Self::cipher_initialize(
             self.mech,
@@ -1098,6 +1099,7 @@ impl AesOperation {
             &self.key,
             false,
         )?);
+        self.in_use = true;
 
         #[cfg(feature = "fips")]
         self.fips_approval_aead()?;
@@ -2072,8 +2074,18 @@ impl MsgEncryption for AesOperation {
         plain: &[u8],
         cipher: &mut [u8],
     ) -> Result<usize> {
+        if cipher.len() < plain.len() {
+            /* This is the only non-fatal error */
+            return Err(error::Error::buf_too_small(plain.len()));
+        }
         self.msg_encrypt_begin(param, paramlen, aad)?;
-        self.msg_encrypt_final(param, paramlen, plain, cipher)
+        let ret = self.msg_encrypt_final(param, paramlen, plain, cipher);
+        if ret.is_err() {
+            /* the message is over in any case, nothing of it is released */
+            self.in_use = false;
+            zeromem(cipher);
+        }
+        ret
     }
 
     /// Begin a new message based encryption
@@ -2178,6 +2190,9 @@ impl MsgEncryption for AesOperation {
         }
 
         let tagptr = self.check_msg_params(param, paramlen)?;
+        if tagptr.is_null() {
+            return Err(self.op_err(CKR_ARGUMENTS_BAD));
+        }
 
         let outlen = match self.mech {
             CKM_AES_CCM => {
@@ -2242,8 +2257,8 @@ impl MsgEncryption for AesOperation {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
         match self.mech {
-            CKM_AES_CCM => Ok(self.params.datalen),
-            CKM_AES_GCM => Ok(data_len),
+            CKM_AES_CCM if self.in_use => Ok(self.params.datalen),
+            CKM_AES_CCM | CKM_AES_GCM => Ok(data_len),
             _ => Err(self.op_err(CKR_GENERAL_ERROR)),
         }
     }
@@ -2262,8 +2277,18 @@ impl MsgDecryption for AesOperation {
         cipher: &[u8],
         plain: &mut [u8],
     ) -> Result<usize> {
+        if plain.len() < cipher.len() {
+            /* This is the only non-fatal error */
+            return Err(error::Error::buf_too_small(cipher.len()));
+        }
         self.msg_decrypt_begin(param, paramlen, aad)?;
-        self.msg_decrypt_final(param, paramlen, cipher, plain)
+        let ret = self.msg_decrypt_final(param, paramlen, cipher, plain);
+        if ret.is_err() {
+            /* the message is over in any case, nothing of it is released */
+            self.in_use = false;
+            zeromem(plain);
+        }
+        ret
     }
 
     /// Begin a new message based decryption
@@ -2355,6 +2380,9 @@ impl MsgDecryption for AesOperation {
         }
 
         let tagptr = self.check_msg_params(param, paramlen)?;
+        if tagptr.is_null() {
+            return Err(self.op_err(CKR_ARGUMENTS_BAD));
+        }
 
         #[cfg(feature = "fips")]
         self.fips_approval.clear();
@@ -2446,8 +2474,8 @@ impl MsgDecryption for AesOperation {
             return Err(CKR_OPERATION_NOT_INITIALIZED)?;
         }
         match self.mech {
-            CKM_AES_CCM => Ok(self.params.datalen),
-            CKM_AES_GCM => Ok(data_len),
+            CKM_AES_CCM if self.in_use => Ok(self.params.datalen),
+            CKM_AES_CCM | CKM_AES_GCM => Ok(data_len),
             _ => Err(self.op_err(CKR_GENERAL_ERROR)),
         }
     }
-- 
2.43.0


From 078fb816bffcabede3237f038ccf9488a7e7fce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:29 +0000
Subject: [PATCH 34/70] fix: generated message IVs repeated with the XOR
 counter

---
 src/ossl/aes.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index 8c82db1..dd520d2 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -75,6 +75,9 @@ struct AesIvData {
     counter: u64,
     /// Maximum counter value before wrapping/error (if applicable).
     maxcount: u64,
+    /// Generator, fixed bits and IV of the first message with a generated IV.
+    /// IVs can be unique only if all of them are generated the same way.
+    first: Option<(CK_GENERATOR_FUNCTION, usize, Vec<u8>)>,
 }
 
 impl AesIvData {
@@ -86,6 +89,7 @@ impl AesIvData {
             generator: CKG_NO_GENERATE,
             counter: 0,
             maxcount: 0,
+            first: None,
         })
     }
 
@@ -97,6 +101,7 @@ impl AesIvData {
             generator: CKG_NO_GENERATE,
             counter: 0,
             maxcount: 0,
+            first: None,
         })
     }
 }
@@ -469,6 +474,19 @@ impl AesOperation {
     /// data in the operation object as needed.
     fn generate_iv(params: &mut AesParams) -> Result<()> {
         let genbits = params.iv.buf.len() * 8 - params.iv.fixedbits;
+        let base = match &params.iv.first {
+            Some((generator, fixedbits, base)) => {
+                if *generator != params.iv.generator
+                    || *fixedbits != params.iv.fixedbits
+                    || base.len() != params.iv.buf.len()
+                {
+                    return Err(CKR_ARGUMENTS_BAD)?;
+                }
+                base.clone()
+            }
+            None => params.iv.buf.clone(),
+        };
+
         if params.iv.counter == 0 {
             params.iv.maxcount = if genbits >= 64 {
                 u64::MAX
@@ -504,6 +522,12 @@ impl AesOperation {
             }
             CKG_GENERATE_COUNTER_XOR => {
                 let cntbuf = params.iv.counter.to_be_bytes();
+                /* The buffer of the application may hold the previous IV
+                 * by now, the counter always applies to the first one */
+                params.iv.buf[genidx] =
+                    (params.iv.buf[genidx] & !mask) | (base[genidx] & mask);
+                params.iv.buf[(genidx + 1)..]
+                    .copy_from_slice(&base[(genidx + 1)..]);
                 if genbytes > cntbuf.len() {
                     let cntidx = params.iv.buf.len() - cntbuf.len();
                     params.iv.buf[cntidx..]
@@ -528,6 +552,10 @@ impl AesOperation {
             _ => return Err(CKR_GENERAL_ERROR)?,
         }
 
+        if params.iv.first.is_none() {
+            params.iv.first =
+                Some((params.iv.generator, params.iv.fixedbits, base));
+        }
         params.iv.counter += 1;
         Ok(())
     }
@@ -799,6 +827,7 @@ impl AesOperation {
                         generator: params.nonceGenerator,
                         counter: self.params.iv.counter,
                         maxcount: self.params.iv.maxcount,
+                        first: self.params.iv.first.take(),
                     };
                 } else {
                     self.params.iv = AesIvData {
@@ -807,6 +836,7 @@ impl AesOperation {
                         generator: CKG_NO_GENERATE,
                         counter: 0,
                         maxcount: 0,
+                        first: None,
                     };
                 }
                 self.params.maxblocks = 0;
@@ -870,6 +900,7 @@ impl AesOperation {
                         generator: params.ivGenerator,
                         counter: self.params.iv.counter,
                         maxcount: self.params.iv.maxcount,
+                        first: self.params.iv.first.take(),
                     };
                 } else {
                     self.params.iv = AesIvData {
@@ -878,6 +909,7 @@ impl AesOperation {
                         generator: CKG_NO_GENERATE,
                         counter: 0,
                         maxcount: 0,
+                        first: None,
                     };
                 }
                 self.params.maxblocks = 0;
-- 
2.43.0


From aae62acb6d102315482afef060cc7b924529a63d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:31 +0000
Subject: [PATCH 35/70] fix: C_Verify ended only some failed verifications

---
 src/fns/signing.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index 023c0bc..2ad00a5 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -387,6 +387,8 @@ fn verify(
     let sig_len =
         CK_ULONG::try_from(signature_len).map_err(|_| CKR_GENERAL_ERROR)?;
     if psignature_len != sig_len {
+        /* a failed verification is over */
+        session.cancel_operation::<dyn Verify>()?;
         return Err(CKR_SIGNATURE_LEN_RANGE)?;
     }
     let dlen = usize::try_from(data_len).map_err(|_| CKR_ARGUMENTS_BAD)?;
@@ -505,6 +507,8 @@ fn verify_final(
     let sig_len =
         CK_ULONG::try_from(signature_len).map_err(|_| CKR_GENERAL_ERROR)?;
     if psignature_len != sig_len {
+        /* a failed verification is over */
+        session.cancel_operation::<dyn Verify>()?;
         return Err(CKR_SIGNATURE_LEN_RANGE)?;
     }
     let signature: &mut [u8] =
-- 
2.43.0


From 7e70b24db096031356acfce7578fe77e5a05c98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:21 +0000
Subject: [PATCH 36/70] fix: an invalid signature was reported as a device
 error

---
 src/ossl/common.rs | 11 +++++++++++
 src/ossl/ecdsa.rs  |  8 ++++----
 src/ossl/rsa.rs    |  5 +++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/ossl/common.rs b/src/ossl/common.rs
index ffe2b76..8646ea0 100644
--- a/src/ossl/common.rs
+++ b/src/ossl/common.rs
@@ -242,3 +242,14 @@ pub fn extract_public_key(privkey: &Object) -> Result<Vec<u8>> {
         Err(CKR_KEY_UNEXTRACTABLE)?
     }
 }
+
+/// Maps the error of a signature verification: what OpenSSL does not accept
+/// is an invalid signature
+pub fn verify_error(error: ossl::Error) -> crate::error::Error {
+    match error.kind() {
+        ossl::ErrorKind::OsslError => {
+            crate::error::Error::ck_rv(CKR_SIGNATURE_INVALID)
+        }
+        _ => error.into(),
+    }
+}
diff --git a/src/ossl/ecdsa.rs b/src/ossl/ecdsa.rs
index e5ba7c9..e844a5c 100644
--- a/src/ossl/ecdsa.rs
+++ b/src/ossl/ecdsa.rs
@@ -370,9 +370,9 @@ impl EcdsaOperation {
                 let mut sig = pkcs11_to_ossl_signature(s)?;
                 let ret = self.sigctx.verify(data, Some(sig.as_slice()));
                 zeromem(sig.as_mut_slice());
-                return Ok(ret?);
+                return ret.map_err(verify_error);
             } else {
-                return Ok(self.sigctx.verify(data, None)?);
+                return self.sigctx.verify(data, None).map_err(verify_error);
             }
         }
         self.verify_int_update(data)?;
@@ -410,9 +410,9 @@ impl EcdsaOperation {
             let mut sig = pkcs11_to_ossl_signature(s)?;
             let ret = self.sigctx.verify_final(Some(sig.as_slice()));
             zeromem(sig.as_mut_slice());
-            Ok(ret?)
+            ret.map_err(verify_error)
         } else {
-            Ok(self.sigctx.verify_final(None)?)
+            self.sigctx.verify_final(None).map_err(verify_error)
         }
     }
 }
diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index 489e4d3..19e4338 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -15,6 +15,7 @@ use crate::misc::{bytes_to_vec, zeromem};
 use crate::object::Object;
 use crate::ossl::common::{
     mech_type_to_digest_alg, osslctx, privkey_from_object, pubkey_from_object,
+    verify_error,
 };
 use crate::pkcs11::*;
 
@@ -831,7 +832,7 @@ impl RsaPKCSOperation {
                     }
                 }
                 if let Some(ctx) = &mut self.sigctx {
-                    ctx.verify(data, signature)?;
+                    ctx.verify(data, signature).map_err(verify_error)?;
                 } else {
                     return Err(CKR_GENERAL_ERROR)?;
                 }
@@ -892,7 +893,7 @@ impl RsaPKCSOperation {
         self.fips_approval.clear();
 
         if let Some(ctx) = &mut self.sigctx {
-            ctx.verify_final(signature)?;
+            ctx.verify_final(signature).map_err(verify_error)?;
         } else {
             return Err(CKR_GENERAL_ERROR)?;
         }
-- 
2.43.0


From 3acfa991ea0a24f6f654bf7df7f704700864a569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 37/70] fix: C_Decrypt left unverified plaintext in the output
 buffer

---
 src/ossl/aes.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index dd520d2..d3dc881 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1601,7 +1601,16 @@ impl Decryption for AesOperation {
         if outl > plain.len() {
             return Err(self.op_err(CKR_GENERAL_ERROR));
         }
-        Ok(outl + self.decrypt_final(&mut plain[outl..])?)
+        match self.decrypt_final(&mut plain[outl..]) {
+            Ok(len) => Ok(outl + len),
+            Err(e) => {
+                /* nothing may be released unless it could be verified */
+                if self.finalized {
+                    zeromem(&mut plain[..outl]);
+                }
+                Err(e)
+            }
+        }
     }
 
     /// Calls the underlying OpenSSL function to decrypt the ciphertext buffer
-- 
2.43.0


From 8482fab1140692a77ca0c193b0cf63425bad978c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:15 +0000
Subject: [PATCH 38/70] fix: AES key wrap decryption accepted empty data

---
 src/ossl/aes.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/ossl/aes.rs b/src/ossl/aes.rs
index d3dc881..c832372 100644
--- a/src/ossl/aes.rs
+++ b/src/ossl/aes.rs
@@ -1707,7 +1707,10 @@ impl Decryption for AesOperation {
                 ((self.buffer.len() + cipher.len()) / AES_BLOCK_SIZE)
                     * AES_BLOCK_SIZE
             }
-            CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => cipher.len(),
+            CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => {
+                blocks = (cipher.len() / AES_KWP_BLOCK) as u128;
+                cipher.len()
+            }
             CKM_AES_CTS => {
                 blocks = 1;
                 cipher.len()
@@ -1985,7 +1988,12 @@ impl Decryption for AesOperation {
             }
             #[cfg(not(feature = "fips"))]
             CKM_AES_CFB8 | CKM_AES_CFB1 | CKM_AES_CFB128 | CKM_AES_OFB => (),
-            CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => (),
+            CKM_AES_KEY_WRAP | CKM_AES_KEY_WRAP_KWP => {
+                /* nothing at all is not a wrapped key */
+                if self.blockctr == 0 {
+                    return Err(CKR_ENCRYPTED_DATA_LEN_RANGE)?;
+                }
+            }
             _ => return Err(CKR_GENERAL_ERROR)?,
         }
 
-- 
2.43.0


From 9c33278e0c7582e2abf2081e1b534b1122207bde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 39/70] fix: AES wrapping mechanisms refuse keys that are not
 AES or generic secret keys

---
 src/aes.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/aes.rs b/src/aes.rs
index f9de3aa..5540527 100644
--- a/src/aes.rs
+++ b/src/aes.rs
@@ -257,6 +257,16 @@ impl AesMechanism {
     }
 }
 
+/// Checks that a key is of a class and type that AES mechanisms can wrap and
+/// unwrap with, generic secret keys are tolerated
+fn usable_for_wrapping(key: &Object) -> Result<bool> {
+    Ok(key.get_attr_as_ulong(CKA_CLASS)? == CKO_SECRET_KEY
+        && matches!(
+            key.get_attr_as_ulong(CKA_KEY_TYPE)?,
+            CKK_AES | CKK_GENERIC_SECRET
+        ))
+}
+
 impl Mechanism for AesMechanism {
     fn info(&self) -> &CK_MECHANISM_INFO {
         &self.info
@@ -340,6 +350,9 @@ impl Mechanism for AesMechanism {
         if self.info.flags & CKF_WRAP != CKF_WRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        if !usable_for_wrapping(wrapping_key)? {
+            return Err(CKR_WRAPPING_KEY_TYPE_INCONSISTENT)?;
+        }
         AesOperation::wrap(
             mech,
             wrapping_key,
@@ -364,6 +377,9 @@ impl Mechanism for AesMechanism {
         if self.info.flags & CKF_UNWRAP != CKF_UNWRAP {
             return Err(CKR_MECHANISM_INVALID)?;
         }
+        if !usable_for_wrapping(wrapping_key)? {
+            return Err(CKR_UNWRAPPING_KEY_TYPE_INCONSISTENT)?;
+        }
         let keydata = AesOperation::unwrap(mech, wrapping_key, data)?;
         key_template
             .as_key_factory()?
-- 
2.43.0


From d59a2ceee6f106a231cdad8de6568ec2b856dc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 40/70] fix: ECDH mechanisms refuse base keys that are not EC
 keys

---
 src/ossl/ecdh.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/ossl/ecdh.rs b/src/ossl/ecdh.rs
index 3f054a6..c556c65 100644
--- a/src/ossl/ecdh.rs
+++ b/src/ossl/ecdh.rs
@@ -143,6 +143,10 @@ impl Derive for ECDHOperation {
         }
         self.finalized = true;
 
+        match key.get_attr_as_ulong(CKA_KEY_TYPE)? {
+            CKK_EC | CKK_EC_MONTGOMERY => (),
+            _ => return Err(CKR_KEY_TYPE_INCONSISTENT)?,
+        }
         let mut pkey = privkey_from_object(key)?;
         let mut ecdh = EcdhDerive::new(osslctx(), &mut pkey)?;
 
-- 
2.43.0


From d39c24aa921c7f027ed0c222435fb3ce5fcdda73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:32 +0000
Subject: [PATCH 41/70] fix: size queries and key wrapping work for raw RSA

---
 src/ossl/rsa.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/ossl/rsa.rs b/src/ossl/rsa.rs
index 19e4338..f8e5e2b 100644
--- a/src/ossl/rsa.rs
+++ b/src/ossl/rsa.rs
@@ -618,7 +618,9 @@ impl Encryption for RsaPKCSOperation {
 
     fn encryption_len(&mut self, _: usize, _: bool) -> Result<usize> {
         match self.mech {
-            CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => Ok(self.output_len),
+            CKM_RSA_X_509 | CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => {
+                Ok(self.output_len)
+            }
             _ => Err(CKR_GENERAL_ERROR)?,
         }
     }
@@ -690,7 +692,9 @@ impl Decryption for RsaPKCSOperation {
 
     fn decryption_len(&mut self, _: usize, _: bool) -> Result<usize> {
         match self.mech {
-            CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => Ok(self.output_len),
+            CKM_RSA_X_509 | CKM_RSA_PKCS | CKM_RSA_PKCS_OAEP => {
+                Ok(self.output_len)
+            }
             _ => Err(CKR_GENERAL_ERROR)?,
         }
     }
-- 
2.43.0


From a09021b989ab8a384f81066ea242424d03a8f9b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:58 +0000
Subject: [PATCH 42/70] fix: TLS MAC signs and verifies only with keys that
 permit it

---
 src/fips/kats.rs     |  2 +-
 src/native/tlskdf.rs | 20 +++++++++++++-------
 src/tlskdf.rs        |  4 ++--
 3 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/src/fips/kats.rs b/src/fips/kats.rs
index 02097f3..b0b61a6 100644
--- a/src/fips/kats.rs
+++ b/src/fips/kats.rs
@@ -124,7 +124,7 @@ pub static TLS_PRF_SELFTEST: LazyLock<FIPSSelftest> = LazyLock::new(|| {
 
     let mech = test_get_hmac(prf);
 
-    let mut tlsprf = match TLSPRF::init(&key, &mech, prf) {
+    let mut tlsprf = match TLSPRF::init(&key, &mech, prf, CKF_DERIVE) {
         Ok(a) => a,
         Err(_) => return FIPSSelftest::fail(),
     };
diff --git a/src/native/tlskdf.rs b/src/native/tlskdf.rs
index 89f65d2..b347396 100644
--- a/src/native/tlskdf.rs
+++ b/src/native/tlskdf.rs
@@ -72,10 +72,12 @@ pub(crate) struct TLSPRF {
 
 impl TLSPRF {
     /// Initializes a new TLS PRF instance using the specified HMAC mechanism
+    /// for the operation (CKF_DERIVE, CKF_SIGN, CKF_VERIFY) the key is used in
     pub(crate) fn init(
         key: &Object,
         mech: &Box<dyn Mechanism>,
         prf: CK_MECHANISM_TYPE,
+        op: CK_FLAGS,
     ) -> Result<TLSPRF> {
         Ok(TLSPRF {
             op: mech.mac_new(
@@ -85,7 +87,7 @@ impl TLSPRF {
                     ulParameterLen: 0,
                 },
                 key,
-                CKF_DERIVE,
+                op,
             )?,
         })
     }
@@ -151,7 +153,7 @@ pub fn test_tlsprf(
     seed: &Vec<u8>,
     reqlen: usize,
 ) -> Result<Vec<u8>> {
-    let mut tlsprf = TLSPRF::init(key, mech, prf)?;
+    let mut tlsprf = TLSPRF::init(key, mech, prf, CKF_DERIVE)?;
     tlsprf.finish(seed, reqlen)
 }
 
@@ -638,7 +640,7 @@ impl TLSKDFOperation {
             _ => return Err(CKR_GENERAL_ERROR)?,
         };
         let dkmlen = TLS_MASTER_SECRET_SIZE as usize;
-        let mut tlsprf = TLSPRF::init(key, mech, self.prf)?;
+        let mut tlsprf = TLSPRF::init(key, mech, self.prf, CKF_DERIVE)?;
         let dkm = tlsprf.finish(&seed, dkmlen)?;
 
         factory.as_secret_key_factory()?.set_key(&mut dkey, dkm)?;
@@ -751,7 +753,7 @@ impl TLSKDFOperation {
         let mech = mechanisms.get(self.prf)?;
         let seed = self.tls_prf_seed(false);
         let dkmlen = (2 * (self.maclen + self.keylen + self.ivlen)) as usize;
-        let mut tlsprf = TLSPRF::init(key, mech, self.prf)?;
+        let mut tlsprf = TLSPRF::init(key, mech, self.prf, CKF_DERIVE)?;
         let mut dkm = tlsprf.finish(&seed, dkmlen)?;
 
         let mut keys = Vec::<Object>::with_capacity(4);
@@ -860,7 +862,7 @@ impl TLSKDFOperation {
 
         let mech = mechanisms.get(self.prf)?;
         let seed = self.tls_prf_seed(true);
-        let mut tlsprf = TLSPRF::init(key, mech, self.prf)?;
+        let mut tlsprf = TLSPRF::init(key, mech, self.prf, CKF_DERIVE)?;
         let dkm = tlsprf.finish(&seed, dkmlen)?;
 
         factory.as_secret_key_factory()?.set_key(&mut dkey, dkm)?;
@@ -947,7 +949,11 @@ impl TLSMACOperation {
     /// Parses `CK_TLS_MAC_PARAMS`, validates the PRF mechanism and label
     /// choice (server/client finished), initializes the internal TLS PRF,
     /// and stores parameters.
-    pub fn new(mech: &CK_MECHANISM, key: &Object) -> Result<TLSMACOperation> {
+    pub fn new(
+        mech: &CK_MECHANISM,
+        key: &Object,
+        op: CK_FLAGS,
+    ) -> Result<TLSMACOperation> {
         #[cfg(feature = "fips")]
         if (*TLS_PRF_SELFTEST).result != CKR_OK {
             return Err((*TLS_PRF_SELFTEST).result)?;
@@ -977,7 +983,7 @@ impl TLSMACOperation {
             in_use: false,
             outputlen: maclen,
             seed: label.to_vec(),
-            tlsprf: TLSPRF::init(key, mac, prf)?,
+            tlsprf: TLSPRF::init(key, mac, prf, op)?,
             #[cfg(feature = "fips")]
             fips_approved: is_hmac_fips_approved(prf),
         })
diff --git a/src/tlskdf.rs b/src/tlskdf.rs
index 95b2c6a..91f00e9 100644
--- a/src/tlskdf.rs
+++ b/src/tlskdf.rs
@@ -113,7 +113,7 @@ impl Mechanism for TLSPRFMechanism {
         }
         match mech.mechanism {
             CKM_TLS_MAC | CKM_TLS12_MAC => {
-                Ok(Box::new(TLSMACOperation::new(mech, key)?))
+                Ok(Box::new(TLSMACOperation::new(mech, key, CKF_SIGN)?))
             }
             _ => Err(CKR_MECHANISM_INVALID)?,
         }
@@ -133,7 +133,7 @@ impl Mechanism for TLSPRFMechanism {
         }
         match mech.mechanism {
             CKM_TLS_MAC | CKM_TLS12_MAC => {
-                Ok(Box::new(TLSMACOperation::new(mech, key)?))
+                Ok(Box::new(TLSMACOperation::new(mech, key, CKF_VERIFY)?))
             }
             _ => Err(CKR_MECHANISM_INVALID)?,
         }
-- 
2.43.0


From fd1bf6f85a90d9cbb1fd418d7c44b5bd68676a72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:39 +0000
Subject: [PATCH 43/70] fix: PUB_KEY_FROM_PRIV_KEY goes by the class of the
 base key, not by CKA_PRIVATE

---
 src/native/simplekdf.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index f127f6f..b9c306e 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -495,7 +495,7 @@ impl Derive for PubFromPrivOperation {
         // key must be a private key
         // It does not need to allow derivation, as this is a pseudo
         // mechanism that is alaways usable for any private key
-        if !key.is_private() {
+        if key.get_class() != CKO_PRIVATE_KEY {
             return Err(CKR_KEY_TYPE_INCONSISTENT)?;
         }
 
-- 
2.43.0


From 32dbf5581bee68a2c32fe32c959339d930f6e4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 44/70] fix: a failed C_Initialize leaves the library
 uninitialized

---
 src/config.rs      |  2 +-
 src/fns/general.rs | 25 +++++++++++++++++++++++--
 2 files changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/config.rs b/src/config.rs
index 266bbf4..1354609 100644
--- a/src/config.rs
+++ b/src/config.rs
@@ -254,7 +254,7 @@ impl Default for FipsBehavior {
 /// The main config structure is comprised of two elements, a general
 /// EC Point Encoding indicator and a list of slots
 
-#[derive(Debug, Serialize, Deserialize)]
+#[derive(Debug, Clone, Serialize, Deserialize)]
 pub struct Config {
     /// Type of encoding for EC Public Points
     #[serde(default)]
diff --git a/src/fns/general.rs b/src/fns/general.rs
index 54c6105..b8a124b 100644
--- a/src/fns/general.rs
+++ b/src/fns/general.rs
@@ -13,12 +13,34 @@ use crate::error::Result;
 use crate::log_debug;
 use crate::pkcs11::*;
 use crate::slot::Slot;
-use crate::STATE;
+use crate::{State, STATE};
 
 #[inline(always)]
 fn initialize(init_args: CK_VOID_PTR) -> Result<()> {
     let mut conf = crate::CONFIG.wlock()?;
+    let mut wstate = STATE.wlock_noinitcheck()?;
+
+    let saved_conf = conf.clone();
+    let was_initialized = wstate.is_initialized();
+
+    let ret = load_slots(&mut conf, &mut wstate, init_args);
 
+    if ret.is_err() && !was_initialized {
+        /* a failed initialization must leave nothing behind, so that it can
+         * be attempted again */
+        *conf = saved_conf;
+        if wstate.is_initialized() {
+            let _ = wstate.finalize();
+        }
+    }
+    ret
+}
+
+fn load_slots(
+    conf: &mut Config,
+    wstate: &mut State,
+    init_args: CK_VOID_PTR,
+) -> Result<()> {
     /* Before loading the default config see if there is a cutsom config
      * provided via reserved arg pointer */
     if !init_args.is_null() {
@@ -44,7 +66,6 @@ fn initialize(init_args: CK_VOID_PTR) -> Result<()> {
 
     conf.load_env_vars_overrides();
 
-    let mut wstate = STATE.wlock_noinitcheck()?;
     let mut already_init = false;
 
     if wstate.is_initialized() {
-- 
2.43.0


From df516cc31d01546980697705dba080f5723c3c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 45/70] fix: C_Logout does not depend on reading the storage

---
 src/storage/format.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index d96be53..4e172c9 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -521,8 +521,9 @@ impl Storage for StdStorageFormat {
 
     /// Unauthenticates a user via the ACI layer (clears the master key).
     fn unauth_user(&mut self, user_type: CK_USER_TYPE) -> Result<()> {
-        /* check it exists so we return the correct error */
-        let _ = self.store.fetch_user(get_pin_uid(user_type)?)?;
+        /* check it is valid so we return the correct error, do not depend on
+         * the storage though, a logout must always drop the keys */
+        let _ = get_pin_uid(user_type)?;
         self.aci.unauth();
         Ok(())
     }
-- 
2.43.0


From 1022ed425f2f205322261205ad65d89bebe5345b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 46/70] fix: a login that fails for other reasons does not
 change the PIN flags

---
 src/token.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/token.rs b/src/token.rs
index 164a3ab..1c6d4c5 100644
--- a/src/token.rs
+++ b/src/token.rs
@@ -393,9 +393,15 @@ impl Token {
             &mut flags,
             check_only,
         );
-        self.update_auth_flags(user_type, flags);
-        if ret.is_err() {
-            return ret;
+        match ret {
+            Ok(()) => self.update_auth_flags(user_type, flags),
+            Err(e) => {
+                /* any other error tells nothing about the PIN */
+                if e.rv() == CKR_PIN_INCORRECT || e.rv() == CKR_PIN_LOCKED {
+                    self.update_auth_flags(user_type, flags);
+                }
+                return Err(e);
+            }
         }
         if !check_only {
             self.logged = user_type;
-- 
2.43.0


From c78f4d85dd440a62a33301d87623530366bb1390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:28 +0000
Subject: [PATCH 47/70] fix: a failed login attempt that cannot be counted is
 reported as a storage error

---
 src/storage/format.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/storage/format.rs b/src/storage/format.rs
index 4e172c9..78879d4 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -504,7 +504,12 @@ impl Storage for StdStorageFormat {
         )?;
 
         if update {
-            let _ = self.store.store_user(uid, &user_data);
+            let stored = self.store.store_user(uid, &user_data);
+            /* failing to reset the counter must not prevent a valid login,
+             * but a failed attempt that can't be counted is a storage error */
+            if user_data.cur_attempts != 0 {
+                stored?;
+            }
         }
 
         if user_data.cur_attempts == 0 {
-- 
2.43.0


From e954d5a2ffddc1cfe8867d739e0e0d4a6495b603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:51 +0000
Subject: [PATCH 48/70] fix: a PIN change that cannot be stored keeps the keys
 of the NSS storage

---
 src/storage/nssdb/mod.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index 16b1179..b35d75e 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -1594,14 +1594,15 @@ impl Storage for NSSStorage {
 
         /* FIXME: need to re-encode all encrypted/integrity protected attributes */
 
+        let result = self.save_password(&salt, encdata.as_slice());
+        zeromem(encdata.as_mut_slice());
+        result?;
+
         /* now that the pin has changed all cached keys are invalid, replace the lot */
         self.keys = newkeys;
         /* changing the pin does not leave the token logged in */
         self.keys.unset_key();
-
-        let result = self.save_password(&salt, encdata.as_slice());
-        zeromem(encdata.as_mut_slice());
-        result
+        Ok(())
     }
 }
 
-- 
2.43.0


From bc12d06868b79c152688f6153edd362093a4d428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 49/70] fix: unwrapping a secret key drops the padding that
 CKA_VALUE_LEN excludes

---
 src/object/key.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/object/key.rs b/src/object/key.rs
index 5e69146..196964c 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -386,6 +386,15 @@ pub trait SecretKeyFactory: KeyFactory {
         mut data: Vec<u8>,
         template: &[CK_ATTRIBUTE],
     ) -> Result<Object> {
+        /* mechanisms like AES-CBC pad the key, CKA_VALUE_LEN tells which
+         * part of the data is the key */
+        if let Some(attr) = template.iter().find(|a| a.type_ == CKA_VALUE_LEN) {
+            let len = usize::try_from(attr.to_ulong()?)?;
+            if len < data.len() {
+                zeromem(&mut data[len..]);
+                data.truncate(len);
+            }
+        }
         let mut obj = match self.key_unwrap(template) {
             Ok(o) => o,
             Err(e) => {
-- 
2.43.0


From 5bef19456005457bafc6ced755f2aef714cad160 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:18 +0000
Subject: [PATCH 50/70] fix: C_WrapKey reports a non-null buffer of length zero
 as too small

---
 src/fns/keymgmt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/fns/keymgmt.rs b/src/fns/keymgmt.rs
index d06e069..8c3de7e 100644
--- a/src/fns/keymgmt.rs
+++ b/src/fns/keymgmt.rs
@@ -328,6 +328,10 @@ fn wrap_key(
     };
     let retlen = CK_ULONG::try_from(outlen).map_err(|_| CKR_GENERAL_ERROR)?;
     unsafe { *pul_wrapped_key_len = retlen };
+    /* only a null buffer queries the length */
+    if !wrapped_key.is_null() && retlen > pwraplen {
+        return Err(CKR_BUFFER_TOO_SMALL)?;
+    }
     Ok(())
 }
 
-- 
2.43.0


From 7dafba615497f77be85efecb177163badfdf84c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:37 +0000
Subject: [PATCH 51/70] fix: null pointers with a length are refused instead of
 dereferenced

---
 src/fns/encryption.rs | 4 ++--
 src/fns/mod.rs        | 6 ++++++
 src/fns/sessmgmt.rs   | 3 +++
 src/fns/signing.rs    | 3 +++
 src/misc.rs           | 8 ++++----
 src/pkcs11/mod.rs     | 9 +++++++++
 6 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/src/fns/encryption.rs b/src/fns/encryption.rs
index 70e0e11..75e945b 100644
--- a/src/fns/encryption.rs
+++ b/src/fns/encryption.rs
@@ -242,7 +242,7 @@ fn encrypt_final(
     pul_last_encrypted_part_len: CK_ULONG_PTR,
 ) -> Result<()> {
     let rstate = STATE.rlock()?;
-    if last_encrypted_part.is_null() && pul_last_encrypted_part_len.is_null() {
+    if pul_last_encrypted_part_len.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
     let mut session = rstate.get_session_mut(s_handle)?;
@@ -522,7 +522,7 @@ fn decrypt_final(
     last_part: CK_BYTE_PTR,
     pul_last_part_len: CK_ULONG_PTR,
 ) -> Result<()> {
-    if last_part.is_null() && pul_last_part_len.is_null() {
+    if pul_last_part_len.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
     let rstate = STATE.rlock()?;
diff --git a/src/fns/mod.rs b/src/fns/mod.rs
index 6740160..3f20aff 100644
--- a/src/fns/mod.rs
+++ b/src/fns/mod.rs
@@ -48,6 +48,9 @@ fn seed_random(
     /* check session is valid */
     drop(STATE.rlock()?.get_session(s_handle)?);
     let len = usize::try_from(seed_len).map_err(|_| CKR_GENERAL_ERROR)?;
+    if seed.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let data: &[u8] = unsafe { std::slice::from_raw_parts(seed, len) };
     random_add_seed(data)
 }
@@ -83,6 +86,9 @@ fn generate_random(
     /* check session is valid */
     drop(STATE.rlock()?.get_session(s_handle)?);
     let rndlen = usize::try_from(random_len).map_err(|_| CKR_GENERAL_ERROR)?;
+    if random_data.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let data: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(random_data, rndlen) };
     get_random_data(data)
diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index 1845c09..e099205 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -230,6 +230,9 @@ fn set_operation_state(
     if encryption_key != CK_INVALID_HANDLE {
         return Err(CKR_KEY_NOT_NEEDED)?;
     }
+    if operation_state.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     let rstate = STATE.rlock()?;
     let mut session = rstate.get_session_mut(s_handle)?;
     let state_len =
diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index 2ad00a5..5f2f72e 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -723,6 +723,9 @@ fn verify_signature_init(
         session.cancel_operation::<dyn VerifySignature>()?;
         return Ok(());
     }
+    if psignature.is_null() {
+        return Err(CKR_ARGUMENTS_BAD)?;
+    }
     session.check_no_op::<dyn VerifySignature>()?;
     let mechanism = CK_MECHANISM::from_ptr(mechptr);
     let slot_id = session.get_slot_id();
diff --git a/src/misc.rs b/src/misc.rs
index cc9dca8..9f960aa 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -62,12 +62,12 @@ pub(crate) use sizeof;
 /// Uses unsafe functions:
 /// - std::slice::from_raw_parts()
 ///
-/// If len is 0 and empty slice reference is returned
+/// If len is 0 or the pointer is null an empty slice reference is returned
 pub(crate) unsafe fn bytes_to_slice<'a, T>(
     ptr: *const T,
     len: usize,
 ) -> &'a [T] {
-    if len > 0 {
+    if len > 0 && !ptr.is_null() {
         unsafe { std::slice::from_raw_parts(ptr, len) }
     } else {
         &[]
@@ -80,12 +80,12 @@ pub(crate) unsafe fn bytes_to_slice<'a, T>(
 /// Uses unsafe functions:
 /// - std::slice::from_raw_parts_mut()
 ///
-/// If len is 0 an error is returned
+/// If len is 0 or the pointer is null an error is returned
 pub(crate) unsafe fn bytes_to_slice_mut<'a, T>(
     ptr: *mut T,
     len: usize,
 ) -> Result<&'a mut [T]> {
-    if len > 0 {
+    if len > 0 && !ptr.is_null() {
         Ok(unsafe { std::slice::from_raw_parts_mut(ptr, len) })
     } else {
         Err(CKR_GENERAL_ERROR)?
diff --git a/src/pkcs11/mod.rs b/src/pkcs11/mod.rs
index 5591879..87280fc 100644
--- a/src/pkcs11/mod.rs
+++ b/src/pkcs11/mod.rs
@@ -916,6 +916,9 @@ impl CK_ATTRIBUTE {
         if self.ulValueLen != std::mem::size_of::<CK_ULONG>() as CK_ULONG {
             return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
         }
+        if self.pValue.is_null() {
+            return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
+        }
         Ok(unsafe { *(self.pValue as CK_ULONG_PTR) })
     }
 
@@ -926,6 +929,9 @@ impl CK_ATTRIBUTE {
         if self.ulValueLen != std::mem::size_of::<CK_BBOOL>() as CK_ULONG {
             return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
         }
+        if self.pValue.is_null() {
+            return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
+        }
         let val: CK_BBOOL = unsafe { *(self.pValue as CK_BBOOL_PTR) };
         if val == 0 {
             Ok(false)
@@ -1020,6 +1026,9 @@ impl CK_MECHANISM {
         if len != std::mem::size_of::<T>() {
             return Err(CKR_ARGUMENTS_BAD)?;
         }
+        if self.pParameter.is_null() {
+            return Err(CKR_ARGUMENTS_BAD)?;
+        }
         Ok(unsafe { std::ptr::read_unaligned(self.pParameter as *const T) })
     }
 
-- 
2.43.0


From 15f572ff6fa68c88cf699aa15b49ec39c97b0e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 52/70] fix: HOTP refuses a counter or length that cannot be
 used instead of overflowing

---
 src/hotp.rs | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/src/hotp.rs b/src/hotp.rs
index 7b23e21..65dd245 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -464,6 +464,9 @@ impl HOTPOperation {
         let length = key
             .get_attr_as_ulong(CKA_OTP_LENGTH)
             .map_err(|_| CKR_GENERAL_ERROR)? as usize;
+        if !(6..=8).contains(&length) {
+            return Err(CKR_GENERAL_ERROR)?;
+        }
 
         let key_val = key.get_attr_as_bytes(CKA_VALUE)?.clone();
         let (hmac_mech, mac_len) = match key_val.len() {
@@ -551,8 +554,14 @@ impl Sign for HOTPOperation {
 
         self.finalized = true;
 
-        let mut otp = vec![0u8; self.length];
         let counter = self.counter;
+        let next = match self.update {
+            Some(_) => u64::from_be_bytes(counter)
+                .checked_add(1)
+                .ok_or(CKR_GENERAL_ERROR)?,
+            None => 0,
+        };
+        let mut otp = vec![0u8; self.length];
         self.generate_otp(&counter, &mut otp)?;
 
         unsafe {
@@ -578,9 +587,7 @@ impl Sign for HOTPOperation {
         }
 
         if self.update.is_some() {
-            let mut c_val = u64::from_be_bytes(self.counter);
-            c_val += 1;
-            self.counter = c_val.to_be_bytes();
+            self.counter = next.to_be_bytes();
             self.update = Some(true);
         }
 
@@ -637,14 +644,19 @@ impl Verify for HOTPOperation {
             let current_counter = c_val.to_be_bytes();
             let mut otp = vec![0u8; self.length];
             self.generate_otp(&current_counter, &mut otp)?;
+            let next = c_val.checked_add(1);
             if signature == otp {
                 if self.update.is_some() {
-                    self.counter = (c_val + 1).to_be_bytes();
+                    let next = next.ok_or(CKR_GENERAL_ERROR)?;
+                    self.counter = next.to_be_bytes();
                     self.update = Some(true);
                 }
                 return Ok(());
             }
-            c_val += 1;
+            c_val = match next {
+                Some(c) => c,
+                None => break,
+            };
         }
         Err(CKR_SIGNATURE_INVALID)?
     }
-- 
2.43.0


From 6d40d82c9a130eb3acc35e0a488dea0ae427ff97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 53/70] fix: empty numbers and huge modulus sizes in key
 attributes are refused instead of panicking

---
 src/kasn1/mod.rs | 3 +++
 src/rsa.rs       | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/kasn1/mod.rs b/src/kasn1/mod.rs
index 356f71e..2c9595b 100644
--- a/src/kasn1/mod.rs
+++ b/src/kasn1/mod.rs
@@ -35,6 +35,9 @@ impl<'a> DerEncBigUint<'a> {
     /// referenced when the format does not need to be altered, avoiding
     /// unnecessary memory allocation in most cases.
     pub fn new(data: &'a [u8]) -> Result<Self> {
+        if data.is_empty() {
+            return Err(CKR_ATTRIBUTE_VALUE_INVALID)?;
+        }
         let mut de = DerEncBigUint {
             data: Cow::from(data),
         };
diff --git a/src/rsa.rs b/src/rsa.rs
index c52608b..4cc05e5 100644
--- a/src/rsa.rs
+++ b/src/rsa.rs
@@ -143,7 +143,7 @@ fn rsa_check_import(obj: &Object) -> Result<()> {
     };
     match obj.get_attr_as_ulong(CKA_MODULUS_BITS) {
         Ok(b) => {
-            let len = usize::try_from((b + 7) / 8)?;
+            let len = usize::try_from(b.div_ceil(8))?;
             if modulus.len() != len {
                 return Err(CKR_TEMPLATE_INCONSISTENT)?;
             }
-- 
2.43.0


From e965c41712686b951eaf94b75f3da675cc5a6033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 54/70] fix: key lengths beyond 32 bits are refused instead of
 aborting

---
 src/native/simplekdf.rs | 3 +--
 src/object/key.rs       | 3 +++
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/native/simplekdf.rs b/src/native/simplekdf.rs
index b9c306e..1c1d3b1 100644
--- a/src/native/simplekdf.rs
+++ b/src/native/simplekdf.rs
@@ -273,9 +273,8 @@ impl Derive for SimpleKDFOperation {
         if self.mech == CKM_EXTRACT_KEY_FROM_KEY {
             let bit_offset =
                 self.bit_offset.ok_or(CKR_MECHANISM_PARAM_INVALID)?;
-            let required_bits = keylen * 8;
             let available_bits = base_key_info.value.len() * 8;
-            if (required_bits > available_bits)
+            if (keylen > base_key_info.value.len())
                 || bit_offset >= available_bits as CK_ULONG
             {
                 return Err(CKR_TEMPLATE_INCONSISTENT)?;
diff --git a/src/object/key.rs b/src/object/key.rs
index 196964c..cdc370f 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -476,6 +476,9 @@ pub trait SecretKeyFactory: KeyFactory {
 /// attribute.
 pub fn default_secret_key_generate(key: &mut Object) -> Result<()> {
     let value_len = usize::try_from(key.get_attr_as_ulong(CKA_VALUE_LEN)?)?;
+    if value_len > usize::try_from(u32::MAX)? {
+        return Err(CKR_KEY_SIZE_RANGE)?;
+    }
 
     let mut value: Vec<u8> = vec![0; value_len];
     match CSPRNG
-- 
2.43.0


From 0503fcb143baf7a87969cd4d18d10ce6be11b6f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 55/70] fix: SP800-108 parameters with null pointers are
 refused

---
 src/native/sp800_108.rs | 28 ++++++++++++----------------
 src/ossl/kbkdf.rs       | 32 +++++++++++++++-----------------
 src/sp800_108.rs        | 27 ++++++++++++++++++++++++---
 3 files changed, 51 insertions(+), 36 deletions(-)

diff --git a/src/native/sp800_108.rs b/src/native/sp800_108.rs
index 96db177..c2f80d2 100644
--- a/src/native/sp800_108.rs
+++ b/src/native/sp800_108.rs
@@ -72,19 +72,17 @@ impl Sp800Operation {
                 params.ulNumberOfDataParams as usize,
             )
         };
-        let addl_drv_keys = unsafe {
-            bytes_to_slice(
-                params.pAdditionalDerivedKeys as *const CK_DERIVED_KEY,
-                params.ulAdditionalDerivedKeys as usize,
-            )
-        };
+        let addl_drv_keys = additional_derived_keys(
+            params.pAdditionalDerivedKeys as *const CK_DERIVED_KEY,
+            params.ulAdditionalDerivedKeys,
+        )?;
         Ok(Sp800Operation {
             mech: CKM_SP800_108_COUNTER_KDF,
             prf: params.prfType,
             finalized: false,
             params: Sp800Params::parse_data_params(&data_params)?,
             iv: Vec::new(),
-            addl_drv_keys: addl_drv_keys.to_vec(),
+            addl_drv_keys: addl_drv_keys,
             #[cfg(feature = "fips")]
             fips_approved: None,
         })
@@ -100,12 +98,10 @@ impl Sp800Operation {
                 params.ulNumberOfDataParams as usize,
             )
         };
-        let addl_drv_keys = unsafe {
-            bytes_to_slice(
-                params.pAdditionalDerivedKeys as *const CK_DERIVED_KEY,
-                params.ulAdditionalDerivedKeys as usize,
-            )
-        };
+        let addl_drv_keys = additional_derived_keys(
+            params.pAdditionalDerivedKeys as *const CK_DERIVED_KEY,
+            params.ulAdditionalDerivedKeys,
+        )?;
         let iv = if params.pIV != std::ptr::null_mut() && params.ulIVLen != 0 {
             bytes_to_vec(params.pIV, params.ulIVLen as usize)
         } else if params.pIV == std::ptr::null_mut() && params.ulIVLen == 0 {
@@ -119,7 +115,7 @@ impl Sp800Operation {
             finalized: false,
             params: Sp800Params::parse_data_params(&data_params)?,
             iv: iv,
-            addl_drv_keys: addl_drv_keys.to_vec(),
+            addl_drv_keys: addl_drv_keys,
             #[cfg(feature = "fips")]
             fips_approved: None,
         })
@@ -437,8 +433,8 @@ impl Derive for Sp800Operation {
         /* additional keys */
         for ak in &self.addl_drv_keys {
             let tmpl: &[CK_ATTRIBUTE] = unsafe {
-                std::slice::from_raw_parts_mut(
-                    ak.pTemplate,
+                bytes_to_slice(
+                    ak.pTemplate as *const CK_ATTRIBUTE,
                     usize::try_from(ak.ulAttributeCount)
                         .map_err(|_| CKR_MECHANISM_PARAM_INVALID)?,
                 )
diff --git a/src/ossl/kbkdf.rs b/src/ossl/kbkdf.rs
index af73789..7ce32c2 100644
--- a/src/ossl/kbkdf.rs
+++ b/src/ossl/kbkdf.rs
@@ -8,7 +8,9 @@ use crate::misc::bytes_to_slice;
 use crate::object::{Object, ObjectFactories};
 use crate::ossl::common::osslctx;
 use crate::pkcs11::*;
-use crate::sp800_108::{verify_prf_key, Sp800Params};
+use crate::sp800_108::{
+    additional_derived_keys, verify_prf_key, Sp800Params,
+};
 
 use ossl::derive::{KbkdfCounterLen, KbkdfDerive, KbkdfMode};
 use ossl::mac::MacAlg;
@@ -262,19 +264,17 @@ impl Sp800Operation {
                 params.ulNumberOfDataParams as usize,
             )
         };
-        let addl_drv_keys = unsafe {
-            bytes_to_slice(
-                params.pAdditionalDerivedKeys as *const CK_DERIVED_KEY,
-                params.ulAdditionalDerivedKeys as usize,
-            )
-        };
+        let addl_drv_keys = additional_derived_keys(
+            params.pAdditionalDerivedKeys as *const CK_DERIVED_KEY,
+            params.ulAdditionalDerivedKeys,
+        )?;
         Ok(Sp800Operation {
             mech: CKM_SP800_108_COUNTER_KDF,
             prf: params.prfType,
             finalized: false,
             params: Sp800Params::parse_data_params(&data_params)?,
             iv: None,
-            addl_drv_keys: addl_drv_keys.to_vec(),
+            addl_drv_keys: addl_drv_keys,
             #[cfg(feature = "fips")]
             fips_approval: FipsApproval::init(),
         })
@@ -289,12 +289,10 @@ impl Sp800Operation {
                 params.ulNumberOfDataParams as usize,
             )
         };
-        let addl_drv_keys = unsafe {
-            bytes_to_slice(
-                params.pAdditionalDerivedKeys as *const CK_DERIVED_KEY,
-                params.ulAdditionalDerivedKeys as usize,
-            )
-        };
+        let addl_drv_keys = additional_derived_keys(
+            params.pAdditionalDerivedKeys as *const CK_DERIVED_KEY,
+            params.ulAdditionalDerivedKeys,
+        )?;
         let iv = if params.pIV != std::ptr::null_mut() && params.ulIVLen != 0 {
             Some(unsafe {
                 bytes_to_slice(params.pIV as *const u8, params.ulIVLen as usize)
@@ -310,7 +308,7 @@ impl Sp800Operation {
             finalized: false,
             params: Sp800Params::parse_data_params(&data_params)?,
             iv: iv,
-            addl_drv_keys: addl_drv_keys.to_vec(),
+            addl_drv_keys: addl_drv_keys,
             #[cfg(feature = "fips")]
             fips_approval: FipsApproval::init(),
         })
@@ -429,8 +427,8 @@ impl Derive for Sp800Operation {
         /* additional keys */
         for ak in &self.addl_drv_keys {
             let tmpl: &[CK_ATTRIBUTE] = unsafe {
-                std::slice::from_raw_parts_mut(
-                    ak.pTemplate,
+                bytes_to_slice(
+                    ak.pTemplate as *const CK_ATTRIBUTE,
                     usize::try_from(ak.ulAttributeCount)
                         .map_err(|_| CKR_MECHANISM_PARAM_INVALID)?,
                 )
diff --git a/src/sp800_108.rs b/src/sp800_108.rs
index b550c9c..e023e09 100644
--- a/src/sp800_108.rs
+++ b/src/sp800_108.rs
@@ -11,7 +11,7 @@ use std::sync::LazyLock;
 
 use crate::error::Result;
 use crate::mechanism::{Derive, Mechanism, Mechanisms};
-use crate::misc::{bytes_to_vec, sizeof};
+use crate::misc::{bytes_to_slice, bytes_to_vec, sizeof};
 use crate::object::{Object, ObjectFactories};
 use crate::pkcs11::*;
 
@@ -96,6 +96,23 @@ pub enum Sp800Params {
     DKMLength(Sp800DKMLengthFormat),
 }
 
+/// Gets the list of additional keys to derive out of the mechanism
+/// parameters, making sure all the pointers needed are really there
+pub fn additional_derived_keys(
+    keys: *const CK_DERIVED_KEY,
+    num: CK_ULONG,
+) -> Result<Vec<CK_DERIVED_KEY>> {
+    let keys = unsafe { bytes_to_slice(keys, num as usize) };
+    for k in keys {
+        if k.phKey.is_null()
+            || (k.pTemplate.is_null() && k.ulAttributeCount != 0)
+        {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
+    }
+    Ok(keys.to_vec())
+}
+
 impl Sp800Params {
     fn parse_counter_format(
         p: &CK_PRF_DATA_PARAM,
@@ -107,7 +124,9 @@ impl Sp800Params {
                 bits: 16,
             });
         }
-        if p.ulValueLen != sizeof!(CK_SP800_108_COUNTER_FORMAT) {
+        if p.pValue.is_null()
+            || p.ulValueLen != sizeof!(CK_SP800_108_COUNTER_FORMAT)
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         let cf = unsafe { *(p.pValue as *const CK_SP800_108_COUNTER_FORMAT) };
@@ -133,7 +152,9 @@ impl Sp800Params {
     }
 
     fn parse_dkm_length(p: &CK_PRF_DATA_PARAM) -> Result<Sp800DKMLengthFormat> {
-        if p.ulValueLen != sizeof!(CK_SP800_108_DKM_LENGTH_FORMAT) {
+        if p.pValue.is_null()
+            || p.ulValueLen != sizeof!(CK_SP800_108_DKM_LENGTH_FORMAT)
+        {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
         let dkm =
-- 
2.43.0


From c8624f2ed8b72cb3b037ed6d93e02b6c143e76a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:50 +0000
Subject: [PATCH 56/70] fix: TLS key material with null IV buffers or absurd
 sizes is refused

---
 src/native/tlskdf.rs | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/native/tlskdf.rs b/src/native/tlskdf.rs
index b347396..2695d52 100644
--- a/src/native/tlskdf.rs
+++ b/src/native/tlskdf.rs
@@ -47,6 +47,8 @@ macro_rules! as_ck_bbool {
 }
 
 pub const TLS_MASTER_SECRET_SIZE: CK_ULONG = 48;
+/// Maximum size in bytes of each of the elements of a TLS key block
+const TLS_KEY_BLOCK_MAX: CK_ULONG = u16::MAX as CK_ULONG;
 const TLS_RANDOM_SEED_SIZE: usize = 32;
 /// List of mechanisms allowed for a key derived as a TLS Master Secret.
 const TLS_MASTER_SECRET_ALLOWED_MECHS: [CK_ULONG; 6] = [
@@ -374,6 +376,13 @@ impl TLSKDFOperation {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
 
+        if maclen > TLS_KEY_BLOCK_MAX
+            || keylen > TLS_KEY_BLOCK_MAX
+            || ivlen > TLS_KEY_BLOCK_MAX
+        {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
+
         let clirand = bytes_to_vec(
             params.RandomInfo.pClientRandom,
             params.RandomInfo.ulClientRandomLen as usize,
@@ -397,6 +406,12 @@ impl TLSKDFOperation {
         if params.pReturnedKeyMaterial.is_null() {
             return Err(CKR_MECHANISM_PARAM_INVALID)?;
         }
+        if ivlen > 0 {
+            let out = unsafe { &*params.pReturnedKeyMaterial };
+            if out.pIVClient.is_null() || out.pIVServer.is_null() {
+                return Err(CKR_MECHANISM_PARAM_INVALID)?;
+            }
+        }
 
         Ok(TLSKDFOperation {
             finalized: false,
@@ -859,6 +874,9 @@ impl TLSKDFOperation {
             Ok(n) => n as usize,
             Err(_) => return Err(CKR_TEMPLATE_INCOMPLETE)?,
         };
+        if dkmlen > usize::try_from(u32::MAX)? {
+            return Err(CKR_KEY_SIZE_RANGE)?;
+        }
 
         let mech = mechanisms.get(self.prf)?;
         let seed = self.tls_prf_seed(true);
-- 
2.43.0


From eed8343777ac5fd85a5574c7516e284f090228fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:22 +0000
Subject: [PATCH 57/70] fix: searches for an empty date, or for attributes an
 NSS database does not hold, find what matches

---
 src/storage/nssdb/mod.rs | 6 ++++++
 src/storage/sqlite.rs    | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index b35d75e..bb7f1c0 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -686,6 +686,12 @@ impl NSSStorage {
                     }
                 }
             }
+            /* objects never have attributes the database does not store */
+            if !is_db_attribute(attr.type_)
+                || is_skippable_attribute(attr.type_)
+            {
+                return Ok(None);
+            }
             /* In NSSDB sensitive attributes are encrypted, so we can check
              * if the template is searching for any of the encrypted
              * attributes and if so just fail immediately.
diff --git a/src/storage/sqlite.rs b/src/storage/sqlite.rs
index da54f1b..7b07df2 100644
--- a/src/storage/sqlite.rs
+++ b/src/storage/sqlite.rs
@@ -503,6 +503,10 @@ impl StorageRaw for SqliteStorage {
                     }
                     v
                 }),
+                /* special case for default empty value */
+                AttrType::DateType if a.ulValueLen == 0 => {
+                    Value::from(String::new())
+                }
                 AttrType::DateType => {
                     Value::from(Attribute::from_ck_attr(a)?.to_date_string()?)
                 }
-- 
2.43.0


From cc52daad96bbcf3552f76874580e42beb1d74a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:01 +0000
Subject: [PATCH 58/70] fix: token keys are found by values that are stored
 encrypted but may be read

---
 src/object/factory.rs |  7 +++++++
 src/storage/format.rs | 45 ++++++++++++++++++++++++++++++++++++++++++-
 2 files changed, 51 insertions(+), 1 deletion(-)

diff --git a/src/object/factory.rs b/src/object/factory.rs
index 6cdc4de..49ebee3 100644
--- a/src/object/factory.rs
+++ b/src/object/factory.rs
@@ -924,6 +924,13 @@ impl ObjectFactories {
         Ok(())
     }
 
+    /// Tells if an attribute is a sensitive one for any type of object
+    pub fn may_be_sensitive(&self, attr: CK_ATTRIBUTE_TYPE) -> bool {
+        self.factories
+            .values()
+            .any(|f| f.get_data().get_sensitive().contains(&attr))
+    }
+
     /// Fills the template with the specified attributes from the provided
     /// object. Ensures the attribute are valid and can be returned. If the
     /// object is not extractable and a sensitive attribute is requested an
diff --git a/src/storage/format.rs b/src/storage/format.rs
index 78879d4..580c91c 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -174,6 +174,39 @@ pub struct StdStorageFormat {
 }
 
 impl StdStorageFormat {
+    /// Compares the attributes of an object as stored with the given ones,
+    /// decrypting the stored value of those that are encrypted
+    fn match_sensitive(
+        &self,
+        facilities: &TokenFacilities,
+        uid: &String,
+        obj: &Object,
+        template: &[CK_ATTRIBUTE],
+    ) -> bool {
+        if template.is_empty() {
+            return true;
+        }
+        let factory = match facilities.factories.get_object_factory(obj) {
+            Ok(f) => f,
+            Err(_) => return false,
+        };
+        template.iter().all(|a| {
+            let attr = match obj.get_attr(a.type_) {
+                Some(attr) => attr,
+                None => return false,
+            };
+            if !factory.get_data().get_sensitive().contains(&a.type_) {
+                return attr.match_ck_attr(a);
+            }
+            match self.aci.decrypt_value(facilities, uid, attr.get_value()) {
+                Ok(val) => {
+                    Attribute::from_bytes(a.type_, val).match_ck_attr(a)
+                }
+                Err(_) => false,
+            }
+        })
+    }
+
     /// Instantiates a new storage manager
     pub fn new(
         store: Box<dyn StorageRaw>,
@@ -427,7 +460,14 @@ impl Storage for StdStorageFormat {
         facilities: &mut TokenFacilities,
         template: &[CK_ATTRIBUTE],
     ) -> Result<Vec<CK_OBJECT_HANDLE>> {
-        let mut objects = self.store.search(template)?;
+        /* sensitive attributes may be stored encrypted, so they can be
+         * compared only after the object has been found */
+        let (sensitive, plain): (Vec<CK_ATTRIBUTE>, Vec<CK_ATTRIBUTE>) =
+            template.iter().partition(|a| {
+                self.aci.encrypts()
+                    && facilities.factories.may_be_sensitive(a.type_)
+            });
+        let mut objects = self.store.search(&plain)?;
         let mut result = Vec::<CK_OBJECT_HANDLE>::with_capacity(objects.len());
         for mut obj in objects.drain(..) {
             if obj.is_sensitive() || !obj.is_extractable() {
@@ -444,6 +484,9 @@ impl Storage for StdStorageFormat {
                         continue;
                     }
                 }
+                if !self.match_sensitive(facilities, &uid, &obj, &sensitive) {
+                    continue;
+                }
                 let handle = match facilities.handles.get_by_uid(&uid) {
                     Some(h) => *h,
                     None => {
-- 
2.43.0


From 5fcbbd0711d5d7f5de0248976ea0e770654c879f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:35 +0000
Subject: [PATCH 59/70] fix: HOTP operations use the key's counter as it is
 when they end, not as it was when they began

---
 src/fns/signing.rs | 76 +++++++++++++++++++++++++++++++++++++++++++---
 src/hotp.rs        | 27 ++++++++++++++++
 src/mechanism.rs   | 28 +++++++++++++++++
 3 files changed, 127 insertions(+), 4 deletions(-)

diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index 5f2f72e..e3fedda 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -112,10 +112,27 @@ fn sign(
     let signature: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(psignature, signature_len) };
 
+    /* the token stays locked until the object is updated */
+    let mut locked = None;
+    if let Some(handle) = operation.depends_on_object() {
+        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+        let reloaded = match token.get_object_by_handle(handle) {
+            Ok(obj) => operation.reload_object(&obj),
+            Err(e) => Err(e),
+        };
+        if let Err(e) = reloaded {
+            session.cancel_operation::<dyn Sign>()?;
+            return Err(e);
+        }
+        locked = Some(token);
+    }
     operation.sign(data, signature)?;
 
     if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+        let mut token = match locked {
+            Some(token) => token,
+            None => rstate.get_token_from_slot_mut(slot_id)?,
+        };
         if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
             return Err(CKR_GENERAL_ERROR)?;
         }
@@ -240,10 +257,27 @@ fn sign_final(
     }
     let signature: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(psignature, signature_len) };
+    /* the token stays locked until the object is updated */
+    let mut locked = None;
+    if let Some(handle) = operation.depends_on_object() {
+        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+        let reloaded = match token.get_object_by_handle(handle) {
+            Ok(obj) => operation.reload_object(&obj),
+            Err(e) => Err(e),
+        };
+        if let Err(e) = reloaded {
+            session.cancel_operation::<dyn Sign>()?;
+            return Err(e);
+        }
+        locked = Some(token);
+    }
     operation.sign_final(signature)?;
 
     if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+        let mut token = match locked {
+            Some(token) => token,
+            None => rstate.get_token_from_slot_mut(slot_id)?,
+        };
         if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
             return Err(CKR_GENERAL_ERROR)?;
         }
@@ -395,10 +429,27 @@ fn verify(
     let data: &[u8] = unsafe { std::slice::from_raw_parts(pdata, dlen) };
     let signature: &[u8] =
         unsafe { std::slice::from_raw_parts(psignature, signature_len) };
+    /* the token stays locked until the object is updated */
+    let mut locked = None;
+    if let Some(handle) = operation.depends_on_object() {
+        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+        let reloaded = match token.get_object_by_handle(handle) {
+            Ok(obj) => operation.reload_object(&obj),
+            Err(e) => Err(e),
+        };
+        if let Err(e) = reloaded {
+            session.cancel_operation::<dyn Verify>()?;
+            return Err(e);
+        }
+        locked = Some(token);
+    }
     operation.verify(data, signature)?;
 
     if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+        let mut token = match locked {
+            Some(token) => token,
+            None => rstate.get_token_from_slot_mut(slot_id)?,
+        };
         if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
             return Err(CKR_GENERAL_ERROR)?;
         }
@@ -513,10 +564,27 @@ fn verify_final(
     }
     let signature: &mut [u8] =
         unsafe { std::slice::from_raw_parts_mut(psignature, signature_len) };
+    /* the token stays locked until the object is updated */
+    let mut locked = None;
+    if let Some(handle) = operation.depends_on_object() {
+        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+        let reloaded = match token.get_object_by_handle(handle) {
+            Ok(obj) => operation.reload_object(&obj),
+            Err(e) => Err(e),
+        };
+        if let Err(e) = reloaded {
+            session.cancel_operation::<dyn Verify>()?;
+            return Err(e);
+        }
+        locked = Some(token);
+    }
     operation.verify_final(signature)?;
 
     if let Some((handle, attrs)) = operation.updates_object() {
-        let mut token = rstate.get_token_from_slot_mut(slot_id)?;
+        let mut token = match locked {
+            Some(token) => token,
+            None => rstate.get_token_from_slot_mut(slot_id)?,
+        };
         if token.set_object_attrs(handle, attrs.as_slice()).is_err() {
             return Err(CKR_GENERAL_ERROR)?;
         }
diff --git a/src/hotp.rs b/src/hotp.rs
index 65dd245..2a8828f 100644
--- a/src/hotp.rs
+++ b/src/hotp.rs
@@ -489,6 +489,17 @@ impl HOTPOperation {
         })
     }
 
+    /// Reads the current counter, another operation may have moved it
+    /// after this one was initialized
+    fn reload_counter(&mut self, key: &Object) -> Result<()> {
+        self.counter = key
+            .get_attr_as_bytes(CKA_OTP_COUNTER)?
+            .as_slice()
+            .try_into()
+            .map_err(|_| CKR_GENERAL_ERROR)?;
+        Ok(())
+    }
+
     fn generate_otp(
         &mut self,
         counter: &[u8; 8],
@@ -600,6 +611,14 @@ impl Sign for HOTPOperation {
         Ok(struct_size + param_size + self.length)
     }
 
+    fn depends_on_object(&self) -> Option<CK_OBJECT_HANDLE> {
+        self.update.map(|_| self.key_handle)
+    }
+
+    fn reload_object(&mut self, obj: &Object) -> Result<()> {
+        self.reload_counter(obj)
+    }
+
     fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
         if self.update == Some(true) {
             let mut attrs = CkAttrs::new();
@@ -665,6 +684,14 @@ impl Verify for HOTPOperation {
         Ok(self.length)
     }
 
+    fn depends_on_object(&self) -> Option<CK_OBJECT_HANDLE> {
+        self.update.map(|_| self.key_handle)
+    }
+
+    fn reload_object(&mut self, obj: &Object) -> Result<()> {
+        self.reload_counter(obj)
+    }
+
     fn updates_object(&self) -> Option<(CK_OBJECT_HANDLE, CkAttrs<'_>)> {
         if self.update == Some(true) {
             let mut attrs = CkAttrs::new();
diff --git a/src/mechanism.rs b/src/mechanism.rs
index 130eeb2..6567c30 100644
--- a/src/mechanism.rs
+++ b/src/mechanism.rs
@@ -564,6 +564,20 @@ pub trait Sign: MechOperation {
         Err(CKR_GENERAL_ERROR)?
     }
 
+    /// Returns the handle of the object whose current state decides the
+    /// result of the operation, if there is one.
+    ///
+    /// The object is handed to `reload_object` right before the result is
+    /// computed, as other operations may have changed it in the meantime.
+    fn depends_on_object(&self) -> Option<CK_OBJECT_HANDLE> {
+        None
+    }
+
+    /// Picks up the current state of the object named by `depends_on_object`
+    fn reload_object(&mut self, _obj: &Object) -> Result<()> {
+        Err(CKR_GENERAL_ERROR)?
+    }
+
     /// Returns updated attributes for an object if the operation modifies its state.
     ///
     /// This can be used by mechanisms to request the update of object
@@ -610,6 +624,20 @@ pub trait Verify: MechOperation {
         Err(CKR_GENERAL_ERROR)?
     }
 
+    /// Returns the handle of the object whose current state decides the
+    /// result of the operation, if there is one.
+    ///
+    /// The object is handed to `reload_object` right before the result is
+    /// computed, as other operations may have changed it in the meantime.
+    fn depends_on_object(&self) -> Option<CK_OBJECT_HANDLE> {
+        None
+    }
+
+    /// Picks up the current state of the object named by `depends_on_object`
+    fn reload_object(&mut self, _obj: &Object) -> Result<()> {
+        Err(CKR_GENERAL_ERROR)?
+    }
+
     /// Returns updated attributes for an object if the operation modifies its state.
     ///
     /// This can be used by mechanisms to request the update of object
-- 
2.43.0


From 570dfd38a2a38d72572bce22afbf375acd2268af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:23 +0000
Subject: [PATCH 60/70] fix: C_GetInfo reports that the library is not
 initialised

---
 src/fns/general.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/fns/general.rs b/src/fns/general.rs
index b8a124b..c6ac305 100644
--- a/src/fns/general.rs
+++ b/src/fns/general.rs
@@ -146,6 +146,7 @@ fn get_info(info: CK_INFO_PTR) -> Result<()> {
     if info.is_null() {
         return Err(CKR_ARGUMENTS_BAD)?;
     }
+    let _rstate = STATE.rlock()?;
     unsafe {
         *info = crate::MODULE_INFO;
     }
-- 
2.43.0


From f56f9afe27f12388d717bb4a241e8ff0d025e8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:13 +0000
Subject: [PATCH 61/70] fix: DH secrets keep their leading zero bytes

---
 ossl/src/derive.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ossl/src/derive.rs b/ossl/src/derive.rs
index eb214b0..8a5f53f 100644
--- a/ossl/src/derive.rs
+++ b/ossl/src/derive.rs
@@ -910,6 +910,20 @@ impl FfdhDerive {
         peer: &mut EvpPkey,
         output: &mut [u8],
     ) -> Result<usize, Error> {
+        /* the secret has a fixed length, that of the prime: any leading zero
+         * bytes are part of it */
+        let pad: c_uint = 1;
+        let mut params_builder = OsslParamBuilder::with_capacity(1);
+        params_builder.add_uint(cstr!(OSSL_EXCHANGE_PARAM_PAD), &pad)?;
+        let params = params_builder.finalize();
+        let ret = unsafe {
+            EVP_PKEY_CTX_set_params(self.ctx.as_mut_ptr(), params.as_ptr())
+        };
+        if ret != 1 {
+            trace_ossl!("EVP_PKEY_CTX_set_params()");
+            return Err(Error::new(ErrorKind::OsslError));
+        }
+
         let ret = unsafe {
             EVP_PKEY_derive_set_peer(self.ctx.as_mut_ptr(), peer.as_mut_ptr())
         };
-- 
2.43.0


From 19f0291e0dc3e4e9f0945010727181ca8411e28e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:03:44 +0000
Subject: [PATCH 62/70] fix: SP 800-108 DKM length is in bits and of the width
 asked for

---
 src/native/sp800_108.rs | 92 ++++++-----------------------------------
 1 file changed, 12 insertions(+), 80 deletions(-)

diff --git a/src/native/sp800_108.rs b/src/native/sp800_108.rs
index c2f80d2..de797a4 100644
--- a/src/native/sp800_108.rs
+++ b/src/native/sp800_108.rs
@@ -13,18 +13,6 @@ use crate::object::{Object, ObjectFactories};
 use crate::pkcs11::*;
 use crate::sp800_108::*;
 
-/// Helper macro to return the maximum value `size` bits can express,
-/// up to a maximum of 64 bit
-macro_rules! maxsize {
-    ($size: expr) => {
-        match $size {
-            8 | 16 | 24 | 32 | 40 | 48 | 56 => (1u64 << $size) - 1,
-            64 => u64::MAX,
-            _ => panic!("Invalid size"),
-        }
-    };
-}
-
 /// Helper macro to return the maximum value `size` bits can express,
 /// in increments of 8 bits, up to a maximum of 32 bits
 macro_rules! maxsize32 {
@@ -186,87 +174,31 @@ impl Sp800Operation {
     /// Feed the length of the sum of the segments or of the keys
     /// to be produced
     ///
-    /// NOTE: In this function the len is intentionally truncated by
-    /// casting, do not convert with try_from()
+    /// SP 800-108 defines this length in bits
+    ///
+    /// NOTE: In this function the len is intentionally truncated to
+    /// the least significant bits requested
     fn dkm_update(
         param: &Sp800DKMLengthFormat,
         klen: usize,
         slen: usize,
         op: &mut Box<dyn Mac>,
     ) -> Result<()> {
-        let mut len = match param.method {
+        let len = match param.method {
             CK_SP800_108_DKM_LENGTH_SUM_OF_SEGMENTS => slen,
             CK_SP800_108_DKM_LENGTH_SUM_OF_KEYS => klen,
             _ => return Err(CKR_MECHANISM_PARAM_INVALID)?,
         } as u64;
+        let bits = len.checked_mul(8).ok_or(CKR_KEY_SIZE_RANGE)?;
         /* up to 64 bits */
         match param.bits {
-            8 => {
-                len = len % maxsize!(8);
-                op.mac_update(&[len as u8])
-            }
-            16 => {
-                len = len % maxsize!(16);
-                let data = if param.le {
-                    (len as u16).to_le_bytes()
-                } else {
-                    (len as u16).to_be_bytes()
-                };
-                op.mac_update(&data)
-            }
-            24 => {
-                len = len % maxsize!(24);
-                let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 3)
+            8 | 16 | 24 | 32 | 40 | 48 | 56 | 64 => {
+                let size = param.bits as usize / 8;
+                if param.le {
+                    op.mac_update(&bits.to_le_bytes()[..size])
                 } else {
-                    ((len as u32).to_be_bytes(), 1, 4)
-                };
-                op.mac_update(&data[s..e])
-            }
-            32 => {
-                len = len % maxsize!(32);
-                let data = if param.le {
-                    (len as u32).to_le_bytes()
-                } else {
-                    (len as u32).to_be_bytes()
-                };
-                op.mac_update(&data)
-            }
-            40 => {
-                len = len % maxsize!(40);
-                let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 5)
-                } else {
-                    ((len as u32).to_be_bytes(), 3, 8)
-                };
-                op.mac_update(&data[s..e])
-            }
-            48 => {
-                len = len % maxsize!(48);
-                let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 6)
-                } else {
-                    ((len as u32).to_be_bytes(), 2, 8)
-                };
-                op.mac_update(&data[s..e])
-            }
-            56 => {
-                len = len % maxsize!(56);
-                let (data, s, e) = if param.le {
-                    ((len as u32).to_le_bytes(), 0, 7)
-                } else {
-                    ((len as u32).to_be_bytes(), 1, 8)
-                };
-                op.mac_update(&data[s..e])
-            }
-            64 => {
-                len = len % maxsize!(64);
-                let data = if param.le {
-                    (len as u64).to_le_bytes()
-                } else {
-                    (len as u64).to_be_bytes()
-                };
-                op.mac_update(&data)
+                    op.mac_update(&bits.to_be_bytes()[8 - size..])
+                }
             }
             _ => return Err(CKR_MECHANISM_PARAM_INVALID)?,
         }
-- 
2.43.0


From 2704c7659db8eb96225ea9bdc9092f20130c4e78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:59 +0000
Subject: [PATCH 63/70] fix: HKDF keys of a typed key get a length that type
 has

---
 src/misc.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/misc.rs b/src/misc.rs
index 9f960aa..3f345a1 100644
--- a/src/misc.rs
+++ b/src/misc.rs
@@ -154,11 +154,19 @@ pub fn common_derive_key_object(
             if default_len == 0 {
                 return Err(CKR_TEMPLATE_INCOMPLETE)?;
             }
+            let len = match objfactories
+                .get_object_factory(&obj)?
+                .as_secret_key_factory()?
+                .recommend_key_size(default_len)
+            {
+                Ok(len) => len,
+                Err(_) => return Err(CKR_TEMPLATE_INCONSISTENT)?,
+            };
             obj.set_attr(Attribute::from_ulong(
                 CKA_VALUE_LEN,
-                CK_ULONG::try_from(default_len)?,
+                CK_ULONG::try_from(len)?,
             ))?;
-            default_len
+            len
         }
     };
     Ok((obj, value_len))
-- 
2.43.0


From d67cb293d8ff3045199adc4c6ae7fd9057dad34a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:57 +0000
Subject: [PATCH 64/70] fix: PBKDF2 with no iterations is refused

---
 src/pbkdf2.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pbkdf2.rs b/src/pbkdf2.rs
index 8591709..9532f93 100644
--- a/src/pbkdf2.rs
+++ b/src/pbkdf2.rs
@@ -126,6 +126,9 @@ impl Mechanism for PBKDF2Mechanism {
             _ => return Err(CKR_MECHANISM_PARAM_INVALID)?,
         };
         let iter = usize::try_from(params.iterations)?;
+        if iter == 0 {
+            return Err(CKR_MECHANISM_PARAM_INVALID)?;
+        }
 
         /* check early that we have key class and type defined */
         let factory =
-- 
2.43.0


From 144218d7acc6ca9d1ddc4a03ff5bec7135eafe85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:56 +0000
Subject: [PATCH 65/70] fix: unwrapped keys are not local, were not always
 sensitive nor never extractable

---
 src/object/key.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/object/key.rs b/src/object/key.rs
index cdc370f..93ee7b0 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -122,11 +122,16 @@ pub trait KeyFactory: ObjectFactory {
     ///
     /// Uses `internal_key_create()` with appropriate flags.
     fn key_unwrap(&self, template: &[CK_ATTRIBUTE]) -> Result<Object> {
-        self.internal_key_create(
+        let mut obj = self.internal_key_create(
             template,
             OAFlags::SettableOnlyOnCreate | OAFlags::NeverSettable,
             OAFlags::AlwaysRequired,
-        )
+        )?;
+        /* the key comes from outside */
+        obj.set_attr(Attribute::from_bool(CKA_LOCAL, false))?;
+        obj.set_attr(Attribute::from_bool(CKA_ALWAYS_SENSITIVE, false))?;
+        obj.set_attr(Attribute::from_bool(CKA_NEVER_EXTRACTABLE, false))?;
+        Ok(obj)
     }
 
     /// The internal key object derivation function
-- 
2.43.0


From 41ccc96141401ca1534a8c0db5a3bb9c51a446db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:01 +0000
Subject: [PATCH 66/70] fix: keys agreed on with ECDH or DH are not local, and
 no better protected than the base key was

---
 src/object/key.rs | 57 +++++++++++++++++++++--------------------------
 src/object/mod.rs |  4 ++--
 src/ossl/ecdh.rs  |  4 ++--
 src/ossl/ffdh.rs  |  4 ++--
 4 files changed, 32 insertions(+), 37 deletions(-)

diff --git a/src/object/key.rs b/src/object/key.rs
index 93ee7b0..cff7e8b 100644
--- a/src/object/key.rs
+++ b/src/object/key.rs
@@ -153,37 +153,7 @@ pub trait KeyFactory: ObjectFactory {
             OAFlags::SettableOnlyOnCreate | OAFlags::NeverSettable,
             OAFlags::AlwaysRequired,
         )?;
-        /* overrides */
-        obj.set_attr(Attribute::from_bool(CKA_LOCAL, false))?;
-        match origin.get_attr_as_bool(CKA_ALWAYS_SENSITIVE) {
-            Ok(b) => match b {
-                false => obj.set_attr(Attribute::from_bool(
-                    CKA_ALWAYS_SENSITIVE,
-                    false,
-                ))?,
-                true => obj.set_attr(Attribute::from_bool(
-                    CKA_ALWAYS_SENSITIVE,
-                    obj.is_sensitive(),
-                ))?,
-            },
-            Err(_) => {
-                obj.set_attr(Attribute::from_bool(CKA_ALWAYS_SENSITIVE, false))?
-            }
-        };
-        match origin.get_attr_as_bool(CKA_NEVER_EXTRACTABLE) {
-            Ok(b) => match b {
-                false => obj.set_attr(Attribute::from_bool(
-                    CKA_NEVER_EXTRACTABLE,
-                    false,
-                ))?,
-                true => obj.set_attr(Attribute::from_bool(
-                    CKA_NEVER_EXTRACTABLE,
-                    !obj.is_extractable(),
-                ))?,
-            },
-            Err(_) => obj
-                .set_attr(Attribute::from_bool(CKA_NEVER_EXTRACTABLE, false))?,
-        };
+        derived_key_attributes(&mut obj, origin)?;
         Ok(obj)
     }
 
@@ -519,6 +489,31 @@ pub fn default_key_attributes(
     Ok(())
 }
 
+/// Sets the attributes of a derived key that tell its history, as required
+/// by the spec: a key derived from a base key that has not always been
+/// protected has not always been protected either.
+pub fn derived_key_attributes(key: &mut Object, origin: &Object) -> Result<()> {
+    key.set_attr(Attribute::from_bool(CKA_LOCAL, false))?;
+    let always_sensitive = match origin.get_attr_as_bool(CKA_ALWAYS_SENSITIVE) {
+        Ok(b) => b && key.is_sensitive(),
+        Err(_) => false,
+    };
+    key.set_attr(Attribute::from_bool(
+        CKA_ALWAYS_SENSITIVE,
+        always_sensitive,
+    ))?;
+    let never_extractable =
+        match origin.get_attr_as_bool(CKA_NEVER_EXTRACTABLE) {
+            Ok(b) => b && !key.is_extractable(),
+            Err(_) => false,
+        };
+    key.set_attr(Attribute::from_bool(
+        CKA_NEVER_EXTRACTABLE,
+        never_extractable,
+    ))?;
+    Ok(())
+}
+
 /// This is a specialized factory for objects of class CKO_SECRET_KEY
 /// and CKA_KEY_TYPE of value CKK_GENERIC_SECRET
 ///
diff --git a/src/object/mod.rs b/src/object/mod.rs
index 54a3f20..5b052f4 100644
--- a/src/object/mod.rs
+++ b/src/object/mod.rs
@@ -29,8 +29,8 @@ pub use factory::{
 
 pub use key::{
     default_key_attributes, default_secret_key_generate,
-    GenericSecretKeyFactory, GenericSecretKeyMechanism, KeyFactory,
-    PrivKeyFactory, PubKeyFactory, SecretKeyFactory,
+    derived_key_attributes, GenericSecretKeyFactory, GenericSecretKeyMechanism,
+    KeyFactory, PrivKeyFactory, PubKeyFactory, SecretKeyFactory,
 };
 
 /// Helper macro that generates methods to check specific boolean
diff --git a/src/ossl/ecdh.rs b/src/ossl/ecdh.rs
index c556c65..7e9663d 100644
--- a/src/ossl/ecdh.rs
+++ b/src/ossl/ecdh.rs
@@ -11,7 +11,7 @@ use crate::attribute::CkAttrs;
 use crate::error::Result;
 use crate::mechanism::{Derive, MechOperation, Mechanisms};
 use crate::misc::{bytes_to_vec, zeromem};
-use crate::object::{default_key_attributes, Object, ObjectFactories};
+use crate::object::{derived_key_attributes, Object, ObjectFactories};
 use crate::ossl::common::{osslctx, privkey_from_object};
 use crate::pkcs11::*;
 
@@ -239,7 +239,7 @@ impl Derive for ECDHOperation {
         tmpl.zeroize = true;
         let mut obj = factory.create(tmpl.as_slice())?;
 
-        default_key_attributes(&mut obj, self.mech)?;
+        derived_key_attributes(&mut obj, key)?;
         Ok(vec![obj])
     }
 }
diff --git a/src/ossl/ffdh.rs b/src/ossl/ffdh.rs
index 0ba48de..1da45c4 100644
--- a/src/ossl/ffdh.rs
+++ b/src/ossl/ffdh.rs
@@ -11,7 +11,7 @@ use crate::attribute::{Attribute, CkAttrs};
 use crate::error::{Error, Result};
 use crate::ffdh_groups::{get_group_name, DHGroupName};
 use crate::mechanism::{Derive, MechOperation, Mechanisms};
-use crate::object::{default_key_attributes, Object, ObjectFactories};
+use crate::object::{derived_key_attributes, Object, ObjectFactories};
 use crate::ossl::common::{osslctx, privkey_from_object};
 use crate::pkcs11::*;
 
@@ -233,7 +233,7 @@ impl Derive for FFDHOperation {
         tmpl.zeroize = true;
         let mut obj = factory.create(tmpl.as_slice())?;
 
-        default_key_attributes(&mut obj, self.mech)?;
+        derived_key_attributes(&mut obj, key)?;
         Ok(vec![obj])
     }
 }
-- 
2.43.0


From def1ef366832ba3d6694b050365a69eef08cf19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:14 +0000
Subject: [PATCH 67/70] fix: encrypted attributes are bound to their attribute
 type, as documented

---
 src/storage/aci.rs    | 45 ++++++++++++++++++++++++++++++++++---------
 src/storage/format.rs | 18 ++++++++++++-----
 2 files changed, 49 insertions(+), 14 deletions(-)

diff --git a/src/storage/aci.rs b/src/storage/aci.rs
index d0e3f88..513baaf 100644
--- a/src/storage/aci.rs
+++ b/src/storage/aci.rs
@@ -248,18 +248,25 @@ fn decrypt_key(
     ))
 }
 
+/// Returns the AAD that binds encrypted data to the attribute it belongs to,
+/// the attribute type represented as a little endian u32.
+fn attr_aad(attr_type: CK_ATTRIBUTE_TYPE) -> Result<[u8; 4]> {
+    Ok(u32::try_from(attr_type)?.to_le_bytes())
+}
+
 /// Encrypts arbitrary data using a derived key encryption key (DEK).
 ///
 /// Derives a DEK from the master `key` using HKDF-Expand (RFC 5869) with the
 /// `data_id` as the `info` parameter. Encrypts the input `data` using AES-GCM
-/// with the DEK, using the `data_id` as AAD. Encodes the KDF parameters, GCM
-/// parameters (IV, tag), key version, and ciphertext into a `KProtectedData`
-/// ASN.1 structure.
+/// with the DEK, using the attribute type as AAD. Encodes the KDF parameters,
+/// GCM parameters (IV, tag), key version, and ciphertext into a
+/// `KProtectedData` ASN.1 structure.
 fn encrypt_data(
     facilities: &TokenFacilities,
     key_version: u64,
     key: &Object,
     data_id: &str,
+    attr_type: CK_ATTRIBUTE_TYPE,
     data: &[u8],
 ) -> Result<Vec<u8>> {
     let kdf_params = KKDF1Params {
@@ -278,7 +285,7 @@ fn encrypt_data(
     let (gcm, encrypted) = aes_gcm_encrypt(
         &facilities.mechanisms,
         &dek,
-        data_id.as_bytes(),
+        &attr_aad(attr_type)?,
         data,
     )?;
 
@@ -314,14 +321,17 @@ fn encrypt_data(
 ///
 /// Parses the `KProtectedData` structure from the input `data`. Verifies the
 /// `key_version`. Re-derives the DEK using HKDF-Expand with the master `key`
-/// and the parameters stored in the structure (using `data_id` as info).
+/// and the parameters stored in the structure (where info must be `data_id`).
 /// Decrypts the ciphertext using AES-GCM with the DEK, verifying the tag
-/// and using the `data_id` as AAD. Returns the decrypted data bytes.
+/// and using the attribute type as AAD. Returns the decrypted data bytes.
+///
+/// Data stored by versions that used the `data_id` as AAD is still accepted.
 fn decrypt_data(
     facilities: &TokenFacilities,
     key_version: u64,
     key: &Object,
     data_id: &str,
+    attr_type: CK_ATTRIBUTE_TYPE,
     data: &[u8],
 ) -> Result<Vec<u8>> {
     let pdata = match asn1::parse_single::<KProtectedData>(data) {
@@ -342,6 +352,9 @@ fn decrypt_data(
             if params.key_length != AES_KEYLEN as u64 {
                 return Err(CKR_MECHANISM_PARAM_INVALID)?;
             }
+            if params.info != data_id.as_bytes() {
+                return Err(CKR_ENCRYPTED_DATA_INVALID)?;
+            }
 
             let key_template = secret_key_template(&AES_KEYTYP, &AES_KEYLEN);
             hkdf_expand(facilities, &params, key, key_template.as_slice())?
@@ -358,9 +371,18 @@ fn decrypt_data(
         &facilities.mechanisms,
         &dek,
         params,
-        data_id.as_bytes(),
+        &attr_aad(attr_type)?,
         pdata.data,
     )
+    .or_else(|_| {
+        aes_gcm_decrypt(
+            &facilities.mechanisms,
+            &dek,
+            params,
+            data_id.as_bytes(),
+            pdata.data,
+        )
+    })
 }
 
 /// Default maximum number of failed login attempts before locking.
@@ -473,11 +495,13 @@ impl StorageACI {
 
     /// Encrypts a value using the current master key.
     ///
-    /// Derives a DEK using HKDF and encrypts using AES-GCM. Uses `uid` as AAD.
+    /// Derives a DEK using HKDF and encrypts using AES-GCM. Uses `attr_type`
+    /// as AAD.
     pub fn encrypt_value(
         &self,
         facilities: &TokenFacilities,
         uid: &String,
+        attr_type: CK_ATTRIBUTE_TYPE,
         val: &Vec<u8>,
     ) -> Result<Vec<u8>> {
         match self.key {
@@ -486,6 +510,7 @@ impl StorageACI {
                 self.key_version,
                 key,
                 uid.as_str(),
+                attr_type,
                 val.as_slice(),
             ),
             _ => {
@@ -497,11 +522,12 @@ impl StorageACI {
     /// Decrypts a value using the current master key.
     ///
     /// Derives the DEK using HKDF and decrypts using AES-GCM.
-    /// Uses `uid` as AAD and verifies the key version and tag.
+    /// Uses `attr_type` as AAD and verifies the key version and tag.
     pub fn decrypt_value(
         &self,
         facilities: &TokenFacilities,
         uid: &String,
+        attr_type: CK_ATTRIBUTE_TYPE,
         val: &Vec<u8>,
     ) -> Result<Vec<u8>> {
         match self.key {
@@ -510,6 +536,7 @@ impl StorageACI {
                 self.key_version,
                 key,
                 uid.as_str(),
+                attr_type,
                 val.as_slice(),
             ),
             _ => {
diff --git a/src/storage/format.rs b/src/storage/format.rs
index 580c91c..e22c6a9 100644
--- a/src/storage/format.rs
+++ b/src/storage/format.rs
@@ -198,7 +198,12 @@ impl StdStorageFormat {
             if !factory.get_data().get_sensitive().contains(&a.type_) {
                 return attr.match_ck_attr(a);
             }
-            match self.aci.decrypt_value(facilities, uid, attr.get_value()) {
+            match self.aci.decrypt_value(
+                facilities,
+                uid,
+                a.type_,
+                attr.get_value(),
+            ) {
                 Ok(val) => {
                     Attribute::from_bytes(a.type_, val).match_ck_attr(a)
                 }
@@ -352,7 +357,8 @@ impl Storage for StdStorageFormat {
                     Some(attr) => attr.get_value(),
                     None => continue,
                 };
-                let plain = self.aci.decrypt_value(facilities, uid, encval)?;
+                let plain =
+                    self.aci.decrypt_value(facilities, uid, *typ, encval)?;
                 obj.set_attr(Attribute::from_bytes(*typ, plain))?;
             }
         }
@@ -383,7 +389,8 @@ impl Storage for StdStorageFormat {
                     Some(attr) => attr.get_value(),
                     None => continue,
                 };
-                let encval = self.aci.encrypt_value(facilities, &uid, plain)?;
+                let encval =
+                    self.aci.encrypt_value(facilities, &uid, *typ, plain)?;
                 obj.set_attr(Attribute::from_bytes(*typ, encval))?;
             }
         }
@@ -429,8 +436,9 @@ impl Storage for StdStorageFormat {
                 match attrs.find_attr(*typ) {
                     Some(a) => {
                         let plain = a.to_buf()?;
-                        let encval =
-                            self.aci.encrypt_value(facilities, &uid, &plain)?;
+                        let encval = self.aci.encrypt_value(
+                            facilities, &uid, *typ, &plain,
+                        )?;
                         attrs.insert_unique_vec(a.type_, encval)?;
                     }
                     None => (),
-- 
2.43.0


From 8fb6808619e5e690db389cc3c3886cf8fff67a9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:18 +0000
Subject: [PATCH 68/70] fix: signatures of NSS attributes are compared in full

---
 src/storage/nssdb/ci.rs | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/storage/nssdb/ci.rs b/src/storage/nssdb/ci.rs
index 754c872..a3e8165 100644
--- a/src/storage/nssdb/ci.rs
+++ b/src/storage/nssdb/ci.rs
@@ -523,11 +523,10 @@ fn hmac_verify(
     plaintext: &[u8],
     signature: &[u8],
 ) -> Result<()> {
-    let siglen = CK_ULONG::try_from(signature.len())?;
     let ck_mech = CK_MECHANISM {
         mechanism: mechanism,
-        pParameter: void_ptr!(&siglen),
-        ulParameterLen: sizeof!(CK_ULONG),
+        pParameter: std::ptr::null_mut(),
+        ulParameterLen: 0,
     };
     let mech = facilities.mechanisms.get(mechanism)?;
     let mut op = mech.verify_new(&ck_mech, key)?;
@@ -578,7 +577,7 @@ pub fn check_signature(
     let result = match &pbmac1.message_auth_scheme.params {
         AlgorithmParameters::HmacWithSha256(None) => hmac_verify(
             facilities,
-            CKM_SHA256_HMAC_GENERAL,
+            CKM_SHA256_HMAC,
             key,
             nssobjid,
             sdbtype,
-- 
2.43.0


From dd7e815d03571bd08e9852691ebaab7798f541a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:32 +0000
Subject: [PATCH 69/70] hooks: locks announce acquisition and release when
 built with --cfg kmc_hooks

---
 src/fns/digest.rs            |   2 +-
 src/fns/encryption.rs        |   2 +-
 src/fns/signing.rs           |   2 +-
 src/lib.rs                   |   5 +-
 src/slot.rs                  |   2 +-
 src/storage/nssdb/ci.rs      |   2 +-
 src/storage/nssdb/mod.rs     |   3 +-
 src/storage/sqlite.rs        |   3 +-
 src/storage/sqlite_common.rs |   6 +-
 src/sync.rs                  | 156 +++++++++++++++++++++++++++++++++++
 10 files changed, 172 insertions(+), 11 deletions(-)
 create mode 100644 src/sync.rs

diff --git a/src/fns/digest.rs b/src/fns/digest.rs
index 20f23e5..4b8659f 100644
--- a/src/fns/digest.rs
+++ b/src/fns/digest.rs
@@ -6,7 +6,7 @@
 //! This module contains the implementation of the Message Digesting functions
 //! as defined in the PKCS#11 specification.
 
-use std::sync::RwLockWriteGuard;
+use crate::sync::RwLockWriteGuard;
 
 use crate::error::Result;
 use crate::fns::log_debug;
diff --git a/src/fns/encryption.rs b/src/fns/encryption.rs
index 75e945b..263cbbc 100644
--- a/src/fns/encryption.rs
+++ b/src/fns/encryption.rs
@@ -6,7 +6,7 @@
 //! This module contains the implementation of the Encryption and Decryption functions
 //! as defined in the PKCS#11 specification.
 
-use std::sync::RwLockWriteGuard;
+use crate::sync::RwLockWriteGuard;
 
 use crate::check_allowed_mechs;
 use crate::error::Result;
diff --git a/src/fns/signing.rs b/src/fns/signing.rs
index e3fedda..46bb1cf 100644
--- a/src/fns/signing.rs
+++ b/src/fns/signing.rs
@@ -6,7 +6,7 @@
 //! This module contains the implementation of the Signing and Verification functions
 //! as defined in the PKCS#11 specification.
 
-use std::sync::RwLockWriteGuard;
+use crate::sync::RwLockWriteGuard;
 
 use crate::check_allowed_mechs;
 use crate::error::Result;
diff --git a/src/lib.rs b/src/lib.rs
index 111a908..35f8e6a 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -9,7 +9,7 @@
 
 use std::cell::RefCell;
 use std::collections::HashMap;
-use std::sync::{LazyLock, RwLock, RwLockReadGuard, RwLockWriteGuard};
+use std::sync::LazyLock;
 
 mod attribute;
 mod config;
@@ -26,6 +26,8 @@ mod rng;
 mod session;
 mod slot;
 mod storage;
+#[doc(hidden)]
+pub mod sync;
 mod token;
 
 /* Include algorithms based on selected features */
@@ -46,6 +48,7 @@ use pkcs11::*;
 use rng::RNG;
 use session::Session;
 use slot::Slot;
+use sync::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 use token::Token;
 
 use fns::digest::*;
diff --git a/src/slot.rs b/src/slot.rs
index d27a67e..7db1845 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -5,7 +5,6 @@
 //! It manages the associated token and the sessions opened against that token.
 
 use std::collections::HashMap;
-use std::sync::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 
 use crate::config;
 use crate::defaults;
@@ -13,6 +12,7 @@ use crate::error::Result;
 use crate::misc::copy_sized_string;
 use crate::pkcs11::*;
 use crate::session::Session;
+use crate::sync::{RwLock, RwLockReadGuard, RwLockWriteGuard};
 use crate::token::Token;
 
 /// Represents a PKCS#11 Slot, containing information about the slot itself,
diff --git a/src/storage/nssdb/ci.rs b/src/storage/nssdb/ci.rs
index a3e8165..a7a3989 100644
--- a/src/storage/nssdb/ci.rs
+++ b/src/storage/nssdb/ci.rs
@@ -7,7 +7,6 @@
 //! integrity protection, using keys derived from the user's PIN via PBKDF2.
 
 use std::collections::BTreeMap;
-use std::sync::{RwLock, RwLockReadGuard};
 
 use crate::attribute::CkAttrs;
 use crate::error::Result;
@@ -17,6 +16,7 @@ use crate::misc::{sizeof, void_ptr, zeromem};
 use crate::object::Object;
 use crate::pkcs11::*;
 use crate::storage::aci::pbkdf2_derive;
+use crate::sync::{RwLock, RwLockReadGuard};
 use crate::token::TokenFacilities;
 use crate::CSPRNG;
 
diff --git a/src/storage/nssdb/mod.rs b/src/storage/nssdb/mod.rs
index bb7f1c0..369caf7 100644
--- a/src/storage/nssdb/mod.rs
+++ b/src/storage/nssdb/mod.rs
@@ -8,7 +8,7 @@
 use std::borrow::Cow;
 use std::fmt::Write as _;
 use std::path::Path;
-use std::sync::{Arc, Mutex, MutexGuard};
+use std::sync::Arc;
 
 use crate::attribute::{AttrType, Attribute, CkAttrs};
 use crate::defaults;
@@ -21,6 +21,7 @@ use crate::pkcs11::vendor::nss::*;
 use crate::pkcs11::*;
 use crate::storage::sqlite_common::{check_table, set_secure_delete};
 use crate::storage::{Storage, StorageDBInfo, StorageTokenInfo};
+use crate::sync::{Mutex, MutexGuard};
 use crate::token::TokenFacilities;
 use crate::CSPRNG;
 
diff --git a/src/storage/sqlite.rs b/src/storage/sqlite.rs
index 7b07df2..c0e53fc 100644
--- a/src/storage/sqlite.rs
+++ b/src/storage/sqlite.rs
@@ -5,7 +5,7 @@
 //! that fulfills the `StorageRaw` trait using a single SQLite database file
 //! for persistence.
 
-use std::sync::{Arc, Mutex};
+use std::sync::Arc;
 
 use crate::attribute::{AttrType, Attribute};
 use crate::error::{Error, Result};
@@ -16,6 +16,7 @@ use crate::storage::aci::{StorageACI, StorageAuthInfo};
 use crate::storage::format::{StdStorageFormat, StorageRaw};
 use crate::storage::sqlite_common::{check_table, set_secure_delete};
 use crate::storage::{Storage, StorageDBInfo, StorageTokenInfo};
+use crate::sync::Mutex;
 
 use itertools::Itertools;
 use rusqlite::types::{Value, ValueRef};
diff --git a/src/storage/sqlite_common.rs b/src/storage/sqlite_common.rs
index 644fe73..8e82ec2 100644
--- a/src/storage/sqlite_common.rs
+++ b/src/storage/sqlite_common.rs
@@ -4,7 +4,7 @@
 //! This module provides common utilities and error handling conversions
 //! for storage backends implemented using the `rusqlite` crate.
 
-use std::sync::MutexGuard;
+use crate::sync::MutexGuard;
 
 use crate::error::{Error, Result};
 use crate::pkcs11::*;
@@ -58,8 +58,8 @@ impl From<rlError> for Error {
 }
 
 /// Converts `std::sync::PoisonError` (from Mutex locking) into `CKR_CANT_LOCK`.
-impl<T> From<std::sync::PoisonError<std::sync::MutexGuard<'_, T>>> for Error {
-    fn from(_: std::sync::PoisonError<std::sync::MutexGuard<'_, T>>) -> Error {
+impl<T> From<std::sync::PoisonError<MutexGuard<'_, T>>> for Error {
+    fn from(_: std::sync::PoisonError<MutexGuard<'_, T>>) -> Error {
         Error::ck_rv(CKR_CANT_LOCK)
     }
 }
diff --git a/src/sync.rs b/src/sync.rs
new file mode 100644
index 0000000..0f605ee
--- /dev/null
+++ b/src/sync.rs
@@ -0,0 +1,156 @@
+// Copyright 2025 Simo Sorce
+// See LICENSE.txt file for terms
+
+//! The locks used by the library.
+//!
+//! These are the locks of the standard library. When built with
+//! `--cfg kmc_hooks` each acquisition and release is announced to a hook
+//! first, which allows a controlled scheduler to explore the interleavings
+//! of several threads.
+#![allow(unexpected_cfgs)]
+
+#[cfg(not(kmc_hooks))]
+pub use std::sync::{
+    Mutex, MutexGuard, RwLock, RwLockReadGuard, RwLockWriteGuard,
+};
+
+#[cfg(kmc_hooks)]
+pub use hooked::*;
+
+#[cfg(kmc_hooks)]
+mod hooked {
+    use std::ops::{Deref, DerefMut};
+    use std::sync::{LockResult, OnceLock, PoisonError};
+
+    /// What a thread is about to do, or has just done, to a lock
+    #[derive(Clone, Copy, Debug, PartialEq, Eq)]
+    pub enum LockEvent {
+        /// about to acquire a lock for reading
+        Read,
+        /// about to acquire a lock for writing
+        Write,
+        /// has released a lock held for reading
+        ReadEnd,
+        /// has released a lock held for writing
+        WriteEnd,
+    }
+
+    /// The hook, called with the address of the lock
+    pub static LOCK_HOOK: OnceLock<fn(LockEvent, usize)> = OnceLock::new();
+
+    fn event(e: LockEvent, addr: usize) {
+        if let Some(f) = LOCK_HOOK.get() {
+            f(e, addr)
+        }
+    }
+
+    macro_rules! guard {
+        ($name:ident, $std:ident, $end:ident) => {
+            #[derive(Debug)]
+            pub struct $name<'a, T> {
+                guard: Option<std::sync::$std<'a, T>>,
+                addr: usize,
+            }
+            impl<'a, T> $name<'a, T> {
+                fn from(
+                    r: LockResult<std::sync::$std<'a, T>>,
+                    addr: usize,
+                ) -> LockResult<$name<'a, T>> {
+                    match r {
+                        Ok(g) => Ok($name {
+                            guard: Some(g),
+                            addr,
+                        }),
+                        Err(e) => Err(PoisonError::new($name {
+                            guard: Some(e.into_inner()),
+                            addr,
+                        })),
+                    }
+                }
+            }
+            impl<T> Deref for $name<'_, T> {
+                type Target = T;
+                fn deref(&self) -> &T {
+                    self.guard.as_ref().unwrap()
+                }
+            }
+            impl<T> Drop for $name<'_, T> {
+                fn drop(&mut self) {
+                    self.guard = None;
+                    event(LockEvent::$end, self.addr);
+                }
+            }
+        };
+    }
+    guard!(RwLockReadGuard, RwLockReadGuard, ReadEnd);
+    guard!(RwLockWriteGuard, RwLockWriteGuard, WriteEnd);
+    guard!(MutexGuard, MutexGuard, WriteEnd);
+
+    impl<T> DerefMut for RwLockWriteGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.guard.as_mut().unwrap()
+        }
+    }
+    impl<T> DerefMut for MutexGuard<'_, T> {
+        fn deref_mut(&mut self) -> &mut T {
+            self.guard.as_mut().unwrap()
+        }
+    }
+
+    #[derive(Debug, Default)]
+    pub struct RwLock<T>(std::sync::RwLock<T>);
+
+    impl<T> RwLock<T> {
+        pub const fn new(t: T) -> RwLock<T> {
+            RwLock(std::sync::RwLock::new(t))
+        }
+        fn addr(&self) -> usize {
+            self as *const Self as *const u8 as usize
+        }
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+        pub fn is_poisoned(&self) -> bool {
+            self.0.is_poisoned()
+        }
+        pub fn read(&self) -> LockResult<RwLockReadGuard<'_, T>> {
+            event(LockEvent::Read, self.addr());
+            RwLockReadGuard::from(self.0.read(), self.addr())
+        }
+        pub fn write(&self) -> LockResult<RwLockWriteGuard<'_, T>> {
+            event(LockEvent::Write, self.addr());
+            RwLockWriteGuard::from(self.0.write(), self.addr())
+        }
+    }
+
+    #[derive(Debug, Default)]
+    pub struct Mutex<T>(std::sync::Mutex<T>);
+
+    impl<T> Mutex<T> {
+        pub const fn new(t: T) -> Mutex<T> {
+            Mutex(std::sync::Mutex::new(t))
+        }
+        pub fn get_mut(&mut self) -> LockResult<&mut T> {
+            self.0.get_mut()
+        }
+        pub fn into_inner(self) -> LockResult<T> {
+            self.0.into_inner()
+        }
+        pub fn is_poisoned(&self) -> bool {
+            self.0.is_poisoned()
+        }
+        pub fn lock(&self) -> LockResult<MutexGuard<'_, T>> {
+            let addr = self as *const Self as *const u8 as usize;
+            event(LockEvent::Write, addr);
+            MutexGuard::from(self.0.lock(), addr)
+        }
+    }
+    impl<T> From<T> for Mutex<T> {
+        fn from(t: T) -> Mutex<T> {
+            Mutex::new(t)
+        }
+    }
+}
-- 
2.43.0


From 99344c81ccda1cbaa70c9f6c6a8d51b32770e8e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:31 +0000
Subject: [PATCH 70/70] fix: C_Login and C_Logout cannot deadlock with other
 calls

---
 src/fns/sessmgmt.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/fns/sessmgmt.rs b/src/fns/sessmgmt.rs
index e099205..b8e8658 100644
--- a/src/fns/sessmgmt.rs
+++ b/src/fns/sessmgmt.rs
@@ -289,7 +289,10 @@ fn login(
     pin: CK_UTF8CHAR_PTR,
     pin_len: CK_ULONG,
 ) -> Result<()> {
-    let rstate = STATE.rlock()?;
+    /* All other calls lock a session first and then the token, while here
+     * the sessions are changed with the token locked. Take the state
+     * exclusively so that no other call can hold a session meanwhile. */
+    let rstate = STATE.wlock()?;
     let session = rstate.get_session(s_handle)?;
     let slot_id = session.get_slot_id();
     /* avoid deadlock later when we change all sessions */
@@ -364,7 +367,10 @@ pub extern "C" fn fn_login(
 
 #[inline(always)]
 fn logout(s_handle: CK_SESSION_HANDLE) -> Result<()> {
-    let rstate = STATE.rlock()?;
+    /* All other calls lock a session first and then the token, while here
+     * the sessions are changed with the token locked. Take the state
+     * exclusively so that no other call can hold a session meanwhile. */
+    let rstate = STATE.wlock()?;
     let session = rstate.get_session(s_handle)?;
     let slot_id = session.get_slot_id();
     /* avoid deadlock later when we change all sessions */
-- 
2.43.0

