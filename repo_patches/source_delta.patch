From 70bd8601132a10ff69dc3556eb14ea6c19ca6e4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 1/4] fix: reject a PKCS7 padding length of zero

---
 src/pkcs7.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index eb50bb2..090af7a 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -125,7 +125,7 @@ impl Unpad {
         }
 
         let len = self.storage[self.storage.len() - 1];
-        if len > (self.block_size as u8) {
+        if len == 0 || len > (self.block_size as u8) {
             return Err(UnpadError::InvalidPadding);
         }
         let pad_off: usize = self.block_size - usize::from(len);
-- 
2.43.0


From ea187305a6b6f2c440c71ff8d47f68869b685531 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 2/4] fix: drop the block whose PKCS7 padding was rejected

---
 src/pkcs7.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index 090af7a..0bf5471 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -126,6 +126,7 @@ impl Unpad {
 
         let len = self.storage[self.storage.len() - 1];
         if len == 0 || len > (self.block_size as u8) {
+            self.storage.clear();
             return Err(UnpadError::InvalidPadding);
         }
         let pad_off: usize = self.block_size - usize::from(len);
@@ -137,6 +138,7 @@ impl Unpad {
         }
 
         if is_same != 0 {
+            self.storage.clear();
             return Err(UnpadError::InvalidPadding);
         }
 
-- 
2.43.0


From d162086cccf936bf810345f5348cf10d588aaf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 3/4] fix: refuse to finish deciphering in the middle of a
 block

---
 src/aes_cbc.rs | 4 ++++
 src/pkcs7.rs   | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/aes_cbc.rs b/src/aes_cbc.rs
index 7cde4d3..0e88a12 100644
--- a/src/aes_cbc.rs
+++ b/src/aes_cbc.rs
@@ -215,6 +215,10 @@ impl Decipher {
 
     /// Decrypt and return final cleartext data
     pub fn flush(&mut self) -> Result<Vec<u8>, DecipherError> {
+        if !self.buffer.is_empty() {
+            return Err(DecipherError::PKCS7(pkcs7::UnpadError::UnfinishedBlock));
+        }
+
         match self.unpad.flush() {
             Err(err) => Err(DecipherError::PKCS7(err)),
             Ok(block) => Ok(block),
diff --git a/src/pkcs7.rs b/src/pkcs7.rs
index 0bf5471..ea7f11a 100644
--- a/src/pkcs7.rs
+++ b/src/pkcs7.rs
@@ -40,6 +40,10 @@ impl Pad {
         Some(head)
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.storage.is_empty()
+    }
+
     pub fn flush(&mut self) -> Vec<u8> {
         let len = self.block_size - self.storage.len();
         while self.storage.len() < self.block_size {
-- 
2.43.0


From 003556bc3a0fe3cbb581c7af316ba25e038b79dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:06 +0000
Subject: [PATCH 4/4] fix: reject scrypt cost parameter n of 1 as documented

---
 src/scrypt.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scrypt.rs b/src/scrypt.rs
index 3629c7e..28b2f34 100644
--- a/src/scrypt.rs
+++ b/src/scrypt.rs
@@ -231,7 +231,7 @@ impl Scrypt {
             return Err(ScryptError::RIsTooSmall);
         }
 
-        if self.n < 1 {
+        if self.n <= 1 {
             return Err(ScryptError::NIsTooSmall);
         }
 
-- 
2.43.0

