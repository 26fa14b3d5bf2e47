From 3e8acf8aad675e54764c27b8db269075f36e3700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 01/12] fix: P-256 scalar multiplication ignored 200 of the 256
 scalar bits

---
 src/crypto/p256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index f28b03a..2d31e06 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -207,8 +207,8 @@ impl Point256 {
 
     pub fn mult_scalar(&self, n: &Int256) -> Point256 {
         let mut ret = INFTY;
-        for i in (0..7).rev() {
-            for j in (0..8).rev() {
+        for i in (0..8).rev() {
+            for j in (0..32).rev() {
                 let bit = (n.v[i] >> j) & W(1);
 
                 let ret2 = ret.double();
-- 
2.43.0


From 83d9b63df07a9ec47d32f73382322af6935cc21c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 02/12] fix: reject encoded P-256 points whose coordinates are
 not below the prime

---
 src/crypto/p256.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 2d31e06..d93c402 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -253,6 +253,13 @@ impl NPoint256 {
             _ => return None,
         };
 
+        // coordinates must be reduced, i.e. less than P256
+        let x_reduced = x.compare(&x.reduce_once_zero()).0 == 0;
+        let y_reduced = y.compare(&y.reduce_once_zero()).0 == 0;
+        if !x_reduced || !y_reduced {
+            return None;
+        }
+
         let p = NPoint256 { x: x, y: y };
 
         // wait, but is p on the curve?
-- 
2.43.0


From 38038f541b77df414efe9af191e0f0556413c3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 03/12] fix: reject trailing bytes after an optional extension
 block

---
 src/tls_item.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tls_item.rs b/src/tls_item.rs
index d8e9122..e5a2328 100644
--- a/src/tls_item.rs
+++ b/src/tls_item.rs
@@ -347,6 +347,12 @@ macro_rules! tls_option {
 
                 let mut rest_reader = std::io::Cursor::new(rest);
                 let extensions: $t = TlsItem::tls_read(&mut rest_reader)?;
+                if rest_reader.position() != len as u64 {
+                    return tls_err!(
+                        crate::tls_result::TlsErrorKind::DecodeError,
+                        "unexpected data after optional item"
+                    );
+                }
                 Ok(Some(extensions))
             }
 
-- 
2.43.0


From 96cf9924dbc867cdc8e46fe1428b1a3ca2e52fb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 04/12] fix: reject trailing bytes in ServerKeyExchange

---
 src/cipher/ecdhe.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 7a92f4f..945555e 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -8,7 +8,7 @@ use crate::crypto::wrapping::Wrapping as W;
 use crate::handshake::NamedCurve;
 use crate::signature::DigitallySigned;
 use crate::tls_item::TlsItem;
-use crate::tls_result::TlsErrorKind::IllegalParameter;
+use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter};
 use crate::tls_result::TlsResult;
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
@@ -121,6 +121,9 @@ impl KeyExchange for EllipticDiffieHellman {
     fn compute_keys(&self, data: &[u8], rng: &mut OsRng) -> TlsResult<(Vec<u8>, Vec<u8>)> {
         let mut reader = Cursor::new(data);
         let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
+        if reader.position() != data.len() as u64 {
+            return tls_err!(DecodeError, "unexpected data after key exchange parameters");
+        }
 
         let gy = &ecdh_params.params.public;
         let gy = p256::NPoint256::from_uncompressed_bytes(gy);
-- 
2.43.0


From a625a20959df4b267e2a7d7d5afe4b040f7e9338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 05/12] fix: reject ServerKeyExchange for a curve other than
 secp256r1

---
 src/cipher/ecdhe.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 945555e..4db886d 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -125,6 +125,12 @@ impl KeyExchange for EllipticDiffieHellman {
             return tls_err!(DecodeError, "unexpected data after key exchange parameters");
         }
 
+        // secp256r1 is the only curve we offered
+        match ecdh_params.params.curve_params {
+            EcParameters::named_curve(NamedCurve::secp256r1) => {}
+            _ => return tls_err!(IllegalParameter, "server chose a curve we did not offer"),
+        }
+
         let gy = &ecdh_params.params.public;
         let gy = p256::NPoint256::from_uncompressed_bytes(gy);
         let gy = match gy {
-- 
2.43.0


From 154ceca934ae776bd8d45a07eab0a2df48cc4c42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 06/12] fix: hmac_sha256 panicked on keys longer than a block

---
 src/cipher/prf.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/cipher/prf.rs b/src/cipher/prf.rs
index da0e802..c2f2478 100644
--- a/src/cipher/prf.rs
+++ b/src/cipher/prf.rs
@@ -9,8 +9,7 @@ pub fn hmac_sha256(key: &[u8], msg: &[u8]) -> [u8; 32] {
     const B: usize = 64;
 
     if key.len() > B {
-        // FIXME
-        unimplemented!();
+        return hmac_sha256(&sha256(key), msg);
     }
 
     let mut i_msg = [0x36u8; B].to_vec();
-- 
2.43.0


From d7236472084881b266b71239018be2524a789408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 07/12] fix: an overlong protected record panicked instead of
 failing with RecordOverflow

---
 src/tls.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index d1a3b19..412b636 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -309,8 +309,7 @@ impl<R: ReadExt> TlsReader<R> {
                 // TODO: "seq_num as nonce" is chacha20poly1305-specific
                 let data = decryptor.decrypt(&u96_seq_num, &fragment, &ad)?;
                 if data.len() > RECORD_MAX_LEN {
-                    // decryption routine went wrong.
-                    panic!("decrypted record too long: {}", data.len());
+                    return tls_err!(RecordOverflow, "decrypted record too long: {}", data.len());
                 }
 
                 Record::new(content_type, major, minor, data)
-- 
2.43.0


From 88509f2e565041e604e128ad670028beddc26d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 08/12] fix: a record nonce was reused after a failed transport
 write

---
 src/tls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 412b636..1092595 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -144,14 +144,15 @@ impl<W: Write> TlsWriter<W> {
             panic!("record too long: {} > 2^14 + 2048", fragment_len);
         }
 
+        // this number is used up even if writing the record fails.
+        self.write_count += 1;
+
         self.writer.write_u8(record.content_type as u8)?;
         self.writer.write_u8(record.ver_major)?;
         self.writer.write_u8(record.ver_minor)?;
         self.writer.write_be_u16(fragment_len as u16)?;
         self.writer.write_all(&encrypted_fragment)?;
 
-        self.write_count += 1;
-
         Ok(())
     }
 
-- 
2.43.0


From 83972f18e02e1d09d95a51d547a9f15be5462748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 09/12] fix: ChangeCipherSpec was accepted in the middle of a
 handshake message

---
 src/handshake.rs | 4 ++++
 src/tls.rs       | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index c066a42..57e0cec 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -335,6 +335,10 @@ impl HandshakeBuffer {
         HandshakeBuffer { buf: Vec::new() }
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.buf.is_empty()
+    }
+
     pub fn add_record(&mut self, fragment: &[u8]) {
         self.buf.extend(fragment);
     }
diff --git a/src/tls.rs b/src/tls.rs
index 1092595..d9670e0 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -349,6 +349,10 @@ impl<R: ReadExt> TlsReader<R> {
                     if record.fragment.len() != 1 || record.fragment[0] != 1 {
                         return tls_err!(UnexpectedMessage, "invalid ChangeCipherSpec arrived");
                     }
+                    // handshake messages must not span a key change.
+                    if !self.handshake_buffer.is_empty() {
+                        return tls_err!(UnexpectedMessage, "ChangeCipherSpec inside a handshake message");
+                    }
                     return Ok(ChangeCipherSpecMessage);
                 }
                 AlertTy => {
-- 
2.43.0


From 82e3fb0208e5544a575a8ac8140fa83d14e389c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 10/12] fix: truncated handshake messages were reported as I/O
 failures without an alert

---
 src/cipher/ecdhe.rs |  3 ++-
 src/handshake.rs    |  5 +++--
 src/tls_result.rs   | 11 +++++++++++
 3 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 4db886d..2ed0f77 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -120,7 +120,8 @@ pub struct EllipticDiffieHellman;
 impl KeyExchange for EllipticDiffieHellman {
     fn compute_keys(&self, data: &[u8], rng: &mut OsRng) -> TlsResult<(Vec<u8>, Vec<u8>)> {
         let mut reader = Cursor::new(data);
-        let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
+        let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)
+            .map_err(tls_result::TlsError::eof_as_decode_error)?;
         if reader.position() != data.len() as u64 {
             return tls_err!(DecodeError, "unexpected data after key exchange parameters");
         }
diff --git a/src/handshake.rs b/src/handshake.rs
index 57e0cec..cafb859 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -2,7 +2,7 @@ use crate::cipher::CipherSuite;
 use crate::tls::TLS_VERSION;
 use crate::tls_item::{DummyItem, ObscureData, TlsItem};
 use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, UnexpectedMessage};
-use crate::tls_result::TlsResult;
+use crate::tls_result::{TlsError, TlsResult};
 use crate::util::{ReadExt, WriteExt};
 
 pub use crate::signature::{
@@ -371,7 +371,8 @@ impl HandshakeBuffer {
         self.buf = remaining;
 
         let reader = &mut &message[..];
-        let message: Handshake = TlsItem::tls_read(reader)?;
+        // the message is in memory, so running out of data is not an I/O failure.
+        let message: Handshake = TlsItem::tls_read(reader).map_err(TlsError::eof_as_decode_error)?;
         Ok(Some(message))
     }
 }
diff --git a/src/tls_result.rs b/src/tls_result.rs
index be42c79..1647934 100644
--- a/src/tls_result.rs
+++ b/src/tls_result.rs
@@ -31,6 +31,17 @@ impl TlsError {
             desc: desc,
         })
     }
+
+    /// Error for decoding from memory, where an i/o error means that the data is too short.
+    pub fn eof_as_decode_error(err: TlsError) -> TlsError {
+        match err.kind {
+            TlsErrorKind::IoFailure => TlsError {
+                kind: TlsErrorKind::DecodeError,
+                desc: err.desc,
+            },
+            _ => err,
+        }
+    }
 }
 
 impl Error for TlsError {
-- 
2.43.0


From b11965dcc475c07c2a7f618dc4cedb243821b35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 11/12] fix: alerts and handshake messages after the handshake
 panicked the reader

---
 src/tls.rs | 21 ++++++++++++++++-----
 1 file changed, 16 insertions(+), 5 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index d9670e0..139398a 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -402,15 +402,26 @@ impl<R: ReadExt> TlsReader<R> {
         loop {
             let msg = self.read_message()?;
             match msg {
-                ApplicationDataMessage(msg) => return Ok(msg),
-                // TODO: handle other cases
+                ApplicationDataMessage(msg) => {
+                    // an empty result is reserved for close_notify.
+                    if !msg.is_empty() {
+                        return Ok(msg);
+                    }
+                }
                 AlertMessage(Alert {
                     level: _,
                     description: AlertDescription::close_notify,
                 }) => return Ok(vec![]),
-                AlertMessage(..) => unimplemented!(),
-                ChangeCipherSpecMessage => unimplemented!(), // this should not come here
-                HandshakeMessage(..) => unimplemented!(),    // TODO: re-handshake
+                AlertMessage(alert) => {
+                    return tls_err!(AlertReceived, "alert: {:?}", alert.description)
+                }
+                ChangeCipherSpecMessage => {
+                    return tls_err!(UnexpectedMessage, "unexpected ChangeCipherSpec")
+                }
+                // TODO: re-handshake
+                HandshakeMessage(..) => {
+                    return tls_err!(UnexpectedMessage, "re-handshake is not supported")
+                }
             }
         }
     }
-- 
2.43.0


From d7c7aa9190bebf14f68e75852f7a53951127f755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:52:02 +0000
Subject: [PATCH 12/12] fix: failures while reading were reported as end of
 data, and reading went on after close_notify

---
 src/client.rs | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index d8a79d9..b417755 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -21,6 +21,10 @@ pub struct TlsClient<R: Read, W: Write> {
     pub writer: TlsWriter<W>,
     pub rng: OsRng,
     buf: Vec<u8>,
+    // set after close_notify or a failure: nothing more is read from the peer.
+    read_closed: bool,
+    // failure that followed data already returned, reported by the next `read`.
+    read_error: Option<TlsError>,
 }
 
 impl<R: Read, W: Write> TlsClient<R, W> {
@@ -30,6 +34,8 @@ impl<R: Read, W: Write> TlsClient<R, W> {
             writer: TlsWriter::new(writer),
             rng,
             buf: Vec::new(),
+            read_closed: false,
+            read_error: None,
         };
 
         // handshake failed. send alert if necessary
@@ -320,20 +326,50 @@ fn copy_memory(from: &[u8], mut to: &mut [u8]) -> usize {
     to.write(from).unwrap()
 }
 
+fn tls_read_error(err: TlsError) -> io::Error {
+    io::Error::new(
+        io::ErrorKind::Other,
+        SurugaError {
+            desc: "TLS read error",
+            cause: Some(Box::new(err)),
+        },
+    )
+}
+
 impl<R: Read, W: Write> Read for TlsClient<R, W> {
-    // if ssl connection is failed, return `EndOfFile`.
+    // end of the transport and close_notify are `EndOfFile`, other failures are errors.
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
+        if let Some(err) = self.read_error.take() {
+            return Err(tls_read_error(err));
+        }
+
         let mut pos: usize = 0;
         let len = buf.len();
         while pos < len {
             let remaining = len - pos;
             if self.buf.is_empty() {
+                if self.read_closed {
+                    break;
+                }
                 let data = match self.reader.read_application_data() {
                     Ok(data) => data,
-                    Err(_err) => {
-                        break; // FIXME: stop if EOF. otherwise raise error?
+                    Err(err) => {
+                        if err.kind == TlsErrorKind::IoFailure {
+                            break;
+                        }
+                        self.read_closed = true;
+                        let err = self.send_tls_alert(err);
+                        if pos == 0 {
+                            return Err(tls_read_error(err));
+                        }
+                        self.read_error = Some(err);
+                        break;
                     }
                 };
+                if data.is_empty() {
+                    self.read_closed = true;
+                    break;
+                }
                 self.buf.extend(&data);
             }
 
-- 
2.43.0

