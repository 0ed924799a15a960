From 5cea7f82109ce8913d4f4147a049449b74c31e02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 01/17] fix: retry interrupted reads

A read interrupted by a signal (ErrorKind::Interrupted) consumed nothing and
is not a failure, but fill_exact reported it as one: a handshake failed and
application data in flight was lost.
---
 src/util.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/util.rs b/src/util.rs
index bc10366..5aab0fe 100644
--- a/src/util.rs
+++ b/src/util.rs
@@ -89,7 +89,12 @@ pub trait ReadExt: Read {
         let len = buf.len();
         let mut pos = 0;
         while pos < len {
-            let num_bytes = self.read(&mut buf[pos..])?;
+            let num_bytes = match self.read(&mut buf[pos..]) {
+                Ok(num_bytes) => num_bytes,
+                // nothing was read and nothing is wrong: try again
+                Err(ref err) if err.kind() == io::ErrorKind::Interrupted => continue,
+                Err(err) => return Err(err),
+            };
             if num_bytes == 0 {
                 return Err(io::Error::new(
                     io::ErrorKind::Other,
-- 
2.43.0


From f43f0f9b76febd16ec83fe399ad55fd865fe4b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:39 +0000
Subject: [PATCH 02/17] fix: multiply by all 256 bits of the scalar

mult_scalar walked 7 limbs of 8 bits each instead of 8 limbs of 32 bits, so
only 56 bits of the ephemeral private key were used.
---
 src/crypto/p256.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index f28b03a..2d31e06 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -207,8 +207,8 @@ impl Point256 {
 
     pub fn mult_scalar(&self, n: &Int256) -> Point256 {
         let mut ret = INFTY;
-        for i in (0..7).rev() {
-            for j in (0..8).rev() {
+        for i in (0..8).rev() {
+            for j in (0..32).rev() {
                 let bit = (n.v[i] >> j) & W(1);
 
                 let ret2 = ret.double();
-- 
2.43.0


From ddb78cf97abde69fa66bc3dc5b6b5867cc6d1c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:01 +0000
Subject: [PATCH 03/17] fix: reject unreduced coordinates in a server public
 key

A coordinate of P256 or more is not a valid encoding of a curve point, but the
curve check reduced it silently and accepted the key.
---
 src/crypto/p256.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 2d31e06..303e40b 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -253,6 +253,11 @@ impl NPoint256 {
             _ => return None,
         };
 
+        // coordinates must be reduced: x + P256 is not another encoding of x
+        if x.reduce_once_zero().compare(&x).0 != 0 || y.reduce_once_zero().compare(&y).0 != 0 {
+            return None;
+        }
+
         let p = NPoint256 { x: x, y: y };
 
         // wait, but is p on the curve?
-- 
2.43.0


From f9075c0934188f59c9be0dc29649c6c9e74d3d9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:02 +0000
Subject: [PATCH 04/17] fix: accept only the curve the client offered

compute_keys ignored the named curve of the server's key exchange and treated
the public key as a P-256 point whatever curve the server named.
---
 src/cipher/ecdhe.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 7a92f4f..9c85d27 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -122,6 +122,12 @@ impl KeyExchange for EllipticDiffieHellman {
         let mut reader = Cursor::new(data);
         let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
 
+        // secp256r1 is the only curve we offered
+        match ecdh_params.params.curve_params {
+            EcParameters::named_curve(NamedCurve::secp256r1) => {}
+            _ => return tls_err!(IllegalParameter, "server chose a curve we did not offer"),
+        }
+
         let gy = &ecdh_params.params.public;
         let gy = p256::NPoint256::from_uncompressed_bytes(gy);
         let gy = match gy {
-- 
2.43.0


From 4e89a9e7970074f08116ba8f5fe8ce37802f2e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:03 +0000
Subject: [PATCH 05/17] fix: draw the ephemeral key below the order of the
 group

The scalar was only required to be below the field prime, so zero and the
group order were accepted: their multiple of G is the point at infinity, which
has no encoding, and the key share sent was not a point of the curve.
---
 src/cipher/ecdhe.rs |  5 ++---
 src/crypto/p256.rs  | 20 ++++++++++++++++++++
 2 files changed, 22 insertions(+), 3 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 9c85d27..d73466c 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -144,9 +144,8 @@ impl KeyExchange for EllipticDiffieHellman {
                 for i in 0..8 {
                     x.v[i] = W(rng.next_u32());
                 }
-                let xx = x.reduce_once(W(0));
-                let x_is_okay = xx.compare(&x);
-                if x_is_okay == W(0) {
+                // the scalar must be in [1, order of G - 1]
+                if x.is_valid_scalar() {
                     return x;
                 }
             }
diff --git a/src/crypto/p256.rs b/src/crypto/p256.rs
index 303e40b..2b35de5 100644
--- a/src/crypto/p256.rs
+++ b/src/crypto/p256.rs
@@ -314,6 +314,20 @@ pub mod int256 {
             W(0xffffffff),
         ],
     };
+    // order of the group generated by G
+    pub const ORDER: Int256 = Int256 {
+        v: [
+            W(0xfc632551),
+            W(0xf3b9cac2),
+            W(0xa7179e84),
+            W(0xbce6faad),
+            W(0xffffffff),
+            W(0xffffffff),
+            W(0x00000000),
+            W(0xffffffff),
+        ],
+    };
+
     pub const ZERO: Int256 = Int256 { v: [W(0); LIMBS] };
     pub const ONE: Int256 = Int256 {
         v: [W(1), W(0), W(0), W(0), W(0), W(0), W(0), W(0)],
@@ -405,6 +419,12 @@ pub mod int256 {
             self.reduce_once(W(0))
         }
 
+        // is `0 < self < ORDER`?
+        pub fn is_valid_scalar(&self) -> bool {
+            let (_, less_than_order) = self.sub_no_reduce(&ORDER);
+            (less_than_order & self.compare(&ZERO)).0 == 1
+        }
+
         pub fn add(&self, b: &Int256) -> Int256 {
             let (v, carry) = self.add_no_reduce(b);
             v.reduce_once(carry)
-- 
2.43.0


From 44b42aa3e4587e7130b17aea28023ea0a1082fa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:28 +0000
Subject: [PATCH 06/17] fix: report a malformed handshake message as a decode
 error

A message whose inner lengths run past its end was reported as an i/o failure,
so no alert was sent, and one with trailing bytes as an internal error.
---
 src/cipher/ecdhe.rs |  5 +++--
 src/handshake.rs    |  8 ++++----
 src/tls_result.rs   | 12 ++++++++++++
 3 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index d73466c..775f793 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -9,7 +9,7 @@ use crate::handshake::NamedCurve;
 use crate::signature::DigitallySigned;
 use crate::tls_item::TlsItem;
 use crate::tls_result::TlsErrorKind::IllegalParameter;
-use crate::tls_result::TlsResult;
+use crate::tls_result::{TlsError, TlsResult};
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
 
@@ -120,7 +120,8 @@ pub struct EllipticDiffieHellman;
 impl KeyExchange for EllipticDiffieHellman {
     fn compute_keys(&self, data: &[u8], rng: &mut OsRng) -> TlsResult<(Vec<u8>, Vec<u8>)> {
         let mut reader = Cursor::new(data);
-        let ecdh_params: EcdheServerKeyExchange = TlsItem::tls_read(&mut reader)?;
+        let ecdh_params: EcdheServerKeyExchange =
+            TlsItem::tls_read(&mut reader).map_err(TlsError::in_message)?;
 
         // secp256r1 is the only curve we offered
         match ecdh_params.params.curve_params {
diff --git a/src/handshake.rs b/src/handshake.rs
index c066a42..9309f9e 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -1,8 +1,8 @@
 use crate::cipher::CipherSuite;
 use crate::tls::TLS_VERSION;
 use crate::tls_item::{DummyItem, ObscureData, TlsItem};
-use crate::tls_result::TlsErrorKind::{DecodeError, InternalError, UnexpectedMessage};
-use crate::tls_result::TlsResult;
+use crate::tls_result::TlsErrorKind::{DecodeError, UnexpectedMessage};
+use crate::tls_result::{TlsError, TlsResult};
 use crate::util::{ReadExt, WriteExt};
 
 pub use crate::signature::{
@@ -246,7 +246,7 @@ macro_rules! tls_handshake(
                 let should_be_err = reader.read_u8();
                 match should_be_err {
                     Err(_) => {},
-                    Ok(_) => return tls_err!(InternalError, "expected EOF but found not"),
+                    Ok(_) => return tls_err!(DecodeError, "expected EOF but found not"),
                 }
 
                 Ok(ret)
@@ -367,7 +367,7 @@ impl HandshakeBuffer {
         self.buf = remaining;
 
         let reader = &mut &message[..];
-        let message: Handshake = TlsItem::tls_read(reader)?;
+        let message: Handshake = TlsItem::tls_read(reader).map_err(TlsError::in_message)?;
         Ok(Some(message))
     }
 }
diff --git a/src/tls_result.rs b/src/tls_result.rs
index be42c79..7543513 100644
--- a/src/tls_result.rs
+++ b/src/tls_result.rs
@@ -31,6 +31,18 @@ impl TlsError {
             desc: desc,
         })
     }
+
+    /// Corrects an error found while decoding a message which is already complete in memory:
+    /// running out of bytes there is the message's fault, not a failure of the transport.
+    pub fn in_message(self) -> TlsError {
+        match self.kind {
+            TlsErrorKind::IoFailure => TlsError {
+                kind: TlsErrorKind::DecodeError,
+                desc: self.desc,
+            },
+            _ => self,
+        }
+    }
 }
 
 impl Error for TlsError {
-- 
2.43.0


From 92466cc8c3cdaaed3373ced5053793f8504e281f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:29 +0000
Subject: [PATCH 07/17] fix: reject trailing bytes after the hello extensions

They were dropped silently, so the transcript the client verified was not the
one the server had sent.
---
 src/tls_item.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/tls_item.rs b/src/tls_item.rs
index d8e9122..2c6aff6 100644
--- a/src/tls_item.rs
+++ b/src/tls_item.rs
@@ -347,6 +347,12 @@ macro_rules! tls_option {
 
                 let mut rest_reader = std::io::Cursor::new(rest);
                 let extensions: $t = TlsItem::tls_read(&mut rest_reader)?;
+                if rest_reader.position() != len as u64 {
+                    return tls_err!(
+                        crate::tls_result::TlsErrorKind::DecodeError,
+                        "trailing data after optional item"
+                    );
+                }
                 Ok(Some(extensions))
             }
 
-- 
2.43.0


From a12a4acdd4790db65936b2e75314a2e0bcff594e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:30 +0000
Subject: [PATCH 08/17] fix: reject trailing bytes in the server key exchange

Everything after the signature was ignored, so a malformed message passed.
---
 src/cipher/ecdhe.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cipher/ecdhe.rs b/src/cipher/ecdhe.rs
index 775f793..32317d1 100644
--- a/src/cipher/ecdhe.rs
+++ b/src/cipher/ecdhe.rs
@@ -8,7 +8,7 @@ use crate::crypto::wrapping::Wrapping as W;
 use crate::handshake::NamedCurve;
 use crate::signature::DigitallySigned;
 use crate::tls_item::TlsItem;
-use crate::tls_result::TlsErrorKind::IllegalParameter;
+use crate::tls_result::TlsErrorKind::{DecodeError, IllegalParameter};
 use crate::tls_result::{TlsError, TlsResult};
 use crate::tls_result;
 use crate::util::{ReadExt, WriteExt};
@@ -122,6 +122,9 @@ impl KeyExchange for EllipticDiffieHellman {
         let mut reader = Cursor::new(data);
         let ecdh_params: EcdheServerKeyExchange =
             TlsItem::tls_read(&mut reader).map_err(TlsError::in_message)?;
+        if reader.position() != data.len() as u64 {
+            return tls_err!(DecodeError, "trailing data after server key exchange");
+        }
 
         // secp256r1 is the only curve we offered
         match ecdh_params.params.curve_params {
-- 
2.43.0


From c204b37e98b2f90e8615081461a4c163c48084a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:47 +0000
Subject: [PATCH 09/17] fix: refuse a cipher change in the middle of a
 handshake message

Plaintext handshake bytes left in the buffer became the beginning of the
message read after the cipher change, so a Finished message did not have to be
protected as a whole.
---
 src/handshake.rs | 4 ++++
 src/tls.rs       | 7 +++++++
 2 files changed, 11 insertions(+)

diff --git a/src/handshake.rs b/src/handshake.rs
index 9309f9e..0544120 100644
--- a/src/handshake.rs
+++ b/src/handshake.rs
@@ -339,6 +339,10 @@ impl HandshakeBuffer {
         self.buf.extend(fragment);
     }
 
+    pub fn is_empty(&self) -> bool {
+        self.buf.is_empty()
+    }
+
     // if message is arrived but has unknown type, the message is discarded and returns error.
     pub fn get_message(&mut self) -> TlsResult<Option<Handshake>> {
         let len = self.buf.len();
diff --git a/src/tls.rs b/src/tls.rs
index d1a3b19..f296f49 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -349,6 +349,13 @@ impl<R: ReadExt> TlsReader<R> {
                     if record.fragment.len() != 1 || record.fragment[0] != 1 {
                         return tls_err!(UnexpectedMessage, "invalid ChangeCipherSpec arrived");
                     }
+                    if !self.handshake_buffer.is_empty() {
+                        // the rest of the message would come under different keys
+                        return tls_err!(
+                            UnexpectedMessage,
+                            "ChangeCipherSpec arrived within a handshake message"
+                        );
+                    }
                     return Ok(ChangeCipherSpecMessage);
                 }
                 AlertTy => {
-- 
2.43.0


From 5c8a822b5df64a2236098b1588fdd3f2d12fe434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:48 +0000
Subject: [PATCH 10/17] fix: return an error for an oversize protected record

The peer controls the size of what it protects: an authentic record of more
than 2^14 bytes made the client panic.
---
 src/tls.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index f296f49..46d7bd4 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -309,8 +309,7 @@ impl<R: ReadExt> TlsReader<R> {
                 // TODO: "seq_num as nonce" is chacha20poly1305-specific
                 let data = decryptor.decrypt(&u96_seq_num, &fragment, &ad)?;
                 if data.len() > RECORD_MAX_LEN {
-                    // decryption routine went wrong.
-                    panic!("decrypted record too long: {}", data.len());
+                    return tls_err!(RecordOverflow, "decrypted record too long: {}", data.len());
                 }
 
                 Record::new(content_type, major, minor, data)
-- 
2.43.0


From 39083d1a738b6bcf4899215df41f4a1de80cda68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:29 +0000
Subject: [PATCH 11/17] fix: do not panic on messages other than data after the
 handshake

A fatal alert, a ChangeCipherSpec or any handshake message from the peer ran
into unimplemented!(). Alerts and protocol violations are errors now and a
HelloRequest is ignored, as RFC 5246 allows.
---
 src/tls.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/tls.rs b/src/tls.rs
index 46d7bd4..e582b44 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -410,9 +410,17 @@ impl<R: ReadExt> TlsReader<R> {
                     level: _,
                     description: AlertDescription::close_notify,
                 }) => return Ok(vec![]),
-                AlertMessage(..) => unimplemented!(),
-                ChangeCipherSpecMessage => unimplemented!(), // this should not come here
-                HandshakeMessage(..) => unimplemented!(),    // TODO: re-handshake
+                AlertMessage(alert) => {
+                    return tls_err!(AlertReceived, "alert: {:?}", alert.description)
+                }
+                ChangeCipherSpecMessage => {
+                    return tls_err!(UnexpectedMessage, "unexpected ChangeCipherSpec")
+                }
+                // we don't renegotiate, and may ignore the request
+                HandshakeMessage(Handshake::hello_request(..)) => {}
+                HandshakeMessage(..) => {
+                    return tls_err!(UnexpectedMessage, "handshake message after handshake")
+                }
             }
         }
     }
-- 
2.43.0


From 04bf28b0121d9cac26c230ecac1fc94a2411f9fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:37:53 +0000
Subject: [PATCH 12/17] fix: end the stream at close_notify, and only there

read() kept asking the transport for more after the peer had closed, so it
waited forever or returned data sent after the close. Empty application data
records are skipped, now that an empty result means end of stream.
---
 src/client.rs |  1 +
 src/tls.rs    | 16 ++++++++++++++--
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index d8a79d9..7340e4c 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -329,6 +329,7 @@ impl<R: Read, W: Write> Read for TlsClient<R, W> {
             let remaining = len - pos;
             if self.buf.is_empty() {
                 let data = match self.reader.read_application_data() {
+                    Ok(ref data) if data.is_empty() => break, // closed by peer
                     Ok(data) => data,
                     Err(_err) => {
                         break; // FIXME: stop if EOF. otherwise raise error?
diff --git a/src/tls.rs b/src/tls.rs
index e582b44..3ae4f6e 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -206,6 +206,8 @@ pub struct TlsReader<R: ReadExt> {
     read_count: u64,
     handshake_buffer: HandshakeBuffer,
     iv: Option<Vec<u8>>,
+    // close_notify arrived. nothing can follow it.
+    closed: bool,
 }
 
 /// Reads `Record` or `Message` from a readable object.
@@ -218,6 +220,7 @@ impl<R: ReadExt> TlsReader<R> {
             read_count: 0,
             handshake_buffer: HandshakeBuffer::new(),
             iv: None,
+            closed: false,
         }
     }
 
@@ -397,19 +400,28 @@ impl<R: ReadExt> TlsReader<R> {
         }
     }
 
+    /// Read the next non-empty piece of application data.
+    /// It is empty if, and only if, the peer has closed the connection.
     pub fn read_application_data(&mut self) -> TlsResult<Vec<u8>> {
         if self.decryptor.is_none() {
             panic!("ApplicationData called before handshake");
         }
+        if self.closed {
+            return Ok(vec![]);
+        }
         loop {
             let msg = self.read_message()?;
             match msg {
+                // empty records carry no data, and are not the end of it
+                ApplicationDataMessage(ref msg) if msg.is_empty() => {}
                 ApplicationDataMessage(msg) => return Ok(msg),
-                // TODO: handle other cases
                 AlertMessage(Alert {
                     level: _,
                     description: AlertDescription::close_notify,
-                }) => return Ok(vec![]),
+                }) => {
+                    self.closed = true;
+                    return Ok(vec![]);
+                }
                 AlertMessage(alert) => {
                     return tls_err!(AlertReceived, "alert: {:?}", alert.description)
                 }
-- 
2.43.0


From d84a354629eae5fc07a6f12699c3152759489e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:01 +0000
Subject: [PATCH 13/17] fix: write nothing after a failed write

A record that failed half way left the stream out of step, and the next record
was encrypted under the same sequence number, that is with the same key and
nonce, as the part already sent.
---
 src/tls.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/tls.rs b/src/tls.rs
index 3ae4f6e..e276e52 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -5,7 +5,7 @@ use crate::cipher::{Decryptor, Encryptor};
 use crate::handshake::{Handshake, HandshakeBuffer};
 use crate::tls_item::TlsItem;
 use crate::tls_result::TlsErrorKind::{
-    AlertReceived, BadRecordMac, RecordOverflow, UnexpectedMessage,
+    AlertReceived, BadRecordMac, IoFailure, RecordOverflow, UnexpectedMessage,
 };
 use crate::tls_result::TlsResult;
 use crate::util::{ReadExt, WriteExt};
@@ -78,6 +78,8 @@ pub struct TlsWriter<W: Write> {
     encryptor: Option<Box<dyn Encryptor + Send + 'static>>,
     write_count: u64,
     iv: Option<Vec<u8>>,
+    // a record may have been written in part. nothing can follow it.
+    failed: bool,
 }
 
 impl<W: Write> TlsWriter<W> {
@@ -89,6 +91,7 @@ impl<W: Write> TlsWriter<W> {
             encryptor: None,
             write_count: 0,
             iv: None,
+            failed: false,
         }
     }
 
@@ -113,6 +116,10 @@ impl<W: Write> TlsWriter<W> {
     }
 
     pub fn write_record(&mut self, record: Record) -> TlsResult<()> {
+        if self.failed {
+            return tls_err!(IoFailure, "an earlier write failed");
+        }
+
         let encrypted_fragment = match self.encryptor {
             None => record.fragment,
             Some(ref mut encryptor) => {
@@ -144,6 +151,9 @@ impl<W: Write> TlsWriter<W> {
             panic!("record too long: {} > 2^14 + 2048", fragment_len);
         }
 
+        // stays set if any of the writes below fails
+        self.failed = true;
+
         self.writer.write_u8(record.content_type as u8)?;
         self.writer.write_u8(record.ver_major)?;
         self.writer.write_u8(record.ver_minor)?;
@@ -151,6 +161,7 @@ impl<W: Write> TlsWriter<W> {
         self.writer.write_all(&encrypted_fragment)?;
 
         self.write_count += 1;
+        self.failed = false;
 
         Ok(())
     }
-- 
2.43.0


From a13125e398c976a3f6de5f644f298642eeaf18ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:02 +0000
Subject: [PATCH 14/17] fix: report read errors instead of end of stream

Any error while reading application data, be it tampering, a reset or a cut
connection, was turned into a clean end of stream, and a later read went on
with the record after the bad one. Errors are returned now, answered by an
alert, and permanent.
---
 src/client.rs     | 34 ++++++++++++++++++++++++++++++----
 src/tls_result.rs |  2 +-
 2 files changed, 31 insertions(+), 5 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 7340e4c..6142fcd 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -21,6 +21,8 @@ pub struct TlsClient<R: Read, W: Write> {
     pub writer: TlsWriter<W>,
     pub rng: OsRng,
     buf: Vec<u8>,
+    // why reading failed. it cannot continue after that.
+    read_error: Option<TlsError>,
 }
 
 impl<R: Read, W: Write> TlsClient<R, W> {
@@ -30,6 +32,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
             writer: TlsWriter::new(writer),
             rng,
             buf: Vec::new(),
+            read_error: None,
         };
 
         // handshake failed. send alert if necessary
@@ -245,6 +248,21 @@ impl<R: Read, W: Write> TlsClient<R, W> {
         Ok(())
     }
 
+    // an error is sent as an alert once and returned ever after.
+    fn read_application_data(&mut self) -> TlsResult<Vec<u8>> {
+        if let Some(ref err) = self.read_error {
+            return Err(err.clone());
+        }
+        match self.reader.read_application_data() {
+            Ok(data) => Ok(data),
+            Err(err) => {
+                let err = self.send_tls_alert(err);
+                self.read_error = Some(err.clone());
+                Err(err)
+            }
+        }
+    }
+
     pub fn close(&mut self) -> TlsResult<()> {
         let alert_data = alert::Alert {
             level: alert::AlertLevel::fatal,
@@ -321,18 +339,26 @@ fn copy_memory(from: &[u8], mut to: &mut [u8]) -> usize {
 }
 
 impl<R: Read, W: Write> Read for TlsClient<R, W> {
-    // if ssl connection is failed, return `EndOfFile`.
+    // this returns less than `buf.len()` bytes only if the stream ends or fails.
+    // if it fails, data received before is returned first, and then (always) the error.
     fn read(&mut self, buf: &mut [u8]) -> io::Result<usize> {
         let mut pos: usize = 0;
         let len = buf.len();
         while pos < len {
             let remaining = len - pos;
             if self.buf.is_empty() {
-                let data = match self.reader.read_application_data() {
+                let data = match self.read_application_data() {
                     Ok(ref data) if data.is_empty() => break, // closed by peer
                     Ok(data) => data,
-                    Err(_err) => {
-                        break; // FIXME: stop if EOF. otherwise raise error?
+                    Err(_) if pos > 0 => break,
+                    Err(err) => {
+                        return Err(io::Error::new(
+                            io::ErrorKind::Other,
+                            SurugaError {
+                                desc: "TLS read error",
+                                cause: Some(Box::new(err)),
+                            },
+                        ));
                     }
                 };
                 self.buf.extend(&data);
diff --git a/src/tls_result.rs b/src/tls_result.rs
index 7543513..6adfdd1 100644
--- a/src/tls_result.rs
+++ b/src/tls_result.rs
@@ -18,7 +18,7 @@ pub enum TlsErrorKind {
     AlertReceived,
 }
 
-#[derive(Debug)]
+#[derive(Clone, Debug)]
 pub struct TlsError {
     pub kind: TlsErrorKind,
     pub desc: String,
-- 
2.43.0


From 62ec80f567b6fd075c38dde4ecd3ea6e9f2e792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:21 +0000
Subject: [PATCH 15/17] fix: flush the underlying writer

flush() did nothing, and nothing was flushed before waiting for the server, so
a handshake over a buffering writer waited forever and a closing alert could
stay in the buffer.
---
 src/client.rs | 4 +++-
 src/tls.rs    | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/client.rs b/src/client.rs
index 6142fcd..aef988c 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -92,6 +92,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
 
         let client_hello = Handshake::new_client_hello(random, cipher_suite, extensions)?;
         self.writer.write_handshake(&client_hello)?;
+        self.writer().flush()?;
 
         let server_hello_data = expect!(server_hello);
         {
@@ -210,6 +211,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
         };
         let finished = Handshake::new_finished(client_verify_data)?;
         self.writer.write_handshake(&finished)?;
+        self.writer().flush()?;
 
         // Although client->server is encrypted, server->client isn't yet.
         // server may send either ChangeCipherSpec or Alert.
@@ -311,7 +313,7 @@ impl<R: Read, W: Write> Write for TlsClient<R, W> {
     }
 
     fn flush(&mut self) -> io::Result<()> {
-        Ok(())
+        self.writer().flush()
     }
 
     fn write_all(&mut self, buf: &[u8]) -> io::Result<()> {
diff --git a/src/tls.rs b/src/tls.rs
index e276e52..b378374 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -187,7 +187,10 @@ impl<W: Write> TlsWriter<W> {
     pub fn write_alert(&mut self, alert: &Alert) -> TlsResult<()> {
         let mut data = Vec::new();
         alert.tls_write(&mut data)?;
-        self.write_data(AlertTy, &data)
+        self.write_data(AlertTy, &data)?;
+        // usually there is nothing more to write
+        self.writer.flush()?;
+        Ok(())
     }
 
     pub fn write_change_cipher_spec(&mut self) -> TlsResult<()> {
-- 
2.43.0


From c73920425c6fec10b76622ca43031026a323c9b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:40 +0000
Subject: [PATCH 16/17] fix: send nothing after close_notify or a fatal alert

Data written after the connection was closed was encrypted, sent and reported
as written although the peer must ignore it, and closing again sent another
alert. Writes fail now and closing again does nothing.
---
 src/client.rs |  4 ++++
 src/tls.rs    | 14 +++++++++++++-
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/client.rs b/src/client.rs
index aef988c..6753aa8 100644
--- a/src/client.rs
+++ b/src/client.rs
@@ -266,6 +266,9 @@ impl<R: Read, W: Write> TlsClient<R, W> {
     }
 
     pub fn close(&mut self) -> TlsResult<()> {
+        if self.writer.is_closed() {
+            return Ok(());
+        }
         let alert_data = alert::Alert {
             level: alert::AlertLevel::fatal,
             description: alert::AlertDescription::close_notify,
@@ -279,6 +282,7 @@ impl<R: Read, W: Write> TlsClient<R, W> {
     pub fn send_tls_alert(&mut self, err: TlsError) -> TlsError {
         match err.kind {
             TlsErrorKind::IoFailure => err,
+            _ if self.writer.is_closed() => err,
             _ => {
                 let alert = alert::Alert::from_tls_err(&err);
                 let result = self.writer.write_alert(&alert);
diff --git a/src/tls.rs b/src/tls.rs
index b378374..c929c65 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -80,6 +80,8 @@ pub struct TlsWriter<W: Write> {
     iv: Option<Vec<u8>>,
     // a record may have been written in part. nothing can follow it.
     failed: bool,
+    // close_notify or a fatal alert was sent. nothing can follow it.
+    closed: bool,
 }
 
 impl<W: Write> TlsWriter<W> {
@@ -92,6 +94,7 @@ impl<W: Write> TlsWriter<W> {
             write_count: 0,
             iv: None,
             failed: false,
+            closed: false,
         }
     }
 
@@ -119,6 +122,9 @@ impl<W: Write> TlsWriter<W> {
         if self.failed {
             return tls_err!(IoFailure, "an earlier write failed");
         }
+        if self.closed {
+            return tls_err!(IoFailure, "the connection was closed");
+        }
 
         let encrypted_fragment = match self.encryptor {
             None => record.fragment,
@@ -184,11 +190,17 @@ impl<W: Write> TlsWriter<W> {
         self.write_data(HandshakeTy, &data)
     }
 
+    /// Has an alert been sent? Nothing can be written after that.
+    pub fn is_closed(&self) -> bool {
+        self.closed
+    }
+
+    /// Send an alert. We send only those which end the connection.
     pub fn write_alert(&mut self, alert: &Alert) -> TlsResult<()> {
         let mut data = Vec::new();
         alert.tls_write(&mut data)?;
         self.write_data(AlertTy, &data)?;
-        // usually there is nothing more to write
+        self.closed = true;
         self.writer.flush()?;
         Ok(())
     }
-- 
2.43.0


From d247d704fd334dd70a99f2529e73966ea9ed6235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:42 +0000
Subject: [PATCH 17/17] hook: sim_skip_records, behind cfg(husk_sim)

---
 src/tls.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/tls.rs b/src/tls.rs
index c929c65..46a3acf 100644
--- a/src/tls.rs
+++ b/src/tls.rs
@@ -118,6 +118,12 @@ impl<W: Write> TlsWriter<W> {
         self.iv = Some(iv);
     }
 
+    /// For simulations only: continue as if `n` more records had been written.
+    #[cfg(husk_sim)]
+    pub fn sim_skip_records(&mut self, n: u64) {
+        self.write_count += n;
+    }
+
     pub fn write_record(&mut self, record: Record) -> TlsResult<()> {
         if self.failed {
             return tls_err!(IoFailure, "an earlier write failed");
@@ -263,6 +269,12 @@ impl<R: ReadExt> TlsReader<R> {
         self.read_count = 0;
     }
 
+    /// For simulations only: continue as if `n` more records had been read.
+    #[cfg(husk_sim)]
+    pub fn sim_skip_records(&mut self, n: u64) {
+        self.read_count += n;
+    }
+
     /// Set iv for aead.
     /// This must be called only once.
     pub fn set_iv(&mut self, iv: Vec<u8>) {
-- 
2.43.0

