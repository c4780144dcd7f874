From 4d7d91d8cb2752752284ac1fa3cf392ad2a536c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:43 +0000
Subject: [PATCH 01/29] fix: reject truncated or malformed bencode instead of
 panicking or looping; accept empty strings

---
 src/bencode/decode.rs | 70 ++++++++++++++++++++++++++++++++-----------
 1 file changed, 53 insertions(+), 17 deletions(-)

diff --git a/src/bencode/decode.rs b/src/bencode/decode.rs
index be59059..474d132 100644
--- a/src/bencode/decode.rs
+++ b/src/bencode/decode.rs
@@ -5,8 +5,12 @@ use log::error;
 
 use crate::bencode::metainfo::Metainfo;
 
+/// Values nested deeper than this are rejected, so a hostile input cannot exhaust the stack.
+const MAX_DEPTH: usize = 128;
+
 pub struct Decoder {
     current: usize,
+    depth: usize,
     contents: Vec<u8>,
 }
 
@@ -20,12 +24,17 @@ pub enum DecoderError {
     NoStringFound(usize),
     #[error("Bad string from bytes conversion at position: {0}")]
     BadStringFromBytes(usize),
+    #[error("Unexpected byte or end of input at position: {0}")]
+    UnexpectedContent(usize),
+    #[error("Content nested too deeply at position: {0}")]
+    TooDeep(usize),
 }
 
 impl Decoder {
     pub fn init(source: Vec<u8>) -> Decoder {
         Decoder {
             current: 0,
+            depth: 0,
             contents: source,
         }
     }
@@ -35,13 +44,39 @@ impl Decoder {
         self.current
     }
 
-    fn get_current_byte(&self) -> u8 {
-        self.contents[self.current]
+    fn get_current_byte(&self) -> Result<u8, DecoderError> {
+        self.contents
+            .get(self.current)
+            .copied()
+            .ok_or(DecoderError::UnexpectedContent(self.current))
+    }
+
+    fn expect_byte(&mut self, expected: u8) -> Result<(), DecoderError> {
+        if self.get_current_byte()? != expected {
+            return Err(DecoderError::UnexpectedContent(self.current));
+        }
+        self.advance();
+        Ok(())
+    }
+
+    // An element of a list or a dictionary value: unlike at the top level, it cannot be missing.
+    fn decode_nested(&mut self) -> Result<Metainfo, DecoderError> {
+        if self.depth >= MAX_DEPTH {
+            return Err(DecoderError::TooDeep(self.current));
+        }
+        self.depth += 1;
+        let result = self.decode();
+        self.depth -= 1;
+
+        match result? {
+            Metainfo::Nothing() => Err(DecoderError::UnexpectedContent(self.current)),
+            value => Ok(value),
+        }
     }
 
     fn get_consecutive_digits(&mut self) -> Result<usize, DecoderError> {
         let start = self.current;
-        while self.get_current_byte().is_ascii_digit() {
+        while self.get_current_byte()?.is_ascii_digit() {
             self.advance();
         }
         let end = self.current;
@@ -73,29 +108,30 @@ impl Decoder {
         self.advance();
         let integer: usize = self.get_consecutive_digits()?;
 
-        match self.contents.get(self.current) {
-            Some(b'e') => self.advance(),
-            _ => self.advance(),
-        };
+        self.expect_byte(b'e')?;
         Ok(Metainfo::Integer(integer))
     }
 
     fn parse_string(&mut self) -> Result<Metainfo, DecoderError> {
         let integer = self.get_consecutive_digits()?;
-        // TODO: Mettere check semicolon
-        self.advance();
-
-        let b = &self.contents[self.current..self.current + integer];
+        self.expect_byte(b':')?;
+
+        let b = self
+            .current
+            .checked_add(integer)
+            .and_then(|end| self.contents.get(self.current..end))
+            .ok_or(DecoderError::UnexpectedContent(self.current))?
+            .to_vec();
         self.current += integer;
-        Ok(Metainfo::String(b.to_vec()))
+        Ok(Metainfo::String(b))
     }
 
     fn parse_list(&mut self) -> Result<Metainfo, DecoderError> {
         self.advance();
         let mut list: Vec<Metainfo> = Vec::new();
 
-        while self.get_current_byte() != b'e' {
-            list.push(self.decode()?);
+        while self.get_current_byte()? != b'e' {
+            list.push(self.decode_nested()?);
         }
 
         self.advance();
@@ -106,7 +142,7 @@ impl Decoder {
         self.advance();
 
         let mut dictionary = HashMap::new();
-        while self.get_current_byte() != b'e' {
+        while self.get_current_byte()? != b'e' {
             let key = if let Metainfo::String(raw_key) = self.parse_string()? {
                 str::from_utf8(&raw_key)
                     .map_err(|_| DecoderError::BadStringFromBytes(self.current))?
@@ -114,7 +150,7 @@ impl Decoder {
             } else {
                 return Err(DecoderError::NoStringFound(self.current));
             };
-            let value = self.decode()?;
+            let value = self.decode_nested()?;
             dictionary.insert(key, value);
         }
 
@@ -128,7 +164,7 @@ impl Decoder {
             Some(b'i') => self.parse_integer()?,
             Some(b'l') => self.parse_list()?,
             Some(b'd') => self.parse_dictionary()?,
-            Some(b'1'..=b'9') => self.parse_string()?,
+            Some(b'0'..=b'9') => self.parse_string()?,
             Some(_) => Metainfo::Nothing(),
         };
 
-- 
2.43.0


From 11e4dad54cf321f3586b1e54eb79f65102428b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:09:43 +0000
Subject: [PATCH 02/29] fix: prefix bencoded strings with their length in
 bytes, not characters

---
 src/bencode/encode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/bencode/encode.rs b/src/bencode/encode.rs
index 4ad8eb4..26ad7e8 100644
--- a/src/bencode/encode.rs
+++ b/src/bencode/encode.rs
@@ -6,7 +6,7 @@ pub trait Encode {
 
 impl Encode for String {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
+        format!("{}:{}", self.len(), self)
             .as_bytes()
             .to_vec()
     }
@@ -14,7 +14,7 @@ impl Encode for String {
 
 impl Encode for &str {
     fn encode(&self) -> Vec<u8> {
-        format!("{}:{}", self.chars().count(), self)
+        format!("{}:{}", self.len(), self)
             .as_bytes()
             .to_vec()
     }
-- 
2.43.0


From 318460d2fb16ff287ca69eb2d699c30094cbb0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:18 +0000
Subject: [PATCH 03/29] fix: find the info hash of a magnet wherever it is,
 decode base32 ones, and reject malformed ones

---
 src/torrent/magnet.rs | 40 ++++++++++++++++++++++++++++------------
 1 file changed, 28 insertions(+), 12 deletions(-)

diff --git a/src/torrent/magnet.rs b/src/torrent/magnet.rs
index da681f5..815674f 100644
--- a/src/torrent/magnet.rs
+++ b/src/torrent/magnet.rs
@@ -1,3 +1,5 @@
+use base32::Alphabet::RFC4648;
+
 #[derive(Debug, PartialEq, Eq)]
 pub struct Magnet {
     info_hash: Vec<u8>,
@@ -10,13 +12,21 @@ pub enum MagnetError {
 }
 
 impl Magnet {
+    // The 20 bytes of the info hash: a base32 encoded one is kept as it is in the magnet.
     pub fn get_info_hash(&self) -> Vec<u8> {
-        self.info_hash.to_vec()
+        match self.info_hash.len() {
+            20 => self.info_hash.to_vec(),
+            _ => base32_decode(&self.info_hash).unwrap_or_default(),
+        }
     }
 }
 
-fn verify_info_hash(magnet_uri: &[u8]) -> bool {
-    magnet_uri.len() < 60 || &magnet_uri[..8] != "magnet:?".as_bytes()
+// The value of the first exact topic with a BitTorrent info hash, wherever it is among the parameters.
+fn find_info_hash(magnet_uri: &[u8]) -> Option<&[u8]> {
+    magnet_uri
+        .strip_prefix(b"magnet:?")?
+        .split(|byte| *byte == b'&')
+        .find_map(|parameter| parameter.strip_prefix(b"xt=urn:btih:"))
 }
 
 // Given a string representation of an hex character we obtain the hex byte representation.
@@ -48,20 +58,26 @@ fn hex_decode(info_hash_hex_encoded: &[u8]) -> Vec<u8> {
         .collect::<Vec<u8>>()
 }
 
-fn parse_info_hash(magnet_uri: &[u8]) -> Vec<u8> {
-    if magnet_uri[60] == b'&' {
-        hex_decode(&magnet_uri[20..60])
-    } else {
-        magnet_uri[20..52].to_vec()
+fn base32_decode(info_hash_base32_encoded: &[u8]) -> Option<Vec<u8>> {
+    if !info_hash_base32_encoded.iter().all(u8::is_ascii_alphanumeric) {
+        return None;
     }
+    let encoded = std::str::from_utf8(info_hash_base32_encoded).ok()?;
+    base32::decode(RFC4648 { padding: false }, encoded)
 }
 
-pub fn parse_magnet(magnet_uri: Vec<u8>) -> Result<Magnet, MagnetError> {
-    if verify_info_hash(&magnet_uri) {
-        return Err(MagnetError::NoMagnet());
+fn parse_info_hash(encoded: &[u8]) -> Option<Vec<u8>> {
+    match encoded.len() {
+        40 if encoded.iter().all(u8::is_ascii_hexdigit) => Some(hex_decode(encoded)),
+        32 if base32_decode(encoded).is_some() => Some(encoded.to_vec()),
+        _ => None,
     }
+}
 
-    let info_hash = parse_info_hash(&magnet_uri);
+pub fn parse_magnet(magnet_uri: Vec<u8>) -> Result<Magnet, MagnetError> {
+    let info_hash = find_info_hash(&magnet_uri)
+        .and_then(parse_info_hash)
+        .ok_or(MagnetError::NoMagnet())?;
 
     Ok(Magnet { info_hash })
 }
-- 
2.43.0


From 618747fe075a9f7a359e11ede9d406fc446854ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:18 +0000
Subject: [PATCH 04/29] fix: answer a malformed magnet with 400 instead of
 panicking

---
 src/main.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 89febf3..c0f625a 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -24,7 +24,10 @@ use crate::actors::torrent::TorrentActor;
 
 #[post("/add/magnet")]
 async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpResponse {
-    let magnet = magnet::parse_magnet(magnet_raw.as_bytes().to_vec()).unwrap();
+    let magnet = match magnet::parse_magnet(magnet_raw.as_bytes().to_vec()) {
+        Ok(magnet) => magnet,
+        Err(err) => return HttpResponse::BadRequest().body(err.to_string()),
+    };
     let info_hash = magnet.get_info_hash();
 
     let addr = TorrentActor::new(info_hash.clone()).start();
-- 
2.43.0


From 08969f408c5cdbd4ce3bb98b5b1946108d8b1b4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:37 +0000
Subject: [PATCH 05/29] fix: reject block, handshake and extension messages too
 short to parse instead of panicking

---
 src/messages/extension.rs | 4 ++++
 src/messages/mod.rs       | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/src/messages/extension.rs b/src/messages/extension.rs
index 995950b..d5d894d 100644
--- a/src/messages/extension.rs
+++ b/src/messages/extension.rs
@@ -30,6 +30,10 @@ impl ExtensionMessage {
     }
 
     pub fn from_bytes(bytes: &[u8]) -> Result<ExtensionMessage, &'static str> {
+        if bytes.is_empty() {
+            return Err("Extension message too short");
+        }
+
         let mut decoder = Decoder::init(bytes[1..].to_vec());
         let content = match decoder.decode() {
             Ok(value) => value,
diff --git a/src/messages/mod.rs b/src/messages/mod.rs
index 8f21009..c388a19 100644
--- a/src/messages/mod.rs
+++ b/src/messages/mod.rs
@@ -37,6 +37,8 @@ impl Message {
         let content = match id {
             2 => ContentType::Interested(InterestedMessage::from_bytes()),
             5 => ContentType::Bitfield(BitfieldMessage::from_bytes(&body)),
+            7 | 6 if body.len() < 8 => return Err("Block message too short"),
+            19 if body.len() < 68 => return Err("Handshake message too short"),
             7 | 6 => ContentType::Request(RequestMessage::from_bytes(&body)),
             20 => ContentType::Extension(ExtensionMessage::from_bytes(&body)?),
             19 => ContentType::Handshake(HandshakeMessage::from_bytes(&body)),
-- 
2.43.0


From e5e048488c24d861d643c1ddfb49c821a9a7d32a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:37 +0000
Subject: [PATCH 06/29] fix: ignore extension ids that do not fit in a byte
 instead of truncating them

---
 src/messages/extension.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/messages/extension.rs b/src/messages/extension.rs
index d5d894d..17ac789 100644
--- a/src/messages/extension.rs
+++ b/src/messages/extension.rs
@@ -101,8 +101,9 @@ impl ExtensionMessage {
 fn build_extensions_map(metainfo_map: &HashMap<String, Metainfo>) -> HashMap<String, u8> {
     let mut extension: HashMap<String, u8> = HashMap::new();
     for (key, metainfo_value) in metainfo_map {
-        if let Ok(value) = metainfo_value.get_integer_content() {
-            extension.insert(key.to_owned(), value as u8);
+        let id = metainfo_value.get_integer_content().map(u8::try_from);
+        if let Ok(Ok(value)) = id {
+            extension.insert(key.to_owned(), value);
         } else {
             info!("No extension value found from {:?}", metainfo_value);
         }
-- 
2.43.0


From 185c62b2cf3845344f92fb3c5c79a8e219d9ac6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:52 +0000
Subject: [PATCH 07/29] fix: read messages whole however TCP splits them, skip
 keep-alives, and stop reading when framing is lost

---
 src/peer/stream.rs | 79 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 56 insertions(+), 23 deletions(-)

diff --git a/src/peer/stream.rs b/src/peer/stream.rs
index cf64c2d..00bac3e 100644
--- a/src/peer/stream.rs
+++ b/src/peer/stream.rs
@@ -1,13 +1,19 @@
 use std::io;
 use std::io::prelude::*;
+use std::io::ErrorKind;
 use std::net::TcpStream;
-use std::time::Duration;
-use std::{thread, time, vec};
+use std::time::{Duration, Instant};
+use std::vec;
 
 use log::error;
 
 use crate::common::mock_stream::MockStream;
 
+// Time allowed for the rest of a message to arrive once its first byte is there.
+const MESSAGE_TIMEOUT: Duration = Duration::from_secs(10);
+// No message a peer has reason to send is longer than this.
+const MAX_MESSAGE_LENGTH: u32 = 1 << 20;
+
 #[derive(Debug)]
 pub enum StreamInterface {
     #[allow(dead_code)]
@@ -73,6 +79,10 @@ impl StreamInterface {
         }
     }
 
+    fn close(&mut self) {
+        *self = StreamInterface::Nothing();
+    }
+
     fn set_read_timeout(&mut self, duration: Option<Duration>) -> io::Result<()> {
         match *self {
             StreamInterface::Mocked(_) => Ok(()),
@@ -92,6 +102,7 @@ fn has_messages(stream: &mut StreamInterface) -> bool {
     }
 }
 
+#[cfg(test)]
 fn peek_and_read(stream: &mut StreamInterface, body: &mut [u8], length: usize) -> bool {
     stream.peek(body).unwrap_or(0) == length && stream.read(body).unwrap_or(0) == length
 }
@@ -109,40 +120,62 @@ pub fn read_stream(stream: &mut StreamInterface) -> Option<(Vec<u8>, u8, u32)> {
         return None;
     }
 
-    let mut buffer: [u8; 68] = [0x00; 68];
-    if stream.peek(&mut buffer).ok() == Some(68) && buffer[0] == 0x13 {
-        if stream.read(&mut buffer).is_err() {
+    // The handshake is the only message not prefixed by its length, which is never this large.
+    let mut prefix: [u8; 4] = [0x00; 4];
+    if !read_full(stream, &mut prefix) {
+        return None;
+    }
+    if prefix[0] == 0x13 {
+        let mut handshake = vec![0x00; 68];
+        handshake[..4].copy_from_slice(&prefix);
+        if !read_full(stream, &mut handshake[4..]) {
             return None;
         }
-        return Some((buffer.to_vec(), 19, 68));
+        return Some((handshake, 19, 68));
     }
 
-    let mut buffer: [u8; 4] = [0x00; 4];
-    if stream.read(&mut buffer).is_err() {
+    let length = u32::from_be_bytes(prefix);
+    if length == 0 {
+        // Keep alive: it has neither an id nor a body.
         return None;
     }
-    let mut length = u32::from_be_bytes(buffer);
-
-    let mut buffer: [u8; 1] = [0x00; 1];
-    if stream.read(&mut buffer).is_err() {
+    if length > MAX_MESSAGE_LENGTH {
+        stream.close();
         return None;
     }
-    let id = buffer[0];
 
-    if length == 0 {
-        return Some((vec![], id, 0));
-    } else {
-        length -= 1
+    let mut id: [u8; 1] = [0x00; 1];
+    let mut body = vec![0; length as usize - 1];
+    if !read_full(stream, &mut id) || !read_full(stream, &mut body) {
+        return None;
     }
+    Some((body, id[0], length - 1))
+}
 
-    let mut body = vec![0; length as usize];
-    for retry in 1..40 {
-        if peek_and_read(stream, &mut body, length as usize) {
-            return Some((body, id, length));
+// Fills the whole buffer, however the bytes are split on their way here. When they do not arrive the
+// boundary of the next message is unknown, so the stream is closed and nothing more is read from it.
+fn read_full(stream: &mut StreamInterface, buffer: &mut [u8]) -> bool {
+    let deadline = Instant::now() + MESSAGE_TIMEOUT;
+    let mut filled = 0;
+
+    while filled < buffer.len() {
+        match stream.read(&mut buffer[filled..]) {
+            Ok(0) => break,
+            Ok(count) => filled += count,
+            Err(err) => match err.kind() {
+                ErrorKind::WouldBlock | ErrorKind::TimedOut | ErrorKind::Interrupted => (),
+                _ => break,
+            },
         }
-        thread::sleep(time::Duration::from_millis(5 * retry));
+        if Instant::now() > deadline {
+            break;
+        }
+    }
+
+    if filled < buffer.len() {
+        stream.close();
     }
-    None
+    filled == buffer.len()
 }
 
 pub fn write_stream(stream: &mut StreamInterface, buffer: &[u8]) {
-- 
2.43.0


From b09428a73c345acf5ee65006933de9ca71570b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:09 +0000
Subject: [PATCH 08/29] fix: do not panic when a peer does not support
 ut_metadata

---
 src/peer/download/info.rs | 6 ++++--
 src/peer/mod.rs           | 5 +++++
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/peer/download/info.rs b/src/peer/download/info.rs
index 37b58bb..f342ec1 100644
--- a/src/peer/download/info.rs
+++ b/src/peer/download/info.rs
@@ -5,8 +5,10 @@ use crate::{
 
 pub fn next_piece() -> impl FnMut(&mut Peer, usize) {
     |peer: &mut Peer, piece_index| {
-        let metadata_id = peer.get_extension_id_by_name("ut_metadata");
-        peer.send_message(new_metadata(metadata_id, piece_index))
+        // A peer that does not support the extension is left to time out as idle.
+        if let Some(metadata_id) = peer.find_extension_id("ut_metadata") {
+            peer.send_message(new_metadata(metadata_id, piece_index))
+        }
     }
 }
 
diff --git a/src/peer/mod.rs b/src/peer/mod.rs
index 98a032e..63d64eb 100644
--- a/src/peer/mod.rs
+++ b/src/peer/mod.rs
@@ -69,6 +69,11 @@ impl Peer {
         self.metadata_size
     }
 
+    pub fn find_extension_id(&self, name: &str) -> Option<u8> {
+        self.extensions.get(name).copied()
+    }
+
+    #[cfg(test)]
     pub fn get_extension_id_by_name(&self, name: &str) -> u8 {
         *self.extensions.get(name).unwrap()
     }
-- 
2.43.0


From 74c9f14b94b6636ea69a0b35c1acb0077dcfde2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:32 +0000
Subject: [PATCH 09/29] fix: accept metadata from a peer only if its hash is
 the info hash

---
 src/peer/manager.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 6a251be..2dbd3d9 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -1,4 +1,5 @@
 use log::{debug, error, info};
+use sha1::{Digest, Sha1};
 
 use crate::messages::{new_handshake, new_interested};
 use crate::peer::Peer;
@@ -19,6 +20,8 @@ pub enum PeerManagerError {
     PieceDownloadFailure(String),
     #[error("Unsuccessfull piece verification")]
     PieceVerificationFailure(),
+    #[error("Unsuccessfull metadata verification")]
+    MetadataVerificationFailure(),
     #[error(transparent)]
     Stream(#[from] StreamError),
     #[error(transparent)]
@@ -34,6 +37,10 @@ pub fn get_info(info_hash: &[u8], endpoint: &str) -> Result<Info, PeerManagerErr
     init_peer(&mut peer)?;
     let info = Downloadable::Info.download(&mut peer)?;
 
+    if Sha1::digest(&info).as_slice() != info_hash {
+        return Err(PeerManagerError::MetadataVerificationFailure());
+    }
+
     let info = Info::from_bytes(info)?;
     Ok(info)
 }
-- 
2.43.0


From 19851c2ee11543f1a09746dce8461ac422e62de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:47 +0000
Subject: [PATCH 10/29] fix: handshake for pieces with the info hash of the
 magnet, not of the re-encoded known keys

---
 src/actors/connection.rs | 2 +-
 src/actors/messages.rs   | 1 +
 src/actors/torrent.rs    | 3 +++
 src/peer/manager.rs      | 3 ++-
 src/torrent/info.rs      | 4 ----
 5 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/src/actors/connection.rs b/src/actors/connection.rs
index 23ecc05..ca5bd0c 100644
--- a/src/actors/connection.rs
+++ b/src/actors/connection.rs
@@ -22,7 +22,7 @@ impl Handler<PieceRequested> for ConnectionActor {
     type Result = Result<bool, std::io::Error>;
 
     fn handle(&mut self, msg: PieceRequested, _ctx: &mut Self::Context) -> Self::Result {
-        match download(msg.endpoint.clone(), &msg.info, msg.piece_idx) {
+        match download(msg.endpoint.clone(), &msg.info, &msg.info_hash, msg.piece_idx) {
             Ok(piece) => {
                 msg.torrent_actor.do_send(PieceDownloadSuccessfull {
                     endpoint: msg.endpoint.clone(),
diff --git a/src/actors/messages.rs b/src/actors/messages.rs
index 67f2a35..727879d 100644
--- a/src/actors/messages.rs
+++ b/src/actors/messages.rs
@@ -54,6 +54,7 @@ pub struct PieceReady {
 pub struct PieceRequested {
     pub endpoint: String,
     pub info: Info,
+    pub info_hash: Vec<u8>,
     pub piece_idx: usize,
     pub torrent_actor: Addr<TorrentActor>,
 }
diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 9100ec4..49c8f38 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -71,6 +71,7 @@ impl Handler<PieceDownloadSuccessfull> for TorrentActor {
             let msg = PieceRequested {
                 piece_idx,
                 info: self.info.as_ref().unwrap().clone(),
+                info_hash: self.info_hash.clone(),
                 endpoint,
                 torrent_actor: ctx.address(),
             };
@@ -99,6 +100,7 @@ impl Handler<PieceDownloadFailed> for TorrentActor {
             let msg = PieceRequested {
                 piece_idx,
                 info: self.info.as_ref().unwrap().clone(),
+                info_hash: self.info_hash.clone(),
                 endpoint,
                 torrent_actor: ctx.address(),
             };
@@ -137,6 +139,7 @@ impl Handler<PeerFound> for TorrentActor {
                             let msg = PieceRequested {
                                 piece_idx,
                                 info: info.clone(),
+                                info_hash: self.info_hash.clone(),
                                 endpoint,
                                 torrent_actor: ctx.address(),
                             };
diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 2dbd3d9..998af56 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -64,10 +64,11 @@ impl Context {
 pub fn download(
     endpoint: String,
     info: &Info,
+    info_hash: &[u8],
     piece_idx: usize,
 ) -> Result<Vec<u8>, PeerManagerError> {
     let stream = StreamInterface::connect(&endpoint, false)?;
-    let mut peer = Peer::new(stream, &info.compute_info_hash());
+    let mut peer = Peer::new(stream, info_hash);
     init_peer(&mut peer)?;
 
     let piece_length = info.get_piece_length();
diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 9e9c3a3..d39a248 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -121,10 +121,6 @@ impl Info {
             }
         }
     }
-
-    pub fn compute_info_hash(&self) -> Vec<u8> {
-        Sha1::digest(self.encode()).as_slice().to_owned()
-    }
 }
 
 impl Encode for Info {
-- 
2.43.0


From e94f24a7b0c655f7ddf3657debd87f7003d3a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:49 +0000
Subject: [PATCH 11/29] fix: never request a block past the end of its piece

---
 src/peer/download/block.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/peer/download/block.rs b/src/peer/download/block.rs
index ccab021..d713fe4 100644
--- a/src/peer/download/block.rs
+++ b/src/peer/download/block.rs
@@ -17,7 +17,7 @@ pub fn next_block(
             block_offset,
             total_length,
             piece_index * piece_length,
-            block_size,
+            cmp::min(block_size, piece_length - block_offset),
         );
         peer.send_message(new_request(
             piece_index as u32,
-- 
2.43.0


From 358c7a741bb408d603aafac8e64800a07f392ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:13:51 +0000
Subject: [PATCH 12/29] fix: reject torrents with unsafe paths or inconsistent
 lengths instead of panicking or dropping files

---
 src/torrent/file.rs | 11 +++++++++++
 src/torrent/info.rs | 41 +++++++++++++++++++++++++++++++++++++----
 2 files changed, 48 insertions(+), 4 deletions(-)

diff --git a/src/torrent/file.rs b/src/torrent/file.rs
index 03e8855..e272db3 100644
--- a/src/torrent/file.rs
+++ b/src/torrent/file.rs
@@ -13,6 +13,13 @@ pub struct File {
 pub enum FileError {
     #[error("Error handling metainfo")]
     MetainfoError(#[from] MetainfoError),
+    #[error("Unsafe file path {0:?}")]
+    UnsafePath(Vec<String>),
+}
+
+/// Whether a name from a torrent designates an entry right inside its folder, and nothing elsewhere.
+pub fn is_safe_name(name: &str) -> bool {
+    !matches!(name, "" | "." | "..") && !name.contains(['/', '\0'])
 }
 
 impl File {
@@ -26,6 +33,10 @@ impl File {
             file_path.push(path_value);
         }
 
+        if file_path.is_empty() || !file_path.iter().all(|name| is_safe_name(name)) {
+            return Err(FileError::UnsafePath(file_path));
+        }
+
         Ok(File::new(file_path, file_length))
     }
 
diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index d39a248..300c8a8 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -8,7 +8,7 @@ use log::{error, info};
 use crate::bencode::decode::{Decoder, DecoderError};
 use crate::bencode::encode::{encode_dict_entry, Encode};
 use crate::bencode::metainfo::{Metainfo, MetainfoError};
-use crate::torrent::file::File;
+use crate::torrent::file::{is_safe_name, File, FileError};
 
 #[derive(Clone, Debug, Deserialize, Eq, PartialEq, Serialize)]
 pub struct Info {
@@ -29,6 +29,10 @@ pub enum InfoError {
     NoFileLenght(),
     #[error("No info file found at {0}")]
     NoInfoFile(String),
+    #[error("Error handling a file")]
+    FileError(#[from] FileError),
+    #[error("Inconsistent {0}")]
+    Inconsistent(&'static str),
 }
 
 impl Info {
@@ -46,15 +50,44 @@ impl Info {
         let files = a
             .get_list_from_dict("files")
             .ok()
-            .map(|elements| elements.iter().flat_map(File::from_metainfo).collect());
+            .map(|elements| elements.iter().map(File::from_metainfo).collect())
+            .transpose()?;
 
-        Ok(Info {
+        let info = Info {
             name,
             pieces: pieces.to_vec(),
             piece_length,
             files,
             length,
-        })
+        };
+        info.validate()?;
+
+        Ok(info)
+    }
+
+    // Whatever the rest of the client relies on has to hold: a torrent comes from an untrusted peer.
+    fn validate(&self) -> Result<(), InfoError> {
+        if self.files.is_none() && !is_safe_name(&self.name) {
+            return Err(FileError::UnsafePath(vec![self.name.to_owned()]))?;
+        }
+
+        let total_length = self
+            .get_files()?
+            .iter()
+            .try_fold(0_usize, |total, file| total.checked_add(file.get_length()))
+            .filter(|total| i64::try_from(*total).is_ok())
+            .ok_or(InfoError::Inconsistent("total length"))?;
+
+        if self.piece_length == 0 || u32::try_from(self.piece_length).is_err() {
+            return Err(InfoError::Inconsistent("piece length"));
+        }
+        if self.pieces.len() % 20 != 0
+            || self.pieces.len() / 20 != total_length.div_ceil(self.piece_length)
+        {
+            return Err(InfoError::Inconsistent("number of pieces"));
+        }
+
+        Ok(())
     }
 
     pub fn from_file(file_path: &str) -> Result<Info, InfoError> {
-- 
2.43.0


From 179ca63ce9ad48ce163b7e9eb3d132afb27ad94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:29 +0000
Subject: [PATCH 13/29] fix: keep the metadata of a torrent as received and
 verify it when loaded, so a torn file is not fatal

---
 src/actors/torrent.rs |  8 ++++----
 src/peer/manager.rs   | 11 ++++++-----
 src/torrent/info.rs   | 32 +++++++++++++-------------------
 3 files changed, 23 insertions(+), 28 deletions(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 49c8f38..8a183ca 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -159,14 +159,14 @@ impl Handler<PeerFound> for TorrentActor {
 fn collect_info(info_hash: &[u8], endpoint: &str) -> Option<Info> {
     let filename = urlencoding::encode_binary(info_hash).into_owned();
     let file_path = format!("./downloads/{filename}");
-    std::fs::create_dir_all("./downloads").unwrap();
+    let _ = std::fs::create_dir_all("./downloads");
 
-    if let Ok(info) = Info::from_file(&file_path) {
+    if let Ok(info) = Info::from_file(&file_path, info_hash) {
         return Some(info);
     }
 
-    if let Ok(info) = get_info(info_hash, endpoint) {
-        let _ = info.save(&file_path);
+    if let Ok((metadata, info)) = get_info(info_hash, endpoint) {
+        let _ = Info::save(&metadata, &file_path);
         return Some(info);
     };
 
diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 998af56..936e6b5 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -30,19 +30,20 @@ pub enum PeerManagerError {
     Download(#[from] DownloadableError),
 }
 
-pub fn get_info(info_hash: &[u8], endpoint: &str) -> Result<Info, PeerManagerError> {
+/// The metadata of a torrent as sent by a peer, along with what it means.
+pub fn get_info(info_hash: &[u8], endpoint: &str) -> Result<(Vec<u8>, Info), PeerManagerError> {
     let stream = StreamInterface::connect(endpoint, false)?;
     let mut peer = Peer::new(stream, info_hash);
 
     init_peer(&mut peer)?;
-    let info = Downloadable::Info.download(&mut peer)?;
+    let metadata = Downloadable::Info.download(&mut peer)?;
 
-    if Sha1::digest(&info).as_slice() != info_hash {
+    if Sha1::digest(&metadata).as_slice() != info_hash {
         return Err(PeerManagerError::MetadataVerificationFailure());
     }
 
-    let info = Info::from_bytes(info)?;
-    Ok(info)
+    let info = Info::from_bytes(metadata.clone())?;
+    Ok((metadata, info))
 }
 
 struct Context {
diff --git a/src/torrent/info.rs b/src/torrent/info.rs
index 300c8a8..991a04e 100644
--- a/src/torrent/info.rs
+++ b/src/torrent/info.rs
@@ -1,8 +1,6 @@
 use serde::{Deserialize, Serialize};
 use sha1::{Digest, Sha1};
 
-use std::io::Read;
-
 use log::{error, info};
 
 use crate::bencode::decode::{Decoder, DecoderError};
@@ -90,28 +88,24 @@ impl Info {
         Ok(())
     }
 
-    pub fn from_file(file_path: &str) -> Result<Info, InfoError> {
-        if let Ok(mut info_file) = std::fs::File::open(file_path) {
-            info!("Torrent info found in file: {:?}", file_path);
-            let mut info_buffer = "".to_string();
-            if let Err(err) = info_file.read_to_string(&mut info_buffer) {
-                error!(
-                    "Caught error {:?} while reading torrent info from file: {:?}",
-                    err, file_path
-                );
-                return Err(InfoError::NoInfoFile(file_path.to_owned()));
-            }
-
-            let info: Info = serde_json::from_str(&info_buffer).unwrap();
+    /// Loads the metadata saved for the torrent with this info hash. A file that holds anything else,
+    /// as one left incomplete by a crash, is the same as no file.
+    pub fn from_file(file_path: &str, info_hash: &[u8]) -> Result<Info, InfoError> {
+        let metadata =
+            std::fs::read(file_path).map_err(|_| InfoError::NoInfoFile(file_path.to_owned()))?;
 
-            return Ok(info);
+        if Sha1::digest(&metadata).as_slice() != info_hash {
+            error!("No valid torrent info in file: {:?}", file_path);
+            return Err(InfoError::NoInfoFile(file_path.to_owned()));
         }
 
-        Err(InfoError::NoInfoFile(file_path.to_owned()))
+        info!("Torrent info found in file: {:?}", file_path);
+        Info::from_bytes(metadata)
     }
 
-    pub fn save(&self, file_path: &str) -> Result<(), InfoError> {
-        if let Err(err) = serde_json::to_writer(&std::fs::File::create(file_path).unwrap(), self) {
+    /// Saves the metadata of a torrent as received, so that its hash can be verified when it is loaded.
+    pub fn save(metadata: &[u8], file_path: &str) -> Result<(), InfoError> {
+        if let Err(err) = std::fs::write(file_path, metadata) {
             error!(
                 "Caught error {:?} while saving the info to file {:?}",
                 err, file_path
-- 
2.43.0


From 5b336d94f35c23139889949f4088ffa23128c94a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:14:44 +0000
Subject: [PATCH 14/29] fix: write pieces whole, and keep the writer alive when
 the filesystem fails

---
 src/actors/writer.rs  | 28 +++++++++++++++++++++++++---
 src/torrent/writer.rs | 38 +++++++++++++++++++++++++++-----------
 2 files changed, 52 insertions(+), 14 deletions(-)

diff --git a/src/actors/writer.rs b/src/actors/writer.rs
index 233f060..4b21353 100644
--- a/src/actors/writer.rs
+++ b/src/actors/writer.rs
@@ -1,9 +1,16 @@
+use std::thread;
+use std::time::Duration;
+
 use actix::prelude::*;
+use log::error;
 
 use crate::torrent::writer::write;
 
 use super::messages::PieceReady;
 
+const MAX_ATTEMPTS: usize = 5;
+const RETRY_DELAY: Duration = Duration::from_millis(100);
+
 pub struct WriterActor;
 
 // Provide Actor implementation for our actor
@@ -19,8 +26,23 @@ impl Handler<PieceReady> for WriterActor {
     type Result = Result<bool, std::io::Error>;
 
     fn handle(&mut self, msg: PieceReady, _ctx: &mut Self::Context) -> Self::Result {
-        let _ = write(msg.piece, msg.piece_idx, msg.files, msg.piece_length);
-
-        Ok(true)
+        // The piece is not downloaded again, so do not lose it to an error that may not last.
+        for attempt in 1..=MAX_ATTEMPTS {
+            match write(
+                msg.piece.clone(),
+                msg.piece_idx,
+                msg.files.clone(),
+                msg.piece_length,
+            ) {
+                Ok(()) => return Ok(true),
+                Err(err) => error!(
+                    "Attempt {attempt} to write piece {} failed: {err}",
+                    msg.piece_idx
+                ),
+            }
+            thread::sleep(RETRY_DELAY);
+        }
+
+        Ok(false)
     }
 }
diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index e2201d0..6089fe0 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -10,7 +10,10 @@ use std::os::windows::prelude::FileExt;
 use crate::torrent::file::File;
 
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
-pub enum WriterError {}
+pub enum WriterError {
+    #[error("Error writing to the filesystem: {0}")]
+    Filesystem(std::io::ErrorKind),
+}
 
 pub fn write(
     piece: Vec<u8>,
@@ -18,9 +21,11 @@ pub fn write(
     files: Vec<File>,
     piece_length: usize,
 ) -> Result<(), WriterError> {
-    get_file_writers(files, piece, idx, piece_length)
-        .iter()
-        .for_each(|writer| writer.write_to_filesystem());
+    for writer in get_file_writers(files, piece, idx, piece_length) {
+        writer
+            .write_to_filesystem()
+            .map_err(|err| WriterError::Filesystem(err.kind()))?;
+    }
 
     log::info!("Completed write to filesystem for piece {:?}", idx);
     Ok(())
@@ -45,23 +50,34 @@ impl FileWriter {
     }
 
     // TODO: Add optional folder where to save output
-    pub fn write_to_filesystem(&self) {
+    pub fn write_to_filesystem(&self) -> std::io::Result<()> {
         let path_string = &self.path.join("/");
         let path = std::path::Path::new(path_string);
-        let prefix = path.parent().unwrap();
-        std::fs::create_dir_all(prefix).unwrap();
+        if let Some(prefix) = path.parent() {
+            std::fs::create_dir_all(prefix)?;
+        }
 
         let file = fs::OpenOptions::new()
             .write(true)
             .create(true)
-            .open(path)
-            .unwrap();
+            .open(path)?;
 
         #[cfg(target_family = "unix")]
-        file.write_at(&self.piece, self.start as u64).unwrap();
+        file.write_all_at(&self.piece, self.start as u64)?;
 
         #[cfg(target_family = "windows")]
-        file.seek_write(&self.piece, self.start as u64).unwrap();
+        {
+            let mut written = 0;
+            while written < self.piece.len() {
+                let offset = (self.start + written) as u64;
+                match file.seek_write(&self.piece[written..], offset)? {
+                    0 => return Err(std::io::ErrorKind::WriteZero.into()),
+                    count => written += count,
+                }
+            }
+        }
+
+        Ok(())
     }
 }
 
-- 
2.43.0


From 664a214cea5764a472097e6975aa44c5617d838b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:14 +0000
Subject: [PATCH 15/29] fix: create the empty files of a torrent wherever they
 are in it

---
 src/torrent/writer.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/torrent/writer.rs b/src/torrent/writer.rs
index 6089fe0..4fd93c0 100644
--- a/src/torrent/writer.rs
+++ b/src/torrent/writer.rs
@@ -133,6 +133,11 @@ impl FileParser {
         self.offset < self.right_file_boundary
     }
 
+    // An empty file has no bytes in any piece: it comes with the pieces that reach its position.
+    fn is_empty_file_reached(&self) -> bool {
+        (self.offset..=self.offset + self.piece_length).contains(&self.right_file_boundary)
+    }
+
     fn is_piece_finished(&self) -> bool {
         self.offset + self.piece_length > self.right_file_boundary
     }
@@ -146,12 +151,17 @@ pub fn get_file_writers(
 ) -> Vec<FileWriter> {
     let mut file_parser = FileParser::new(piece.len(), idx, piece_length);
     let mut files_to_write = vec![];
+    let mut piece_written = false;
 
     for file in files {
         let file_length = file.get_length();
         file_parser.update_right_file_boundary(file_length);
 
-        if file_parser.is_piece_in_file() {
+        if file_length == 0 {
+            if file_parser.is_empty_file_reached() {
+                files_to_write.push(FileWriter::new(file.get_path(), 0, 0, vec![]));
+            }
+        } else if file_parser.is_piece_in_file() && !piece_written {
             file_parser.update_end_file_index();
 
             files_to_write.push(FileWriter::new(
@@ -165,7 +175,7 @@ pub fn get_file_writers(
             if file_parser.is_piece_finished() {
                 file_parser.update_start_file_index()
             } else {
-                return files_to_write;
+                piece_written = true;
             }
         }
     }
-- 
2.43.0


From e40c000ee0aed47f4ec6db18b8c45c2e26541536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:33 +0000
Subject: [PATCH 16/29] fix: match UDP tracker responses to requests, resend
 lost ones, and accept a single peer

---
 src/tracker/udp_tracker.rs | 51 +++++++++++++++++++++++++++++++-------
 1 file changed, 42 insertions(+), 9 deletions(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index acdbdaf..4b0204e 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -1,7 +1,12 @@
+use std::time::Duration;
+
 use tokio::net::UdpSocket;
+use tokio::time::timeout;
 
 use url::Url;
 
+const RESPONSE_TIMEOUT: Duration = Duration::from_secs(2);
+
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
 pub enum UdpTrackerError {
     #[error("Tracker missing post")]
@@ -25,7 +30,7 @@ pub async fn call(
 ) -> Result<Vec<u8>, UdpTrackerError> {
     let socket = UdpSocket::bind("0.0.0.0:0")
         .await
-        .expect("couldn't bind to address");
+        .map_err(|_| UdpTrackerError::NoConnectionEstablished())?;
     let tracker_hostname = format!(
         "{}:{}",
         tracker_url
@@ -37,7 +42,7 @@ pub async fn call(
     socket
         .connect(tracker_hostname.clone())
         .await
-        .expect("Panico");
+        .map_err(|_| UdpTrackerError::NoConnectionEstablished())?;
 
     let transaction_id: &[u8] = &[0x00, 0x01, 0x19, 0x9e];
     let connection_id = connect_to_tracker(transaction_id, &socket).await?;
@@ -48,11 +53,9 @@ pub async fn call(
         peer_id.as_bytes(),
         info_hash,
     );
-    send_upd_packet(&socket, message).await?;
-
     let mut annouce_buf: [u8; 4000] = [0x00; 4000];
-    let resp_size = read_upd_packet(&socket, &mut annouce_buf).await?;
-    if resp_size > 26 {
+    let resp_size = exchange(&socket, message, &mut annouce_buf).await?;
+    if resp_size >= 26 {
         return Ok(annouce_buf[20..resp_size].to_vec());
     }
 
@@ -66,20 +69,50 @@ async fn connect_to_tracker(
     let message = &make_connection_message(transaction_id);
 
     let mut buf: [u8; 16] = [0x00; 16];
+    match exchange(socket, message, &mut buf).await? {
+        16 => Ok(buf[8..].to_vec()),
+        _ => Err(UdpTrackerError::NoConnectionEstablished()),
+    }
+}
 
+// Sends a request until its response is recieved: any of the two packets can be lost on the way.
+async fn exchange(
+    socket: &UdpSocket,
+    message: &[u8],
+    buffer: &mut [u8],
+) -> Result<usize, UdpTrackerError> {
     for retry in 1..5 {
         if send_upd_packet(socket, message).await.is_err() {
-            log::error!("Send udp connect packet failed, retry number {}", retry);
+            log::error!("Send udp packet failed, retry number {}", retry);
         };
 
-        if read_upd_packet(socket, &mut buf).await.is_ok() {
-            return Ok(buf[8..].to_vec());
+        if let Ok(Ok(size)) = timeout(
+            RESPONSE_TIMEOUT,
+            read_response(socket, &message[8..16], buffer),
+        )
+        .await
+        {
+            return Ok(size);
         }
     }
 
     Err(UdpTrackerError::NoConnectionEstablished())
 }
 
+// Skips whatever is not the response to the request with this action and transaction id.
+async fn read_response(
+    socket: &UdpSocket,
+    action_and_transaction_id: &[u8],
+    buffer: &mut [u8],
+) -> Result<usize, UdpTrackerError> {
+    loop {
+        let size = read_upd_packet(socket, buffer).await?;
+        if size >= 8 && &buffer[..8] == action_and_transaction_id {
+            return Ok(size);
+        }
+    }
+}
+
 async fn read_upd_packet(socket: &UdpSocket, buffer: &mut [u8]) -> Result<usize, UdpTrackerError> {
     let (resp_size, _) = socket
         .recv_from(buffer)
-- 
2.43.0


From 4f0c66aa87263080517ca4b76c89e4ca378a976c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:35 +0000
Subject: [PATCH 17/29] fix: keep the query of a tracker url well formed

---
 src/tracker/tcp_tracker.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/tracker/tcp_tracker.rs b/src/tracker/tcp_tracker.rs
index a628db4..b0acc67 100644
--- a/src/tracker/tcp_tracker.rs
+++ b/src/tracker/tcp_tracker.rs
@@ -23,8 +23,9 @@ pub fn call(info_hash: &[u8], peer_id: &str, tracker: &Url) -> Result<Vec<u8>, T
     let url_encoded_info_hash = urlencoding::encode_binary(info_hash).into_owned();
 
     let url = format!(
-        "{}?info_hash={}&peer_id={}",
+        "{}{}info_hash={}&peer_id={}",
         tracker.as_str(),
+        if tracker.query().is_some() { '&' } else { '?' },
         url_encoded_info_hash,
         peer_id
     );
-- 
2.43.0


From 56cc250e8fd558572beea5d0d85a6b70fbe18732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:56 +0000
Subject: [PATCH 18/29] fix: start the download when the last peer found is the
 one that gave the metadata

---
 src/actors/torrent.rs | 56 +++++++++++++++++++++----------------------
 1 file changed, 27 insertions(+), 29 deletions(-)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index 8a183ca..d5d8ee9 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -117,36 +117,34 @@ impl Handler<PeerFound> for TorrentActor {
     fn handle(&mut self, msg: PeerFound, ctx: &mut Context<Self>) -> Self::Result {
         self.peers.push(Peer::new(msg.peer.endpoint()));
 
-        match &self.info {
-            None => {
-                if let Some(info) = collect_info(&self.info_hash, &msg.peer.endpoint()) {
-                    let piece_count = (0..info.get_total_length())
-                        .step_by(info.get_piece_length())
-                        .len();
-
-                    self.piece_available_pool = Some(PiecePool::new(piece_count));
-                    self.info = Some(info);
-                }
-
-                return Ok(true);
+        if self.info.is_none() {
+            if let Some(info) = collect_info(&self.info_hash, &msg.peer.endpoint()) {
+                let piece_count = (0..info.get_total_length())
+                    .step_by(info.get_piece_length())
+                    .len();
+
+                self.piece_available_pool = Some(PiecePool::new(piece_count));
+                self.info = Some(info);
             }
-            Some(info) => {
-                if self.peers.len() > 10 && !self.initiated {
-                    for _ in 0..5 {
-                        let endpoint = Peer::find_suitable_peer(self.peers.to_vec());
-
-                        if let Some(piece_idx) = self.piece_available_pool.as_mut().unwrap().pop() {
-                            let msg = PieceRequested {
-                                piece_idx,
-                                info: info.clone(),
-                                info_hash: self.info_hash.clone(),
-                                endpoint,
-                                torrent_actor: ctx.address(),
-                            };
-
-                            self.connections_pool.do_send(msg);
-                            self.initiated = true;
-                        }
+        }
+
+        // Not only after the info: the peer that gave it can be the last one to be found.
+        if let Some(info) = &self.info {
+            if self.peers.len() > 10 && !self.initiated {
+                for _ in 0..5 {
+                    let endpoint = Peer::find_suitable_peer(self.peers.to_vec());
+
+                    if let Some(piece_idx) = self.piece_available_pool.as_mut().unwrap().pop() {
+                        let msg = PieceRequested {
+                            piece_idx,
+                            info: info.clone(),
+                            info_hash: self.info_hash.clone(),
+                            endpoint,
+                            torrent_actor: ctx.address(),
+                        };
+
+                        self.connections_pool.do_send(msg);
+                        self.initiated = true;
                     }
                 }
             }
-- 
2.43.0


From 5979fb7f5e25a892436308c00dd3b38dea554081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:15:57 +0000
Subject: [PATCH 19/29] fix: give up on a peer that only sends unrelated
 messages

---
 src/peer/buffer.rs       |  7 +++++--
 src/peer/download/mod.rs | 11 +++++++++--
 2 files changed, 14 insertions(+), 4 deletions(-)

diff --git a/src/peer/buffer.rs b/src/peer/buffer.rs
index 5e6cc97..3a7a1af 100644
--- a/src/peer/buffer.rs
+++ b/src/peer/buffer.rs
@@ -30,10 +30,13 @@ where
         }
     }
 
-    pub fn push_message(&mut self, msg: Message) {
-        if (self.message_filter)(&msg) && !self.is_full() {
+    /// Whether the message was one of those to collect.
+    pub fn push_message(&mut self, msg: Message) -> bool {
+        let expected = (self.message_filter)(&msg) && !self.is_full();
+        if expected {
             self.buffer.push(msg);
         }
+        expected
     }
 
     pub fn request_next_message(&mut self, peer: &mut Peer) {
diff --git a/src/peer/download/mod.rs b/src/peer/download/mod.rs
index 7f0a907..4c8fe0f 100644
--- a/src/peer/download/mod.rs
+++ b/src/peer/download/mod.rs
@@ -6,6 +6,8 @@ use crate::peer::Peer;
 
 pub const BLOCK_SIZE: usize = 16384;
 pub const INFO_PIECE_SIZE: usize = 16384;
+// A peer that keeps sending other messages than the expected ones is not waited for forever.
+const MAX_UNRELATED_MESSAGES: usize = 256;
 
 pub enum Downloadable {
     Info,
@@ -60,11 +62,16 @@ where
     F: FnMut(&mut Peer, usize),
 {
     let mut idle_count = 0;
+    let mut unrelated_count = 0;
 
     loop {
         if let Some(message) = peer.read_message() {
             peer.apply_message(&message);
-            buffer.push_message(message);
+            if buffer.push_message(message) {
+                unrelated_count = 0;
+            } else {
+                unrelated_count += 1;
+            }
             idle_count = 0;
         }
 
@@ -80,7 +87,7 @@ where
 
         idle_count += 1;
 
-        if idle_count > 10 {
+        if idle_count > 10 || unrelated_count > MAX_UNRELATED_MESSAGES {
             return Err(DownloadableError::Idle());
         }
     }
-- 
2.43.0


From 3ff51d635ed7b4d66cea3ea914737bc679a55e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:26 +0000
Subject: [PATCH 20/29] fix: do not request metadata from a peer that disabled
 ut_metadata

---
 src/peer/mod.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/peer/mod.rs b/src/peer/mod.rs
index 63d64eb..c31c81e 100644
--- a/src/peer/mod.rs
+++ b/src/peer/mod.rs
@@ -69,8 +69,9 @@ impl Peer {
         self.metadata_size
     }
 
+    // The id 0 is how a peer disables an extension.
     pub fn find_extension_id(&self, name: &str) -> Option<u8> {
-        self.extensions.get(name).copied()
+        self.extensions.get(name).copied().filter(|id| *id != 0)
     }
 
     #[cfg(test)]
-- 
2.43.0


From 0cc7faf430b3a05771c9fc337e15cefe59c7be93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 21/29] fix: run each torrent on a thread of its own so it does
 not hold up the API or other torrents

---
 src/main.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index c0f625a..f4bd713 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -30,7 +30,9 @@ async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpRespon
     };
     let info_hash = magnet.get_info_hash();
 
-    let addr = TorrentActor::new(info_hash.clone()).start();
+    // On a thread of its own: a torrent waits for its peers, and would keep other torrents and requests waiting too.
+    let actor = TorrentActor::new(info_hash.clone());
+    let addr = TorrentActor::start_in_arbiter(&Arbiter::new().handle(), |_| actor);
 
     let msg = TorrentRegistered {
         info_hash,
-- 
2.43.0


From 013b94fec6b7aa405888238308c5d2213fedc894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:25 +0000
Subject: [PATCH 22/29] fix: bound the memory a peer can make a download take

---
 src/peer/buffer.rs | 6 +++++-
 src/peer/mod.rs    | 8 +++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/peer/buffer.rs b/src/peer/buffer.rs
index 3a7a1af..e6e225c 100644
--- a/src/peer/buffer.rs
+++ b/src/peer/buffer.rs
@@ -1,4 +1,5 @@
 use crate::messages::Message;
+use crate::peer::download::BLOCK_SIZE;
 use crate::peer::Peer;
 
 pub struct MessageBuffer<F>
@@ -32,7 +33,10 @@ where
 
     /// Whether the message was one of those to collect.
     pub fn push_message(&mut self, msg: Message) -> bool {
-        let expected = (self.message_filter)(&msg) && !self.is_full();
+        // More data than is ever requested at once is not what was requested.
+        let expected = (self.message_filter)(&msg)
+            && !self.is_full()
+            && msg.get_content_data().len() <= BLOCK_SIZE;
         if expected {
             self.buffer.push(msg);
         }
diff --git a/src/peer/mod.rs b/src/peer/mod.rs
index c31c81e..ae96218 100644
--- a/src/peer/mod.rs
+++ b/src/peer/mod.rs
@@ -14,6 +14,9 @@ use crate::peer::stream::{
     read_stream, send_metadata_handshake_request, write_stream, StreamInterface,
 };
 
+// Metadata is kept in memory until it is whole and verified, so a peer can not make it as large as it likes.
+const MAX_METADATA_SIZE: usize = 32 << 20;
+
 #[derive(Debug)]
 pub struct Peer {
     id: String,
@@ -115,7 +118,10 @@ impl Peer {
             ContentType::Extension(content) => {
                 if content.is_handshake() {
                     self.extensions = content.get_extensions().clone();
-                    self.metadata_size = content.get_metadata_size().unwrap_or(0);
+                    self.metadata_size = content
+                        .get_metadata_size()
+                        .filter(|size| *size <= MAX_METADATA_SIZE)
+                        .unwrap_or(0);
                 }
             }
             ContentType::Handshake(handshake) => {
-- 
2.43.0


From 5316ad3e823935ee86d7383b986f750c653fe872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:01:29 +0000
Subject: [PATCH 23/29] fix: keep a torrent running while it has pieces to
 download

With a single piece in progress nobody held the address of the torrent's actor between the failure of the
piece and its next request: at times the actor stopped with the failure still to be handled.
---
 src/actors/torrent.rs | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/actors/torrent.rs b/src/actors/torrent.rs
index d5d8ee9..209eded 100644
--- a/src/actors/torrent.rs
+++ b/src/actors/torrent.rs
@@ -23,6 +23,10 @@ pub struct TorrentActor {
     piece_available_pool: Option<PiecePool>,
     writers_pool: Addr<WriterActor>,
     initiated: bool,
+    missing_pieces: usize,
+    // Held until the download is complete: the actor would stop, with a message still to be handled, at a moment when
+    // nobody else has its address, as between the failure of the only piece in progress and its next request.
+    address: Option<Addr<TorrentActor>>,
 }
 
 impl TorrentActor {
@@ -38,6 +42,8 @@ impl TorrentActor {
             piece_available_pool: None,
             writers_pool: write_addr,
             initiated: false,
+            missing_pieces: 0,
+            address: None,
         }
     }
 }
@@ -64,6 +70,11 @@ impl Handler<PieceDownloadSuccessfull> for TorrentActor {
         };
         self.writers_pool.do_send(msg_ready);
 
+        self.missing_pieces -= 1;
+        if self.missing_pieces == 0 {
+            self.address = None;
+        }
+
         let endpoint = msg.endpoint;
         Peer::update_sucess(&mut self.peers, endpoint.clone());
 
@@ -117,6 +128,10 @@ impl Handler<PeerFound> for TorrentActor {
     fn handle(&mut self, msg: PeerFound, ctx: &mut Context<Self>) -> Self::Result {
         self.peers.push(Peer::new(msg.peer.endpoint()));
 
+        if !self.initiated {
+            self.address = Some(ctx.address());
+        }
+
         if self.info.is_none() {
             if let Some(info) = collect_info(&self.info_hash, &msg.peer.endpoint()) {
                 let piece_count = (0..info.get_total_length())
@@ -124,6 +139,7 @@ impl Handler<PeerFound> for TorrentActor {
                     .len();
 
                 self.piece_available_pool = Some(PiecePool::new(piece_count));
+                self.missing_pieces = piece_count;
                 self.info = Some(info);
             }
         }
-- 
2.43.0


From 6c3185ba9cdfa98241f77f553d1c252a544a34ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:47 +0000
Subject: [PATCH 24/29] fix: do not hold up all torrents while one tracker's
 peers are tried

Whether a peer can be reached was tried on the thread every tracker actor
runs on, up to 50 ms each: with a few hundred peers that do not answer, other
torrents were not announced for as long.
---
 src/actors/tracker.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/actors/tracker.rs b/src/actors/tracker.rs
index 617a7e6..bbc1612 100644
--- a/src/actors/tracker.rs
+++ b/src/actors/tracker.rs
@@ -32,7 +32,12 @@ impl Handler<TorrentRegistered> for TrackerActor {
 
             if let Ok(peers) = result {
                 for peer in peers {
-                    if PeerEndpoint::is_reachable(&peer.endpoint()) {
+                    // All trackers of all torrents share a thread, which can not wait for every peer.
+                    let endpoint = peer.endpoint();
+                    let reachable =
+                        tokio::task::spawn_blocking(move || PeerEndpoint::is_reachable(&endpoint));
+
+                    if reachable.await.unwrap_or(false) {
                         msg.torrent_actor_addr.do_send(PeerFound { peer });
                     }
                 }
-- 
2.43.0


From f51e51619ba9d5babe426d3a91724af5896e989e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:33 +0000
Subject: [PATCH 25/29] fix: receive whole responses of UDP trackers

A response of more than 4000 bytes lost the peers beyond.
---
 src/tracker/udp_tracker.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/tracker/udp_tracker.rs b/src/tracker/udp_tracker.rs
index 4b0204e..baccd46 100644
--- a/src/tracker/udp_tracker.rs
+++ b/src/tracker/udp_tracker.rs
@@ -5,6 +5,8 @@ use tokio::time::timeout;
 
 use url::Url;
 
+// A larger response loses peers.
+const MAX_DATAGRAM_SIZE: usize = 65_535;
 const RESPONSE_TIMEOUT: Duration = Duration::from_secs(2);
 
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
@@ -53,7 +55,7 @@ pub async fn call(
         peer_id.as_bytes(),
         info_hash,
     );
-    let mut annouce_buf: [u8; 4000] = [0x00; 4000];
+    let mut annouce_buf = vec![0x00; MAX_DATAGRAM_SIZE];
     let resp_size = exchange(&socket, message, &mut annouce_buf).await?;
     if resp_size >= 26 {
         return Ok(annouce_buf[20..resp_size].to_vec());
-- 
2.43.0


From 5db67a400aa82e38417e7f2d4068de2536cb1b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:33 +0000
Subject: [PATCH 26/29] fix: do not drop torrents that are added while others
 wait

Mailboxes of actors are bounded and try_send gives up when one is full: of
forty torrents added at once some were not announced to some trackers.
---
 src/actors/trackers_interface.rs | 2 +-
 src/main.rs                      | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/actors/trackers_interface.rs b/src/actors/trackers_interface.rs
index 5d9ed75..497e7ac 100644
--- a/src/actors/trackers_interface.rs
+++ b/src/actors/trackers_interface.rs
@@ -58,7 +58,7 @@ impl Handler<TorrentRegistered> for TrackersInterfaceActor {
 
     fn handle(&mut self, msg: TorrentRegistered, _ctx: &mut Context<Self>) -> Self::Result {
         for actor in self.trackers.iter() {
-            let _ = actor.try_send(msg.clone());
+            actor.do_send(msg.clone());
         }
 
         Ok(true)
diff --git a/src/main.rs b/src/main.rs
index f4bd713..d1d70b2 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -39,7 +39,8 @@ async fn add_magnet(data: web::Data<AppState>, magnet_raw: String) -> HttpRespon
         torrent_actor_addr: addr.clone(),
     };
 
-    let _ = data.trackers_interface.try_send(msg);
+    // Whatever number of torrents is waiting: an added one is not dropped.
+    data.trackers_interface.do_send(msg);
 
     HttpResponse::Ok().body("Test")
 }
-- 
2.43.0


From 7d25ca414e5e99b31c9bdaf1ae22091ab793c832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:25 +0000
Subject: [PATCH 27/29] fix: bear with peers that announce many pieces before
 they are ready

---
 src/peer/download/mod.rs |  2 +-
 src/peer/manager.rs      | 22 ++++++++++++++--------
 2 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/src/peer/download/mod.rs b/src/peer/download/mod.rs
index 4c8fe0f..2732820 100644
--- a/src/peer/download/mod.rs
+++ b/src/peer/download/mod.rs
@@ -7,7 +7,7 @@ use crate::peer::Peer;
 pub const BLOCK_SIZE: usize = 16384;
 pub const INFO_PIECE_SIZE: usize = 16384;
 // A peer that keeps sending other messages than the expected ones is not waited for forever.
-const MAX_UNRELATED_MESSAGES: usize = 256;
+pub const MAX_UNRELATED_MESSAGES: usize = 256;
 
 pub enum Downloadable {
     Info,
diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 936e6b5..deb8563 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -5,7 +5,7 @@ use crate::messages::{new_handshake, new_interested};
 use crate::peer::Peer;
 use crate::torrent::info::{Info, InfoError};
 
-use super::download::{Downloadable, DownloadableError};
+use super::download::{Downloadable, DownloadableError, MAX_UNRELATED_MESSAGES};
 use super::stream::{StreamError, StreamInterface};
 
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
@@ -106,15 +106,21 @@ fn init_peer(peer: &mut Peer) -> Result<(), PeerManagerError> {
     peer.send_metadata_handshake_request()
         .map_err(|_| PeerManagerError::HandshakeMetadata())?;
 
+    let mut message_count = 0;
     for _ in 0..10 {
-        match peer.read_message() {
-            Some(message) => peer.apply_message(&message),
-            None => debug!("No message available to read"),
-        }
-
-        if peer.is_ready() {
-            return Ok(());
+        // Only silence uses up an attempt: a peer can announce many pieces before it is ready.
+        while let Some(message) = peer.read_message() {
+            peer.apply_message(&message);
+            message_count += 1;
+
+            if peer.is_ready() {
+                return Ok(());
+            }
+            if message_count > MAX_UNRELATED_MESSAGES {
+                return Err(PeerManagerError::PeerNotReady());
+            }
         }
+        debug!("No message available to read");
     }
     Err(PeerManagerError::PeerNotReady())
 }
-- 
2.43.0


From 99e61f6c9834f53d533e4bd7cb42e9c4e4bad9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:57 +0000
Subject: [PATCH 28/29] fix: limit the time for which a peer is listened to in
 vain

---
 src/peer/download/mod.rs | 10 +++++++++-
 src/peer/manager.rs      |  9 +++++++--
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/peer/download/mod.rs b/src/peer/download/mod.rs
index 2732820..ae21438 100644
--- a/src/peer/download/mod.rs
+++ b/src/peer/download/mod.rs
@@ -1,6 +1,8 @@
 pub mod block;
 pub mod info;
 
+use std::time::{Duration, Instant};
+
 use crate::peer::buffer::MessageBuffer;
 use crate::peer::Peer;
 
@@ -8,6 +10,7 @@ pub const BLOCK_SIZE: usize = 16384;
 pub const INFO_PIECE_SIZE: usize = 16384;
 // A peer that keeps sending other messages than the expected ones is not waited for forever.
 pub const MAX_UNRELATED_MESSAGES: usize = 256;
+pub const MAX_UNRELATED_TIME: Duration = Duration::from_secs(30);
 
 pub enum Downloadable {
     Info,
@@ -63,12 +66,14 @@ where
 {
     let mut idle_count = 0;
     let mut unrelated_count = 0;
+    let mut unrelated_since = Instant::now();
 
     loop {
         if let Some(message) = peer.read_message() {
             peer.apply_message(&message);
             if buffer.push_message(message) {
                 unrelated_count = 0;
+                unrelated_since = Instant::now();
             } else {
                 unrelated_count += 1;
             }
@@ -87,7 +92,10 @@ where
 
         idle_count += 1;
 
-        if idle_count > 10 || unrelated_count > MAX_UNRELATED_MESSAGES {
+        if idle_count > 10
+            || unrelated_count > MAX_UNRELATED_MESSAGES
+            || unrelated_since.elapsed() > MAX_UNRELATED_TIME
+        {
             return Err(DownloadableError::Idle());
         }
     }
diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index deb8563..242ed57 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -1,3 +1,5 @@
+use std::time::Instant;
+
 use log::{debug, error, info};
 use sha1::{Digest, Sha1};
 
@@ -5,7 +7,9 @@ use crate::messages::{new_handshake, new_interested};
 use crate::peer::Peer;
 use crate::torrent::info::{Info, InfoError};
 
-use super::download::{Downloadable, DownloadableError, MAX_UNRELATED_MESSAGES};
+use super::download::{
+    Downloadable, DownloadableError, MAX_UNRELATED_MESSAGES, MAX_UNRELATED_TIME,
+};
 use super::stream::{StreamError, StreamInterface};
 
 #[derive(thiserror::Error, Debug, Clone, PartialEq)]
@@ -106,6 +110,7 @@ fn init_peer(peer: &mut Peer) -> Result<(), PeerManagerError> {
     peer.send_metadata_handshake_request()
         .map_err(|_| PeerManagerError::HandshakeMetadata())?;
 
+    let start = Instant::now();
     let mut message_count = 0;
     for _ in 0..10 {
         // Only silence uses up an attempt: a peer can announce many pieces before it is ready.
@@ -116,7 +121,7 @@ fn init_peer(peer: &mut Peer) -> Result<(), PeerManagerError> {
             if peer.is_ready() {
                 return Ok(());
             }
-            if message_count > MAX_UNRELATED_MESSAGES {
+            if message_count > MAX_UNRELATED_MESSAGES || start.elapsed() > MAX_UNRELATED_TIME {
                 return Err(PeerManagerError::PeerNotReady());
             }
         }
-- 
2.43.0


From bcb79a2fcc2ff019d5bbcc4386db0b69b2287173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:14:25 +0000
Subject: [PATCH 29/29] fix: give a distant peer time to answer the handshake

---
 src/peer/manager.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/peer/manager.rs b/src/peer/manager.rs
index 242ed57..120b59a 100644
--- a/src/peer/manager.rs
+++ b/src/peer/manager.rs
@@ -97,9 +97,13 @@ pub fn download(
 
 fn init_peer(peer: &mut Peer) -> Result<(), PeerManagerError> {
     peer.send_message(new_handshake(&peer.get_info_hash(), &peer.get_peer_id()));
-    match peer.read_message() {
-        Some(message) => peer.apply_message(&message),
-        None => debug!("No message available to read"),
+    // The answer of a distant peer takes a while.
+    for _ in 0..10 {
+        if let Some(message) = peer.read_message() {
+            peer.apply_message(&message);
+            break;
+        }
+        debug!("No message available to read");
     }
 
     if !peer.is_active() {
-- 
2.43.0

