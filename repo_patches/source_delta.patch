From 0401c5064cc3c61cefbaeee7f3e4e467adfd3bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:05 +0000
Subject: [PATCH 01/16] fix: lookup endpoint searches for the requested key,
 not for the requester's

---
 src/rest_api/middleware/server.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rest_api/middleware/server.rs b/src/rest_api/middleware/server.rs
index 8ffac1c..4fcb816 100644
--- a/src/rest_api/middleware/server.rs
+++ b/src/rest_api/middleware/server.rs
@@ -274,7 +274,7 @@ where
                 }
 
                 // Try to find the client in the local index
-                match driver.router().lookup_local_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_local_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, available))) => {
                         let body = LookupResponseBody::local(client, available);
 
@@ -295,7 +295,7 @@ where
                 }
 
                 // Try to find the client in the remote index
-                match driver.router().lookup_remote_client(&request.0.public_key, request.0.request.client_type).await {
+                match driver.router().lookup_remote_client(&request.0.request.public_key, request.0.request.client_type).await {
                     Ok(Some((client, server, available))) => {
                         let body = LookupResponseBody::remote(client, server, available);
 
@@ -317,7 +317,7 @@ where
 
                 // Return searching hint if neither local nor known remote record found
                 let hint = driver.router()
-                    .lookup_remote_client_hint(&request.0.public_key, request.0.request.client_type)
+                    .lookup_remote_client_hint(&request.0.request.public_key, request.0.request.client_type)
                     .await;
 
                 match hint {
-- 
2.43.0


From 592b52bac04a965f1d18c55f32e2fec10f2dfaad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 02/16] fix: reject too short encapsulated signatures instead
 of panicking

---
 src/crypto/asymmetric/public_key.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/crypto/asymmetric/public_key.rs b/src/crypto/asymmetric/public_key.rs
index e8863ba..6c607cb 100644
--- a/src/crypto/asymmetric/public_key.rs
+++ b/src/crypto/asymmetric/public_key.rs
@@ -53,11 +53,21 @@ impl PublicKey {
     pub fn decode_encapsulated_signature(&self, capsule: impl AsRef<[u8]>) -> Result<Option<Vec<u8>>, CryptographyError> {
         let capsule = capsule.as_ref();
 
+        if capsule.len() < 8 {
+            return Err(CryptographyError::Decoding("capsule is too short".into()));
+        }
+
         let mut sign_len_bytes = [0_u8; 8];
 
         sign_len_bytes.copy_from_slice(&capsule[..8]);
 
-        let sign_len = u64::from_be_bytes(sign_len_bytes) as usize;
+        let sign_len = u64::from_be_bytes(sign_len_bytes);
+
+        if sign_len > capsule.len() as u64 - 8 {
+            return Err(CryptographyError::Decoding("capsule is shorter than its signature".into()));
+        }
+
+        let sign_len = sign_len as usize;
 
         let signature = &capsule[8..sign_len + 8];
         let message = &capsule[sign_len + 8..];
-- 
2.43.0


From fdeb509a2120d48106a30fdcd366d3d52247a48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:34 +0000
Subject: [PATCH 03/16] fix: reject too short connection tokens instead of
 panicking

---
 src/rest_api/types/connection_token.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/rest_api/types/connection_token.rs b/src/rest_api/types/connection_token.rs
index cab26fa..d9168d8 100644
--- a/src/rest_api/types/connection_token.rs
+++ b/src/rest_api/types/connection_token.rs
@@ -73,6 +73,10 @@ impl ConnectionToken {
     pub fn from_bytes(certificate: impl AsRef<[u8]>) -> Result<Self, CryptographyError> {
         let certificate = certificate.as_ref();
 
+        if certificate.len() < 8 {
+            return Err(CryptographyError::Decoding("connection token is too short".into()));
+        }
+
         let mut auth_date = [0u8; 8];
 
         auth_date.copy_from_slice(&certificate[..8]);
-- 
2.43.0


From df80b28417e87d5526e5d3038c6851337ecf09ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 04/16] fix: secret keys serialized with serde can be
 deserialized

---
 src/crypto/asymmetric/secret_key.rs | 21 +++++++--------------
 1 file changed, 7 insertions(+), 14 deletions(-)

diff --git a/src/crypto/asymmetric/secret_key.rs b/src/crypto/asymmetric/secret_key.rs
index 1a41250..17dabb5 100644
--- a/src/crypto/asymmetric/secret_key.rs
+++ b/src/crypto/asymmetric/secret_key.rs
@@ -129,22 +129,15 @@ impl<'de> serde::Deserialize<'de> for SecretKey {
     where D: serde::Deserializer<'de> {
         use serde::de::Error;
 
-        struct Visitor;
-
-        impl<'de> serde::de::Visitor<'de> for Visitor {
-            type Value = Vec<u8>;
-
-            fn expecting(&self, formatter: &mut std::fmt::Formatter) -> std::fmt::Result {
-                write!(formatter, "bytes sequence expected")
-            }
-
-            fn visit_bytes<E>(self, v: &[u8]) -> Result<Self::Value, E>
-            where E: serde::de::Error {
-                Ok(v.to_vec())
-            }
+        // Mirrors the structure written by the `Serialize` implementation
+        #[derive(serde::Deserialize)]
+        #[serde(rename = "SecretKey")]
+        struct Bytes {
+            #[serde(rename = "0")]
+            bytes: Vec<u8>
         }
 
-        let secret_key = deserializer.deserialize_struct("SecretKey", &["0"], Visitor)?;
+        let secret_key = Bytes::deserialize(deserializer)?.bytes;
 
         let secret_key = SecretKey::deserialize(secret_key)
             .map_err(D::Error::custom)?;
-- 
2.43.0


From c22627b24c0c179359aa23fe1c3e0ea9b0a9f27b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 05/16] fix: refuse to store messages sent in the name of
 another client

---
 src/rest_api/requests/send/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/rest_api/requests/send/mod.rs b/src/rest_api/requests/send/mod.rs
index 511cbe7..a05bdd5 100644
--- a/src/rest_api/requests/send/mod.rs
+++ b/src/rest_api/requests/send/mod.rs
@@ -35,9 +35,11 @@ impl SendRequest {
     #[inline]
     /// Validate the request.
     /// 
-    /// Calls `validate()` function on the request's body.
+    /// Calls `validate()` function on the request's body
+    /// and verifies that the message is sent from the name
+    /// of the request's author.
     pub fn validate(&self) -> Result<bool, ValidationError> {
-        self.0.validate()
+        Ok(self.0.validate()? && self.0.request.sender.client.public_key == self.0.public_key)
     }
 }
 
-- 
2.43.0


From be2e6f7035588d01e5513384129387b12358c46c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:11:59 +0000
Subject: [PATCH 06/16] fix: network traversal visits every server once instead
 of looping forever

---
 src/drivers/server/traversal/bfs_recursion.rs | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/drivers/server/traversal/bfs_recursion.rs b/src/drivers/server/traversal/bfs_recursion.rs
index 5acdf55..3594c4d 100755
--- a/src/drivers/server/traversal/bfs_recursion.rs
+++ b/src/drivers/server/traversal/bfs_recursion.rs
@@ -1,4 +1,4 @@
-use std::collections::VecDeque;
+use std::collections::{HashSet, VecDeque};
 
 use crate::http::client::HttpClient;
 use crate::rest_api::middleware::Client as ClientMiddleware;
@@ -21,7 +21,14 @@ impl Traversal for BfsRecursionTraversal {
 
             let mut remote_servers = VecDeque::from(remote_servers);
 
+            // Store used servers to prevent infinite traversal loops
+            let mut used_servers = HashSet::new();
+
             while let Some(remote_server) = remote_servers.pop_front() {
+                if !used_servers.insert(remote_server.clone()) {
+                    continue;
+                }
+
                 if let Ok(mut response) = client.get_servers(&remote_server.address).await {
                     for remote_server in response.drain(..) {
                         remote_servers.push_back(remote_server);
-- 
2.43.0


From aa6aebbb498614db8fbc127cdbda9bd3d2608f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:08 +0000
Subject: [PATCH 07/16] fix: port forwarder closes both protocols and forgets
 ports only after closing them

---
 src/port_forward/upnp.rs | 37 +++++++++++++++++++++++++++++--------
 1 file changed, 29 insertions(+), 8 deletions(-)

diff --git a/src/port_forward/upnp.rs b/src/port_forward/upnp.rs
index da7e05f..927ece6 100644
--- a/src/port_forward/upnp.rs
+++ b/src/port_forward/upnp.rs
@@ -54,28 +54,49 @@ impl PortForwarder for UpnpPortForwarder {
     }
 
     async fn close(&self, port: u16, protocol: Protocol) -> Result<bool, Self::Error> {
+        let upnp_protocol = match protocol {
+            Protocol::TCP => PortMappingProtocol::TCP,
+            Protocol::UDP => PortMappingProtocol::UDP,
+
+            Protocol::Both => {
+                let tcp = self.close(port, Protocol::TCP).await;
+                let udp = self.close(port, Protocol::UDP).await;
+
+                return Ok(tcp? && udp?);
+            }
+        };
+
         let mut forwarded = self.forwarded.lock()
             .expect("Failed to get forwards table");
 
-        if let Some(config) = forwarded.remove(&(port, protocol)) {
-            delete_ports([config])
+        // Forget the port only after it was really closed
+        if forwarded.contains_key(&(port, protocol)) {
+            delete_ports([Self::build_config(port, upnp_protocol, Duration::ZERO)])
                 .next()
                 .unwrap()?;
+
+            forwarded.remove(&(port, protocol));
         }
 
         Ok(true)
     }
 
     async fn discard(&self) -> Result<bool, Self::Error> {
-        let configs = self.forwarded.lock()
+        let ports = self.forwarded.lock()
             .expect("Failed to get forwards table")
-            .drain()
-            .map(|(_, v)| v)
+            .keys()
+            .copied()
             .collect::<Vec<_>>();
 
-        delete_ports(configs)
-            .collect::<Result<_, _>>()?;
+        let mut result = Ok(true);
 
-        Ok(true)
+        // Try to close all the ports even if some of them failed
+        for (port, protocol) in ports {
+            if let Err(err) = self.close(port, protocol).await {
+                result = Err(err);
+            }
+        }
+
+        result
     }
 }
-- 
2.43.0


From 0b5007530fb6cfa5bbab8eecc7c2cb3817a687e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:13:28 +0000
Subject: [PATCH 08/16] fix: client refuses answers of another server than the
 one it talks to

---
 src/rest_api/middleware/client.rs | 43 ++++++++++++++++++++++---------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index d04cf28..8a25951 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -183,7 +183,12 @@ impl<T: HttpClient + Send + Sync> Client<T> {
 
         // Check response status
         match response.0 {
-            Response::Success { .. } => {
+            Response::Success { public_key, .. } => {
+                // Check that the response is made by the expected server
+                if public_key != server_public {
+                    return Err(Error::InvalidProofSeedSignature);
+                }
+
                 let client = ConnectedClient {
                     http_client: self.http_client.clone(),
                     driver: self.driver.clone(),
@@ -305,17 +310,26 @@ impl<T: HttpClient> ConnectedClient<T> {
         }
 
         // Check response status
-        if let Response::Error { status, reason, .. } = response.0 {
-            return Err(Error::RequestFailed {
-                status,
-                reason
-            });
-        }
+        match response.0 {
+            Response::Success { public_key, .. } => {
+                // Check that the response is made by the connected server
+                if public_key != self.connected_server.public_key {
+                    return Err(Error::InvalidProofSeedSignature);
+                }
+
+                Ok(Client {
+                    http_client: self.http_client,
+                    driver: self.driver
+                })
+            }
 
-        Ok(Client {
-            http_client: self.http_client,
-            driver: self.driver
-        })
+            Response::Error { status, reason, .. } => {
+                Err(Error::RequestFailed {
+                    status,
+                    reason
+                })
+            }
+        }
     }
 
     #[cfg_attr(feature = "tracing", tracing::instrument(ret, skip_all, fields(
@@ -555,7 +569,12 @@ impl<T: HttpClient> ConnectedClient<T> {
 
         // Check response status
         match response.0 {
-            Response::Success { response, .. } => {
+            Response::Success { public_key, response, .. } => {
+                // Check that the response is made by the connected server
+                if public_key != self.connected_server.public_key {
+                    return Err(Error::InvalidProofSeedSignature);
+                }
+
                 Ok((response.messages, response.remaining))
             }
 
-- 
2.43.0


From 7e65aa939c135796c657b799179b980c7addda25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:23 +0000
Subject: [PATCH 09/16] fix: client lookup skips broken hinted servers and
 verifies the client it found

---
 src/rest_api/middleware/client.rs | 36 ++++++++++++++++++++++++-------
 1 file changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/rest_api/middleware/client.rs b/src/rest_api/middleware/client.rs
index 8a25951..5ccb837 100644
--- a/src/rest_api/middleware/client.rs
+++ b/src/rest_api/middleware/client.rs
@@ -400,7 +400,7 @@ impl<T: HttpClient> ConnectedClient<T> {
     /// hints returned or needed client is found.
     pub async fn lookup(&self, client_public: PublicKey, client_type: Option<ClientType>) -> Result<Option<(ClientApiRecord, ServerApiRecord, bool)>, Error> {
         // Prepare lookup request
-        let request = LookupRequest::new(self.driver.secret_key(), client_public, client_type);
+        let request = LookupRequest::new(self.driver.secret_key(), client_public.clone(), client_type);
 
         let proof_seed = request.0.proof_seed;
 
@@ -413,9 +413,17 @@ impl<T: HttpClient> ConnectedClient<T> {
         // Store used servers to prevent infinite lookup loops
         let mut used_servers = HashSet::new();
 
+        // Verify that the found client is the one we're searching for
+        // and that it is really connected to the given server
+        let is_requested = |client: &ClientApiRecord, server: &ServerApiRecord| {
+            client.public_key == client_public &&
+                (client_type.is_none() || client_type == Some(client.info.client_type)) &&
+                client.certificate.validate(&client.public_key, &server.public_key).unwrap_or(false)
+        };
+
         while let Some(server_address) = queue.pop_front() {
             // Skip server if it was already used
-            if used_servers.contains(&server_address) {
+            if !used_servers.insert(server_address.clone()) {
                 continue;
             }
 
@@ -427,10 +435,20 @@ impl<T: HttpClient> ConnectedClient<T> {
                 // FIXME: causes some weird ass issue with "infinite async recursion"
                 format!("http://{server_address}/api/v1/lookup"), // resolve_uri(&server_address, self).await?
                 request.clone()
-            ).await?;
+            ).await;
+
+            let response = match response {
+                Ok(response) => response,
+
+                // Without our local server there's nobody to search through
+                Err(err) if used_servers.len() == 1 => return Err(err.into()),
+
+                // Hinted servers can be unreachable, go to the next one
+                Err(_) => continue
+            };
 
             // Validate response
-            if !response.validate(proof_seed)? {
+            if !response.validate(proof_seed).unwrap_or(false) {
                 // Skip execution and go to the next server
                 continue;
             }
@@ -441,11 +459,15 @@ impl<T: HttpClient> ConnectedClient<T> {
                     LookupResponseBody::Local { client, available } => {
                         let server = ServerApiRecord::new(public_key, &server_address);
 
-                        return Ok(Some((client, server, available)));
+                        if is_requested(&client, &server) {
+                            return Ok(Some((client, server, available)));
+                        }
                     }
 
                     LookupResponseBody::Remote { client, server, available } => {
-                        return Ok(Some((client, server, available)));
+                        if is_requested(&client, &server) {
+                            return Ok(Some((client, server, available)));
+                        }
                     }
 
                     LookupResponseBody::Hint { mut servers } => {
@@ -455,8 +477,6 @@ impl<T: HttpClient> ConnectedClient<T> {
                     }
                 }
             }
-
-            used_servers.insert(server_address);
         }
 
         Ok(None)
-- 
2.43.0


From 97cc8390f56e1b15f38580e5b14f66f2639172ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 10/16] fix: channel names can't escape or mix up folders of
 the messages inbox

---
 .../server/messages_inbox/stored_queue.rs     | 34 +++++++++++++++----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index 283a7cd..fb7b8c9 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -1,6 +1,7 @@
 use std::path::PathBuf;
 
 use serde_json::Value as Json;
+use k256::sha2::{Digest, Sha256};
 
 use crate::time::timestamp;
 
@@ -40,6 +41,31 @@ impl StoredQueueMessagesInbox {
             storage_folder
         })
     }
+
+    /// Path to the folder with messages sent to the given channel.
+    /// 
+    /// Channel is an arbitrary string chosen by the sender,
+    /// so it can't be used as a name of the folder as it is.
+    fn channel_folder(&self, receiver: &PublicKey, channel: &str) -> PathBuf {
+        let mut name = String::with_capacity(channel.len());
+
+        for byte in channel.bytes() {
+            match byte {
+                b'a'..=b'z' | b'A'..=b'Z' | b'0'..=b'9' | b' ' | b'-' | b'_' => name.push(byte as char),
+
+                _ => name.push_str(&format!("%{byte:02X}"))
+            }
+        }
+
+        // File names can neither be empty nor longer than 255 bytes
+        if name.is_empty() || name.len() > 255 {
+            name = format!("%%{}", base64_encode(Sha256::digest(channel)));
+        }
+
+        self.storage_folder
+            .join(receiver.to_base64())
+            .join(name)
+    }
 }
 
 #[async_trait::async_trait]
@@ -61,9 +87,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             "Adding new message"
         );
 
-        let folder = self.storage_folder
-            .join(receiver.to_base64())
-            .join(&channel);
+        let folder = self.channel_folder(&receiver, &channel);
 
         tokio::fs::create_dir_all(&folder).await?;
 
@@ -103,9 +127,7 @@ impl MessagesInbox for StoredQueueMessagesInbox {
             "Polling messages"
         );
 
-        let folder = self.storage_folder
-            .join(receiver.to_base64())
-            .join(&channel);
+        let folder = self.channel_folder(&receiver, &channel);
 
         if let Ok(index) = tokio::fs::read(folder.join("index")).await {
             assert!(index.len() % 8 == 0);
-- 
2.43.0


From ceda3a282f631a8fc472df44e0a25ef83b1966a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 11/16] fix: overlapping, interrupted and failing inbox
 operations don't lose messages

---
 .../server/messages_inbox/stored_queue.rs     | 103 ++++++++++--------
 src/drivers/server/mod.rs                     |   3 +
 src/drivers/server/storage.rs                 |  43 ++++++++
 3 files changed, 106 insertions(+), 43 deletions(-)
 create mode 100644 src/drivers/server/storage.rs

diff --git a/src/drivers/server/messages_inbox/stored_queue.rs b/src/drivers/server/messages_inbox/stored_queue.rs
index fb7b8c9..cb1208c 100644
--- a/src/drivers/server/messages_inbox/stored_queue.rs
+++ b/src/drivers/server/messages_inbox/stored_queue.rs
@@ -1,4 +1,5 @@
 use std::path::PathBuf;
+use std::sync::Mutex;
 
 use serde_json::Value as Json;
 use k256::sha2::{Digest, Sha256};
@@ -8,8 +9,13 @@ use crate::time::timestamp;
 use crate::crypto::prelude::*;
 use crate::rest_api::prelude::*;
 
+use crate::drivers::server::storage::{exclusive, read_if_exists, replace};
+
 use super::MessagesInbox;
 
+/// Operations with the stored messages change several files at once.
+static LOCK: Mutex<()> = Mutex::new(());
+
 #[derive(Debug, thiserror::Error)]
 pub enum Error {
     #[error(transparent)]
@@ -89,28 +95,32 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.channel_folder(&receiver, &channel);
 
-        tokio::fs::create_dir_all(&folder).await?;
+        exclusive(&LOCK, move || {
+            std::fs::create_dir_all(&folder)?;
 
-        let mut index = tokio::fs::read(folder.join("index")).await
-            .unwrap_or(vec![]);
+            let mut index = read_if_exists(&folder.join("index"))?
+                .unwrap_or_default();
 
-        let message_id = safe_random_u64();
+            let message_id = safe_random_u64();
 
-        index.extend_from_slice(&message_id.to_be_bytes());
+            index.extend_from_slice(&message_id.to_be_bytes());
 
-        let message_info = MessageInfo {
-            sender,
-            channel,
-            message,
-            received_at: timestamp()
-        };
+            let message_info = MessageInfo {
+                sender,
+                channel,
+                message,
+                received_at: timestamp()
+            };
 
-        let message_info = serde_json::to_vec(&message_info.to_json()?)?;
+            let message_info = serde_json::to_vec(&message_info.to_json()?)?;
 
-        tokio::fs::write(folder.join("index"), index).await?;
-        tokio::fs::write(folder.join(message_id.to_string()), message_info).await?;
+            // Message should be stored before it's mentioned in the index
+            std::fs::write(folder.join(message_id.to_string()), message_info)?;
 
-        Ok(())
+            replace(&folder.join("index"), &folder.join("index.new"), &index)?;
+
+            Ok(())
+        }).await
     }
 
     async fn poll_messages(
@@ -129,49 +139,56 @@ impl MessagesInbox for StoredQueueMessagesInbox {
 
         let folder = self.channel_folder(&receiver, &channel);
 
-        if let Ok(index) = tokio::fs::read(folder.join("index")).await {
-            assert!(index.len() % 8 == 0);
+        exclusive(&LOCK, move || {
+            if let Some(index) = read_if_exists(&folder.join("index"))? {
+                assert!(index.len() % 8 == 0);
 
-            let mut bytes = [0; 8];
-            let mut limit = limit.unwrap_or(u64::MAX);
-            let mut shift = 0;
+                let mut bytes = [0; 8];
+                let mut limit = limit.unwrap_or(u64::MAX);
+                let mut shift = 0;
 
-            let mut messages = Vec::new();
+                let mut messages = Vec::new();
+                let mut messages_paths = Vec::new();
 
-            for message_id in index.chunks(8) {
-                if limit == 0 {
-                    break;
-                }
+                for message_id in index.chunks(8) {
+                    if limit == 0 {
+                        break;
+                    }
 
-                bytes.copy_from_slice(message_id);
+                    bytes.copy_from_slice(message_id);
 
-                let message_id = u64::from_be_bytes(bytes);
-                let message_path = folder.join(message_id.to_string());
+                    let message_id = u64::from_be_bytes(bytes);
+                    let message_path = folder.join(message_id.to_string());
 
-                if let Ok(message_info) = tokio::fs::read(&message_path).await {
-                    let message_info = serde_json::from_slice::<Json>(&message_info)?;
+                    if let Some(message_info) = read_if_exists(&message_path)? {
+                        let message_info = serde_json::from_slice::<Json>(&message_info)?;
 
-                    messages.push(MessageInfo::from_json(&message_info)?);
+                        messages.push(MessageInfo::from_json(&message_info)?);
+                        messages_paths.push(message_path);
 
-                    limit -= 1;
+                        limit -= 1;
+                    }
 
-                    tokio::fs::remove_file(message_path).await?;
+                    shift += 8;
                 }
 
-                shift += 8;
-            }
+                let index = &index[shift..];
 
-            let index = &index[shift..];
+                replace(&folder.join("index"), &folder.join("index.new"), index)?;
 
-            tokio::fs::write(folder.join("index"), index).await?;
+                // Messages are polled since they're not in the index anymore
+                for message_path in messages_paths {
+                    let _ = std::fs::remove_file(message_path);
+                }
 
-            return Ok((
-                messages,
-                (index.len() / 8) as u64
-            ));
-        }
+                return Ok((
+                    messages,
+                    (index.len() / 8) as u64
+                ));
+            }
 
-        Ok((vec![], 0))
+            Ok((vec![], 0))
+        }).await
     }
 }
 
diff --git a/src/drivers/server/mod.rs b/src/drivers/server/mod.rs
index d047cde..955ec02 100755
--- a/src/drivers/server/mod.rs
+++ b/src/drivers/server/mod.rs
@@ -3,6 +3,9 @@ mod params;
 #[allow(clippy::module_inception)]
 mod server;
 
+#[cfg(any(feature = "router-global-table", feature = "inbox-stored-queue"))]
+mod storage;
+
 pub mod router;
 pub mod traversal;
 pub mod messages_inbox;
diff --git a/src/drivers/server/storage.rs b/src/drivers/server/storage.rs
new file mode 100644
index 0000000..bf1feee
--- /dev/null
+++ b/src/drivers/server/storage.rs
@@ -0,0 +1,43 @@
+use std::io::{Error, ErrorKind, Result};
+use std::path::Path;
+use std::sync::{Mutex, PoisonError};
+
+/// Run blocking storage operation while no other operation with the same lock runs.
+/// 
+/// Once started, the operation is always run to its end, even if
+/// its caller gave up waiting for it.
+pub async fn exclusive<T, E>(
+    lock: &'static Mutex<()>,
+    operation: impl FnOnce() -> std::result::Result<T, E> + Send + 'static
+) -> std::result::Result<T, E>
+where
+    T: Send + 'static,
+    E: From<Error> + Send + 'static
+{
+    let result = tokio::task::spawn_blocking(move || {
+        let _guard = lock.lock()
+            .unwrap_or_else(PoisonError::into_inner);
+
+        operation()
+    }).await;
+
+    result.map_err(Error::from)?
+}
+
+/// Read file's content or return `None` if there's no such file.
+pub fn read_if_exists(path: &Path) -> Result<Option<Vec<u8>>> {
+    match std::fs::read(path) {
+        Ok(content) => Ok(Some(content)),
+        Err(err) if err.kind() == ErrorKind::NotFound => Ok(None),
+        Err(err) => Err(err)
+    }
+}
+
+/// Replace content of the file at once, so that it has either
+/// its old or its new content whatever happens.
+/// 
+/// `temp` must be a path within the same file system.
+pub fn replace(path: &Path, temp: &Path, content: &[u8]) -> Result<()> {
+    std::fs::write(temp, content)?;
+    std::fs::rename(temp, path)
+}
-- 
2.43.0


From 41e7ac937fdc5bd22a851e19b37063e5f8671e88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:29 +0000
Subject: [PATCH 12/16] fix: overlapping, interrupted and failing routing table
 operations don't break its records

---
 src/drivers/server/router/global_table.rs | 94 ++++++++++++-----------
 src/drivers/server/storage.rs             |  9 +++
 2 files changed, 60 insertions(+), 43 deletions(-)

diff --git a/src/drivers/server/router/global_table.rs b/src/drivers/server/router/global_table.rs
index 4807704..5e53d5e 100755
--- a/src/drivers/server/router/global_table.rs
+++ b/src/drivers/server/router/global_table.rs
@@ -1,4 +1,5 @@
 use std::path::PathBuf;
+use std::sync::Mutex;
 
 use serde_json::{json, Value as Json};
 
@@ -7,8 +8,13 @@ use crate::rest_api::prelude::*;
 
 use crate::time::timestamp;
 
+use crate::drivers::server::storage::{exclusive, read_if_exists, remove_if_exists, replace};
+
 use super::Router;
 
+/// Operations with the routing table change several files at once.
+static LOCK: Mutex<()> = Mutex::new(());
+
 #[derive(Debug, thiserror::Error)]
 pub enum Error {
     #[error(transparent)]
@@ -44,6 +50,33 @@ impl GlobalTableRouter {
             storage_folder
         })
     }
+
+    /// Replace the record in the given table.
+    async fn write_record(&self, table: &str, public_key: &PublicKey, record: Json) -> Result<(), Error> {
+        let path = self.storage_folder.join(table).join(public_key.to_base64());
+        let temp = self.storage_folder.join("record.new");
+
+        exclusive(&LOCK, move || {
+            Ok(replace(&path, &temp, &serde_json::to_vec(&record)?)?)
+        }).await
+    }
+
+    /// Read all the records from the given table.
+    async fn read_records(&self, table: &str) -> Result<Vec<Json>, Error> {
+        let folder = self.storage_folder.join(table);
+
+        exclusive(&LOCK, move || {
+            let mut records = Vec::new();
+
+            for entry in std::fs::read_dir(folder)? {
+                if let Some(entry) = read_if_exists(&entry?.path())? {
+                    records.push(serde_json::from_slice::<Json>(&entry)?);
+                }
+            }
+
+            Ok(records)
+        }).await
+    }
 }
 
 #[async_trait::async_trait]
@@ -51,24 +84,20 @@ impl Router for GlobalTableRouter {
     type Error = Error;
 
     async fn index_local_client(&self, client: Client) -> Result<bool, Self::Error> {
-        let path = self.storage_folder
-            .join("local")
-            .join(client.public_key.to_base64());
+        let public_key = client.public_key.clone();
 
         let client = json!({
             "indexed_at": timestamp(),
             "client": client.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&client)?).await?;
+        self.write_record("local", &public_key, client).await?;
 
         Ok(true)
     }
 
     async fn index_remote_client(&self, client: Client, server: Server) -> Result<bool, Self::Error> {
-        let path = self.storage_folder
-            .join("remote")
-            .join(client.public_key.to_base64());
+        let public_key = client.public_key.clone();
 
         let record = json!({
             "indexed_at": timestamp(),
@@ -76,22 +105,20 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&record)?).await?;
+        self.write_record("remote", &public_key, record).await?;
 
         Ok(true)
     }
 
     async fn index_server(&self, server: Server) -> Result<bool, Self::Error> {
-        let path = self.storage_folder
-            .join("servers")
-            .join(server.public_key.to_base64());
+        let public_key = server.public_key.clone();
 
         let server = json!({
             "indexed_at": timestamp(),
             "server": server.to_json()?
         });
 
-        tokio::fs::write(path, serde_json::to_vec(&server)?).await?;
+        self.write_record("servers", &public_key, server).await?;
 
         Ok(true)
     }
@@ -104,25 +131,22 @@ impl Router for GlobalTableRouter {
         // 1. It's faster and easier to implement
         // 2. Current implementations generally ignore availability
         //    flag thus changing it doesn't make a weather
-        let _ = tokio::fs::remove_file(self.storage_folder.join("local").join(&public_key)).await;
-        let _ = tokio::fs::remove_file(self.storage_folder.join("remote").join(&public_key)).await;
-        let _ = tokio::fs::remove_file(self.storage_folder.join("servers").join(&public_key)).await;
+        let paths = ["local", "remote", "servers"]
+            .map(|table| self.storage_folder.join(table).join(&public_key));
 
-        Ok(())
+        exclusive(&LOCK, move || {
+            for path in paths {
+                remove_if_exists(&path)?;
+            }
+
+            Ok(())
+        }).await
     }
 
     async fn local_clients(&self) -> Result<Vec<Client>, Self::Error> {
         let mut clients = Vec::new();
 
-        let folder = self.storage_folder
-            .join("local");
-
-        let mut entries = tokio::fs::read_dir(folder).await?;
-
-        while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
-            let record = serde_json::from_slice::<Json>(&entry)?;
-
+        for record in self.read_records("local").await? {
             let client = Client::from_json(&record["client"])?;
 
             clients.push(client);
@@ -134,15 +158,7 @@ impl Router for GlobalTableRouter {
     async fn remote_clients(&self) -> Result<Vec<(Client, Server)>, Self::Error> {
         let mut clients = Vec::new();
 
-        let folder = self.storage_folder
-            .join("remote");
-
-        let mut entries = tokio::fs::read_dir(folder).await?;
-
-        while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
-            let record = serde_json::from_slice::<Json>(&entry)?;
-
+        for record in self.read_records("remote").await? {
             let client = Client::from_json(&record["client"])?;
             let server = Server::from_json(&record["server"])?;
 
@@ -155,15 +171,7 @@ impl Router for GlobalTableRouter {
     async fn servers(&self) -> Result<Vec<Server>, Self::Error> {
         let mut servers = Vec::new();
 
-        let folder = self.storage_folder
-            .join("servers");
-
-        let mut entries = tokio::fs::read_dir(folder).await?;
-
-        while let Some(entry) = entries.next_entry().await? {
-            let entry = tokio::fs::read(entry.path()).await?;
-            let record = serde_json::from_slice::<Json>(&entry)?;
-
+        for record in self.read_records("servers").await? {
             let server = Server::from_json(&record["server"])?;
 
             servers.push(server);
diff --git a/src/drivers/server/storage.rs b/src/drivers/server/storage.rs
index bf1feee..2018a38 100644
--- a/src/drivers/server/storage.rs
+++ b/src/drivers/server/storage.rs
@@ -33,6 +33,15 @@ pub fn read_if_exists(path: &Path) -> Result<Option<Vec<u8>>> {
     }
 }
 
+/// Remove file if there is such file.
+pub fn remove_if_exists(path: &Path) -> Result<()> {
+    match std::fs::remove_file(path) {
+        Err(err) if err.kind() != ErrorKind::NotFound => Err(err),
+
+        _ => Ok(())
+    }
+}
+
 /// Replace content of the file at once, so that it has either
 /// its old or its new content whatever happens.
 /// 
-- 
2.43.0


From d8574f30b67d5d9d4355d61604fa71b13c4513ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:31 +0000
Subject: [PATCH 13/16] fix: announcement with older certificate doesn't
 displace the newer one

---
 src/drivers/server/router/global_table.rs | 41 ++++++++++++++++-------
 1 file changed, 29 insertions(+), 12 deletions(-)

diff --git a/src/drivers/server/router/global_table.rs b/src/drivers/server/router/global_table.rs
index 5e53d5e..4cd1f44 100755
--- a/src/drivers/server/router/global_table.rs
+++ b/src/drivers/server/router/global_table.rs
@@ -51,13 +51,30 @@ impl GlobalTableRouter {
         })
     }
 
-    /// Replace the record in the given table.
-    async fn write_record(&self, table: &str, public_key: &PublicKey, record: Json) -> Result<(), Error> {
+    /// Replace the record in the given table unless known one should be kept.
+    /// 
+    /// This method will return whether the record was replaced.
+    async fn write_record(
+        &self,
+        table: &str,
+        public_key: &PublicKey,
+        record: Json,
+        keep_known: impl FnOnce(&Json) -> bool + Send + 'static
+    ) -> Result<bool, Error> {
         let path = self.storage_folder.join(table).join(public_key.to_base64());
         let temp = self.storage_folder.join("record.new");
 
         exclusive(&LOCK, move || {
-            Ok(replace(&path, &temp, &serde_json::to_vec(&record)?)?)
+            let known = read_if_exists(&path)?
+                .and_then(|known| serde_json::from_slice::<Json>(&known).ok());
+
+            if known.as_ref().is_some_and(keep_known) {
+                return Ok(false);
+            }
+
+            replace(&path, &temp, &serde_json::to_vec(&record)?)?;
+
+            Ok(true)
         }).await
     }
 
@@ -91,13 +108,12 @@ impl Router for GlobalTableRouter {
             "client": client.to_json()?
         });
 
-        self.write_record("local", &public_key, client).await?;
-
-        Ok(true)
+        self.write_record("local", &public_key, client, |_| false).await
     }
 
     async fn index_remote_client(&self, client: Client, server: Server) -> Result<bool, Self::Error> {
         let public_key = client.public_key.clone();
+        let auth_date = client.certificate.token.auth_date;
 
         let record = json!({
             "indexed_at": timestamp(),
@@ -105,9 +121,12 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        self.write_record("remote", &public_key, record).await?;
-
-        Ok(true)
+        // Certificate can be announced at any time later,
+        // so the one with newest date should be chosen
+        self.write_record("remote", &public_key, record, move |known| {
+            Client::from_json(&known["client"])
+                .is_ok_and(|known| known.certificate.token.auth_date > auth_date)
+        }).await
     }
 
     async fn index_server(&self, server: Server) -> Result<bool, Self::Error> {
@@ -118,9 +137,7 @@ impl Router for GlobalTableRouter {
             "server": server.to_json()?
         });
 
-        self.write_record("servers", &public_key, server).await?;
-
-        Ok(true)
+        self.write_record("servers", &public_key, server, |_| false).await
     }
 
     async fn disconnect(&self, public_key: &PublicKey) -> Result<(), Self::Error> {
-- 
2.43.0


From 7f563abd362fffb4e01efc353ecbe1808f566001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:54 +0000
Subject: [PATCH 14/16] fix: address of an unsupported scheme is kept as it is

---
 src/address.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/address.rs b/src/address.rs
index 3cb9001..0ce722a 100644
--- a/src/address.rs
+++ b/src/address.rs
@@ -90,10 +90,10 @@ impl Address {
 impl FromStr for Address {
     type Err = CryptographyError;
 
-    fn from_str(address: &str) -> Result<Self, Self::Err> {
-        let (protocol, address) = address
+    fn from_str(uri: &str) -> Result<Self, Self::Err> {
+        let (protocol, address) = uri
             .split_once("://")
-            .unwrap_or(("", address));
+            .unwrap_or(("", uri));
 
         let address = address.to_owned();
 
@@ -158,7 +158,8 @@ impl FromStr for Address {
                 address
             }),
 
-            _ => Ok(Self::Raw(address))
+            // Unsupported value is stored as it is
+            _ => Ok(Self::Raw(uri.to_owned()))
         }
     }
 }
-- 
2.43.0


From d8067527e720d801ede9061f68c305177d4c0379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:30 +0000
Subject: [PATCH 15/16] fix: truncated secret key is not read as another key

---
 src/crypto/asymmetric/secret_key.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/crypto/asymmetric/secret_key.rs b/src/crypto/asymmetric/secret_key.rs
index 17dabb5..38e3417 100644
--- a/src/crypto/asymmetric/secret_key.rs
+++ b/src/crypto/asymmetric/secret_key.rs
@@ -32,7 +32,15 @@ impl SecretKey {
 
     /// Deserialize secret key from the bytes slice.
     pub fn deserialize(bytes: impl AsRef<[u8]>) -> Result<Self, CryptographyError> {
-        Ok(Self(k256::SecretKey::from_slice(bytes.as_ref())?))
+        let bytes = bytes.as_ref();
+
+        // k256::SecretKey::from_slice() pads shorter slices with zeros,
+        // so a truncated key would become another one
+        if bytes.len() != 32 {
+            return Err(CryptographyError::EllipticCurve(k256::elliptic_curve::Error));
+        }
+
+        Ok(Self(k256::SecretKey::from_slice(bytes)?))
     }
 
     /// Serialize secret key into bytes vector and encode it
-- 
2.43.0


From 954e339c5f1f22f84c0492869919a84306357d0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:53 +0000
Subject: [PATCH 16/16] fix: ports are forwarded for as long as possible when
 the duration exceeds 32 bits of seconds

---
 src/port_forward/upnp.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/port_forward/upnp.rs b/src/port_forward/upnp.rs
index 927ece6..f0ec3d3 100644
--- a/src/port_forward/upnp.rs
+++ b/src/port_forward/upnp.rs
@@ -21,7 +21,8 @@ impl UpnpPortForwarder {
             address: None,
             port,
             protocol,
-            duration: duration.as_secs() as u32,
+            // Gateways are asked for 32 bits of seconds
+            duration: u32::try_from(duration.as_secs()).unwrap_or(u32::MAX),
             comment: String::from("Hyperborea UPnP port forwarder")
         }
     }
-- 
2.43.0

