From 8f746b198c6f95277d3ca81a3f32dc140ccad773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:50 +0000
Subject: [PATCH 01/31] fix: give each persisted message its own journal
 sequence

persist_message wrote the entry under the sequence that was already taken by the
previous batch, snapshot or recovered entry; a message persisted right after a
snapshot was skipped by recovery.
---
 coerce/src/persistent/journal/mod.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/coerce/src/persistent/journal/mod.rs b/coerce/src/persistent/journal/mod.rs
index 9ebfea7..bfb90c8 100644
--- a/coerce/src/persistent/journal/mod.rs
+++ b/coerce/src/persistent/journal/mod.rs
@@ -266,11 +266,13 @@ impl<A: PersistentActor> Journal<A> {
             .message_type_mapping::<M>()
             .expect("message type not configured");
 
+        let sequence = self.last_sequence_id + 1;
+
         self.storage
             .write_message(
                 &self.persistence_id,
                 JournalEntry {
-                    sequence: self.last_sequence_id,
+                    sequence,
                     payload_type: payload_type.clone(),
                     bytes,
                 },
@@ -283,7 +285,7 @@ impl<A: PersistentActor> Journal<A> {
             M::type_name()
         );
 
-        self.last_sequence_id += 1;
+        self.last_sequence_id = sequence;
         Ok(())
     }
 
-- 
2.43.0


From f93b9cb9b2d367084d78173cb793e7c825df8265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:51 +0000
Subject: [PATCH 02/31] fix: in-memory journal range reads return the requested
 range

read_messages dropped the first message of the range, returned the wrong prefix,
or panicked ("todo: this"), depending on where the range lay in the journal.
---
 coerce/src/persistent/journal/provider.rs | 49 ++++-------------------
 1 file changed, 8 insertions(+), 41 deletions(-)

diff --git a/coerce/src/persistent/journal/provider.rs b/coerce/src/persistent/journal/provider.rs
index 8d2de5f..138dbc7 100644
--- a/coerce/src/persistent/journal/provider.rs
+++ b/coerce/src/persistent/journal/provider.rs
@@ -201,49 +201,16 @@ pub mod inmemory {
                     if journal.messages.is_empty() {
                         Ok(None)
                     } else {
-                        let first_seq = journal.messages.first().map(|m| m.sequence).unwrap();
-                        let final_seq = journal.messages.last().map(|m| m.sequence).unwrap();
-
-                        if to_sequence >= final_seq {
-                            if first_seq >= from_sequence {
-                                Ok(Some(journal.messages.clone()))
-                            } else {
-                                let starting_message = journal
-                                    .messages
-                                    .iter()
-                                    .enumerate()
-                                    .find(|(_index, j)| j.sequence > from_sequence)
-                                    .map(|(index, _j)| index);
-
-                                if let Some(starting_index) = starting_message {
-                                    Ok(Some(
-                                        journal.messages[starting_index..]
-                                            .iter()
-                                            .cloned()
-                                            .collect(),
-                                    ))
-                                } else {
-                                    Ok(Some(vec![]))
-                                }
-                            }
-                        } else if first_seq >= from_sequence {
-                            let end_message = journal
+                        Ok(Some(
+                            journal
                                 .messages
                                 .iter()
-                                .enumerate()
-                                .find(|(_index, j)| j.sequence > from_sequence)
-                                .map(|(index, _j)| index);
-
-                            if let Some(end_index) = end_message {
-                                Ok(Some(
-                                    journal.messages[..end_index].iter().cloned().collect(),
-                                ))
-                            } else {
-                                Ok(Some(vec![]))
-                            }
-                        } else {
-                            panic!("todo: this")
-                        }
+                                .filter(|m| {
+                                    m.sequence >= from_sequence && m.sequence <= to_sequence
+                                })
+                                .cloned()
+                                .collect(),
+                        ))
                     }
                 }
             }
-- 
2.43.0


From 5c4db8e0b6539de149f1e4b1180bb27de564f0fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:37:11 +0000
Subject: [PATCH 03/31] fix: look up a persistent actor's storage provider by
 its actor type

with_persistence asked for the provider of BoxedActorRef's TypeId, so providers
registered with Persistence::actor_provider were never used.
---
 coerce/src/actor/context.rs    | 4 ++--
 coerce/src/persistent/actor.rs | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/coerce/src/actor/context.rs b/coerce/src/actor/context.rs
index cf2b3f5..2bdc63d 100644
--- a/coerce/src/actor/context.rs
+++ b/coerce/src/actor/context.rs
@@ -468,7 +468,7 @@ impl Default for StreamAttachmentOptions {
 
 impl ActorContext {
     #[cfg(feature = "persistence")]
-    pub fn with_persistence(self) -> Self {
+    pub fn with_persistence<A: crate::persistent::PersistentActor>(self) -> Self {
         let mut ctx = self;
         let persistence = ctx
             .system()
@@ -476,7 +476,7 @@ impl ActorContext {
             .expect("persistence not configured");
 
         ctx.persistence = Some(ActorPersistence::new(
-            persistence.provider(ctx.boxed_ref.type_id()),
+            persistence.provider(std::any::TypeId::of::<A>()),
         ));
 
         ctx
diff --git a/coerce/src/persistent/actor.rs b/coerce/src/persistent/actor.rs
index aeee06b..64d87f0 100644
--- a/coerce/src/persistent/actor.rs
+++ b/coerce/src/persistent/actor.rs
@@ -224,7 +224,7 @@ where
         status: ActorStatus,
         boxed_ref: BoxedActorRef,
     ) -> ActorContext {
-        ActorContext::new(system, status, boxed_ref, Self::DEFAULT_TAGS).with_persistence()
+        ActorContext::new(system, status, boxed_ref, Self::DEFAULT_TAGS).with_persistence::<A>()
     }
 
     async fn started(&mut self, ctx: &mut ActorContext) {
-- 
2.43.0


From 772dc3284af8f0b4a088e4cf17fdf89a70c60cc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:14:38 +0000
Subject: [PATCH 04/31] fix: a malformed frame from a peer no longer panics the
 receiving side

---
 coerce/src/remote/cluster/node.rs           |  7 ++-
 coerce/src/remote/net/client/receive.rs     | 21 ++++++--
 coerce/src/remote/net/message.rs            | 60 ++++++++++-----------
 coerce/src/remote/net/server/session/mod.rs | 55 +++++++++++++------
 coerce/src/remote/stream/system.rs          | 16 +++---
 5 files changed, 97 insertions(+), 62 deletions(-)

diff --git a/coerce/src/remote/cluster/node.rs b/coerce/src/remote/cluster/node.rs
index d240cbc..f11c708 100644
--- a/coerce/src/remote/cluster/node.rs
+++ b/coerce/src/remote/cluster/node.rs
@@ -205,7 +205,10 @@ impl From<network::RemoteNode> for RemoteNode {
             id: n.node_id,
             addr: n.addr,
             tag: n.tag,
-            node_started_at: n.node_started_at.into_option().map(timestamp_to_datetime),
+            node_started_at: n
+                .node_started_at
+                .into_option()
+                .and_then(timestamp_to_datetime),
             attributes: n
                 .attributes
                 .into_iter()
@@ -277,7 +280,7 @@ impl From<&network::NodeIdentity> for RemoteNode {
                 .node_started_at
                 .clone()
                 .into_option()
-                .map(timestamp_to_datetime),
+                .and_then(timestamp_to_datetime),
             attributes: n
                 .attributes
                 .iter()
diff --git a/coerce/src/remote/net/client/receive.rs b/coerce/src/remote/net/client/receive.rs
index ae339d8..77b1b03 100644
--- a/coerce/src/remote/net/client/receive.rs
+++ b/coerce/src/remote/net/client/receive.rs
@@ -83,7 +83,8 @@ impl StreamReceiver for ClientMessageReceiver {
                 let node_started_at = msg
                     .node_started_at
                     .into_option()
-                    .map_or_else(|| Utc::now(), timestamp_to_datetime);
+                    .and_then(timestamp_to_datetime)
+                    .unwrap_or_else(|| Utc::now());
 
                 let known_nodes = msg
                     .nodes
@@ -107,7 +108,10 @@ impl StreamReceiver for ClientMessageReceiver {
                 }
             }
             ClientEvent::Result(res) => {
-                match sys.pop_request(Uuid::from_str(&res.message_id).unwrap()) {
+                match Uuid::from_str(&res.message_id)
+                    .ok()
+                    .and_then(|id| sys.pop_request(id))
+                {
                     Some(res_tx) => {
                         let _ = res_tx.send(RemoteResponse::Ok(res.result));
                     }
@@ -123,9 +127,13 @@ impl StreamReceiver for ClientMessageReceiver {
             }
             ClientEvent::Err(e) => {
                 info!("received client error!");
-                match sys.pop_request(Uuid::from_str(&e.message_id).unwrap()) {
+                match Uuid::from_str(&e.message_id)
+                    .ok()
+                    .and_then(|id| sys.pop_request(id))
+                {
                     Some(res_tx) => {
-                        let _ = res_tx.send(RemoteResponse::Err(e.error.unwrap().into()));
+                        let _ =
+                            res_tx.send(RemoteResponse::Err(e.error.unwrap_or_default().into()));
                     }
                     None => {
                         //                                          :P
@@ -135,7 +143,10 @@ impl StreamReceiver for ClientMessageReceiver {
             }
             ClientEvent::Ping(_ping) => {}
             ClientEvent::Pong(pong) => {
-                match sys.pop_request(Uuid::from_str(&pong.message_id).unwrap()) {
+                match Uuid::from_str(&pong.message_id)
+                    .ok()
+                    .and_then(|id| sys.pop_request(id))
+                {
                     Some(res_tx) => {
                         let _ = res_tx.send(RemoteResponse::Ok(
                             PongEvent {
diff --git a/coerce/src/remote/net/message.rs b/coerce/src/remote/net/message.rs
index 64daf32..da97c1a 100644
--- a/coerce/src/remote/net/message.rs
+++ b/coerce/src/remote/net/message.rs
@@ -56,22 +56,22 @@ impl StreamData for ClientEvent {
         match data.split_first() {
             Some((event, message)) => match Event::from_i32(*event as i32) {
                 Some(Event::Identity) => Some(ClientEvent::Identity(
-                    NodeIdentity::parse_from_bytes(message).unwrap(),
+                    NodeIdentity::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Handshake) => Some(ClientEvent::Handshake(
-                    ClientHandshake::parse_from_bytes(message).unwrap(),
+                    ClientHandshake::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Result) => Some(ClientEvent::Result(
-                    ClientResult::parse_from_bytes(message).unwrap(),
-                )),
-                Some(Event::Err) => Some(ClientEvent::Err(
-                    ClientErr::parse_from_bytes(message).unwrap(),
+                    ClientResult::parse_from_bytes(message).ok()?,
                 )),
+                Some(Event::Err) => {
+                    Some(ClientEvent::Err(ClientErr::parse_from_bytes(message).ok()?))
+                }
                 Some(Event::Ping) => Some(ClientEvent::Ping(
-                    PingEvent::parse_from_bytes(message).unwrap(),
+                    PingEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Pong) => Some(ClientEvent::Pong(
-                    PongEvent::parse_from_bytes(message).unwrap(),
+                    PongEvent::parse_from_bytes(message).ok()?,
                 )),
                 _ => None,
             },
@@ -98,37 +98,37 @@ impl StreamData for SessionEvent {
         match data.split_first() {
             Some((event, message)) => match Event::from_i32(*event as i32) {
                 Some(Event::Identify) => Some(SessionEvent::Identify(
-                    IdentifyEvent::parse_from_bytes(message).unwrap(),
+                    IdentifyEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Handshake) => Some(SessionEvent::Handshake(
-                    SessionHandshake::parse_from_bytes(message).unwrap(),
+                    SessionHandshake::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Ping) => Some(SessionEvent::Ping(
-                    PingEvent::parse_from_bytes(message).unwrap(),
+                    PingEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Pong) => Some(SessionEvent::Pong(
-                    PongEvent::parse_from_bytes(message).unwrap(),
+                    PongEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::CreateActor) => Some(SessionEvent::CreateActor(
-                    CreateActorEvent::parse_from_bytes(message).unwrap(),
+                    CreateActorEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::FindActor) => Some(SessionEvent::FindActor(
-                    FindActorEvent::parse_from_bytes(message).unwrap(),
+                    FindActorEvent::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::NotifyActor) => Some(SessionEvent::NotifyActor(
-                    MessageRequest::parse_from_bytes(message).unwrap(),
+                    MessageRequest::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::RegisterActor) => Some(SessionEvent::RegisterActor(
-                    ActorAddress::parse_from_bytes(message).unwrap(),
+                    ActorAddress::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::StreamPublish) => Some(SessionEvent::StreamPublish(Arc::new(
-                    StreamPublishEvent::parse_from_bytes(message).unwrap(),
+                    StreamPublishEvent::parse_from_bytes(message).ok()?,
                 ))),
                 Some(Event::Result) => Some(SessionEvent::Result(
-                    ClientResult::parse_from_bytes(message).unwrap(),
+                    ClientResult::parse_from_bytes(message).ok()?,
                 )),
                 Some(Event::Err) => Some(SessionEvent::Err(
-                    ClientErr::parse_from_bytes(message).unwrap(),
+                    ClientErr::parse_from_bytes(message).ok()?,
                 )),
                 _ => None,
             },
@@ -178,11 +178,11 @@ pub fn datetime_to_timestamp(
 
 pub fn timestamp_to_datetime(
     timestamp: protobuf::well_known_types::timestamp::Timestamp,
-) -> DateTime<Utc> {
-    DateTime::<Utc>::from_utc(
-        NaiveDateTime::from_timestamp_opt(timestamp.seconds, timestamp.nanos as u32).unwrap(),
-        Utc,
-    )
+) -> Option<DateTime<Utc>> {
+    let nanos = u32::try_from(timestamp.nanos).ok()?;
+    let date_time = NaiveDateTime::from_timestamp_opt(timestamp.seconds, nanos)?;
+
+    Some(DateTime::<Utc>::from_utc(date_time, Utc))
 }
 
 impl From<ActorRefErr> for proto::network::ActorRefErr {
@@ -254,24 +254,24 @@ impl From<proto::network::ActorRefErr> for ActorRefErr {
         use proto::network::MessageUnwrapErr as ProtoUnwrapErr;
         use proto::network::MessageWrapErr as ProtoWrapErr;
 
-        match err.type_.unwrap() {
+        match err.type_.enum_value_or_default() {
             ErrorType::ActorUnavailable => ActorRefErr::ActorUnavailable,
             ErrorType::NotFound => ActorRefErr::NotFound(err.actor_id.to_actor_id()),
             ErrorType::AlreadyExists => ActorRefErr::AlreadyExists(err.actor_id.to_actor_id()),
             ErrorType::Serialisation => {
-                ActorRefErr::Serialisation(match err.serialization_error.unwrap() {
+                ActorRefErr::Serialisation(match err.serialization_error.enum_value_or_default() {
                     ProtoWrapErr::WrapUnsupported => MessageWrapErr::NotTransmittable,
                     ProtoWrapErr::SerializationErr => MessageWrapErr::SerializationErr,
                     ProtoWrapErr::UnknownWrapErr => MessageWrapErr::Unknown,
                 })
             }
-            ErrorType::Deserialisation => {
-                ActorRefErr::Deserialisation(match err.deserialization_error.unwrap() {
+            ErrorType::Deserialisation => ActorRefErr::Deserialisation(
+                match err.deserialization_error.enum_value_or_default() {
                     ProtoUnwrapErr::UnwrapUnsupported => MessageUnwrapErr::NotTransmittable,
                     ProtoUnwrapErr::DeserializationErr => MessageUnwrapErr::DeserializationErr,
                     ProtoUnwrapErr::UnknownUnwrapErr => MessageUnwrapErr::Unknown,
-                })
-            }
+                },
+            ),
             ErrorType::Timeout => ActorRefErr::Timeout {
                 time_taken_millis: err.time_taken_millis,
             },
diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index 04d247b..d5c0ef8 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -296,13 +296,18 @@ impl StreamReceiver for SessionMessageReceiver {
                     &self.session_id,
                     &find_actor.actor_id
                 );
-                tokio::spawn(session_handle_lookup(
-                    Uuid::from_str(&find_actor.message_id).unwrap(),
-                    find_actor.actor_id.into_actor_id(),
-                    self.session_id,
-                    sys.clone(),
-                    self.session.clone(),
-                ));
+
+                if let Ok(message_id) = Uuid::from_str(&find_actor.message_id) {
+                    tokio::spawn(session_handle_lookup(
+                        message_id,
+                        find_actor.actor_id.into_actor_id(),
+                        self.session_id,
+                        sys.clone(),
+                        self.session.clone(),
+                    ));
+                } else {
+                    self.on_deserialisation_failed();
+                }
             }
 
             SessionEvent::RegisterActor(actor) => {
@@ -374,7 +379,10 @@ impl StreamReceiver for SessionMessageReceiver {
             SessionEvent::Raft(_req) => {}
 
             SessionEvent::Result(res) => {
-                match sys.pop_request(Uuid::from_str(&res.message_id).unwrap()) {
+                match Uuid::from_str(&res.message_id)
+                    .ok()
+                    .and_then(|id| sys.pop_request(id))
+                {
                     Some(res_tx) => {
                         let _ = res_tx.send(RemoteResponse::Ok(res.result));
                     }
@@ -389,8 +397,11 @@ impl StreamReceiver for SessionMessageReceiver {
                 }
             }
             SessionEvent::Err(err) => {
-                let e = err.error.unwrap().into();
-                match sys.pop_request(Uuid::from_str(&err.message_id).unwrap()) {
+                let e = err.error.unwrap_or_default().into();
+                match Uuid::from_str(&err.message_id)
+                    .ok()
+                    .and_then(|id| sys.pop_request(id))
+                {
                     Some(res_tx) => {
                         let _ = res_tx.send(RemoteResponse::Err(e));
                     }
@@ -472,7 +483,10 @@ async fn session_handshake(
         .into_iter()
         .filter(|n| n.node_id != self_id)
         .map(|n| {
-            let started_at = n.node_started_at.into_option().map(timestamp_to_datetime);
+            let started_at = n
+                .node_started_at
+                .into_option()
+                .and_then(timestamp_to_datetime);
 
             let addr =
                 if server_config.override_incoming_node_addr && n.node_id == handshake.node_id {
@@ -540,6 +554,7 @@ async fn session_handle_message(
     // let _enter = span.enter();
 
     let actor_id = msg.actor_id.into_actor_id();
+    let message_id = Uuid::from_str(&msg.message_id);
 
     match ctx
         .handle_message(
@@ -551,14 +566,16 @@ async fn session_handle_message(
     {
         Ok(buf) => {
             if msg.requires_response {
-                send_result(msg.message_id.parse().unwrap(), buf, session_id, session).await;
+                if let Ok(message_id) = message_id {
+                    send_result(message_id, buf, session_id, session).await;
+                }
             }
         }
         Err(e) => {
             error!("[node={}] failed to handle message (handler_type={}, target_actor_id={}), error={:?}", ctx.node_id(), &msg.handler_type, &actor_id, e);
-            let _ = ctx
-                .notify_rpc_err(msg.message_id.parse().unwrap(), e, msg.origin_node_id)
-                .await;
+            if let Ok(message_id) = message_id {
+                let _ = ctx.notify_rpc_err(message_id, e, msg.origin_node_id).await;
+            }
         }
     }
 }
@@ -593,7 +610,7 @@ async fn session_create_actor(
     ctx: RemoteActorSystem,
     session: LocalActorRef<RemoteSession>,
 ) {
-    let msg_id = msg.message_id.clone();
+    let msg_id = Uuid::from_str(&msg.message_id);
     let actor_id = if msg.actor_id.is_empty() {
         None
     } else {
@@ -611,7 +628,11 @@ async fn session_create_actor(
         .handle_create_actor(actor_id, msg.actor_type, msg.recipe)
         .await
     {
-        Ok(buf) => send_result(msg_id.parse().unwrap(), buf.to_vec(), session_id, session).await,
+        Ok(buf) => {
+            if let Ok(msg_id) = msg_id {
+                send_result(msg_id, buf.to_vec(), session_id, session).await
+            }
+        }
         Err(_) => {
             error!("failed to handle message, todo: send err");
         }
diff --git a/coerce/src/remote/stream/system.rs b/coerce/src/remote/stream/system.rs
index f301d83..a37c7c1 100644
--- a/coerce/src/remote/stream/system.rs
+++ b/coerce/src/remote/stream/system.rs
@@ -74,18 +74,18 @@ impl StreamData for SystemEvent {
         match data.split_first() {
             Some((event, message)) => match SysEvent::from_i32(*event as i32) {
                 Some(SysEvent::ClusterNodeRemoved) => {
-                    Some(NodeRemovedEvent::parse_from_bytes(message).unwrap().into())
+                    let event = NodeRemovedEvent::parse_from_bytes(message).ok()?;
+                    event.node.is_some().then(|| event.into())
                 }
                 Some(SysEvent::ClusterNewNode) => {
-                    Some(NewNodeEvent::parse_from_bytes(message).unwrap().into())
+                    let event = NewNodeEvent::parse_from_bytes(message).ok()?;
+                    event.node.is_some().then(|| event.into())
+                }
+                Some(SysEvent::ClusterLeaderChanged) => {
+                    Some(LeaderChangedEvent::parse_from_bytes(message).ok()?.into())
                 }
-                Some(SysEvent::ClusterLeaderChanged) => Some(
-                    LeaderChangedEvent::parse_from_bytes(message)
-                        .unwrap()
-                        .into(),
-                ),
                 Some(SysEvent::ClusterMemberUp) => {
-                    Some(MemberUpEvent::parse_from_bytes(message).unwrap().into())
+                    Some(MemberUpEvent::parse_from_bytes(message).ok()?.into())
                 }
                 None => None,
             },
-- 
2.43.0


From 8ad397d3485c915d6150f8555dc3dafe6b04b06c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:19 +0000
Subject: [PATCH 05/31] fix: a malformed sharding or singleton control message
 is refused instead of panicking

---
 coerce/src/sharding/coordinator/allocation.rs | 18 ++++++++++---
 coerce/src/sharding/coordinator/stats.rs      |  2 +-
 coerce/src/sharding/host/mod.rs               | 25 ++++++++++---------
 coerce/src/sharding/host/request.rs           |  3 ++-
 coerce/src/sharding/shard/recovery.rs         |  2 +-
 coerce/src/singleton/manager/status.rs        |  2 +-
 6 files changed, 32 insertions(+), 20 deletions(-)

diff --git a/coerce/src/sharding/coordinator/allocation.rs b/coerce/src/sharding/coordinator/allocation.rs
index 7cbbfae..19eaf47 100644
--- a/coerce/src/sharding/coordinator/allocation.rs
+++ b/coerce/src/sharding/coordinator/allocation.rs
@@ -240,18 +240,28 @@ impl Message for AllocateShard {
     fn read_remote_result(buffer: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
         let result = proto::AllocateShardResult::parse_from_bytes(&buffer);
         let result = match result {
-            Ok(result) => match result.result_type.unwrap() {
+            Ok(result) => match result
+                .result_type
+                .enum_value()
+                .map_err(|_| MessageUnwrapErr::DeserializationErr)?
+            {
                 allocate_shard_result::Type::ALLOCATED => {
-                    let allocation = result.allocation.unwrap();
+                    let allocation = result
+                        .allocation
+                        .into_option()
+                        .ok_or(MessageUnwrapErr::DeserializationErr)?;
                     AllocateShardResult::Allocated(allocation.shard_id, allocation.node_id)
                 }
                 allocate_shard_result::Type::ALREADY_ALLOCATED => {
-                    let allocation = result.allocation.unwrap();
+                    let allocation = result
+                        .allocation
+                        .into_option()
+                        .ok_or(MessageUnwrapErr::DeserializationErr)?;
                     AllocateShardResult::AlreadyAllocated(allocation.shard_id, allocation.node_id)
                 }
                 allocate_shard_result::Type::NOT_ALLOCATED => AllocateShardResult::NotAllocated,
                 allocate_shard_result::Type::ERR => {
-                    AllocateShardResult::Err(match result.err.unwrap() {
+                    AllocateShardResult::Err(match result.err.enum_value_or_default() {
                         allocate_shard_result::AllocateShardErr::PERSISTENCE => {
                             AllocateShardErr::Persistence
                         }
diff --git a/coerce/src/sharding/coordinator/stats.rs b/coerce/src/sharding/coordinator/stats.rs
index 15d2b4b..55f03dc 100644
--- a/coerce/src/sharding/coordinator/stats.rs
+++ b/coerce/src/sharding/coordinator/stats.rs
@@ -86,7 +86,7 @@ impl Message for GetShardingStats {
                     .map(|n| NodeStats {
                         node_id: n.node_id,
                         shard_count: n.shard_count,
-                        status: n.status.unwrap().into(),
+                        status: n.status.enum_value_or_default().into(),
                     })
                     .collect(),
             })
diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index f3f3002..e001d49 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -394,11 +394,10 @@ impl Message for ShardAllocated {
 
     fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
         proto::ShardAllocated::parse_from_bytes(&b)
-            .map(|r| {
-                let shard = r.shard.unwrap();
-                Self(shard.shard_id, shard.node_id)
-            })
-            .map_err(|_e| MessageUnwrapErr::DeserializationErr)
+            .ok()
+            .and_then(|r| r.shard.into_option())
+            .map(|shard| Self(shard.shard_id, shard.node_id))
+            .ok_or(MessageUnwrapErr::DeserializationErr)
     }
 
     fn read_remote_result(_: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
@@ -452,13 +451,15 @@ impl Message for StopShard {
     }
 
     fn from_bytes(b: Vec<u8>) -> Result<Self, MessageUnwrapErr> {
-        proto::StopShard::parse_from_bytes(&b)
-            .map(|r| Self {
-                shard_id: r.shard_id,
-                request_id: Uuid::parse_str(&r.request_id).unwrap(),
-                origin_node_id: r.origin_node_id,
-            })
-            .map_err(|_e| MessageUnwrapErr::DeserializationErr)
+        let r = proto::StopShard::parse_from_bytes(&b)
+            .map_err(|_e| MessageUnwrapErr::DeserializationErr)?;
+
+        Ok(Self {
+            shard_id: r.shard_id,
+            request_id: Uuid::parse_str(&r.request_id)
+                .map_err(|_e| MessageUnwrapErr::DeserializationErr)?,
+            origin_node_id: r.origin_node_id,
+        })
     }
 
     fn read_remote_result(_: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index 4466d32..4478ded 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -227,7 +227,8 @@ impl Message for RemoteEntityRequest {
             |_e| Err(MessageUnwrapErr::DeserializationErr),
             |proto| {
                 Ok(RemoteEntityRequest {
-                    request_id: Uuid::from_str(&proto.request_id).unwrap(),
+                    request_id: Uuid::from_str(&proto.request_id)
+                        .map_err(|_e| MessageUnwrapErr::DeserializationErr)?,
                     actor_id: proto.actor_id.into_actor_id(),
                     message_type: proto.message_type,
                     message: proto.message,
diff --git a/coerce/src/sharding/shard/recovery.rs b/coerce/src/sharding/shard/recovery.rs
index 335a28e..2dffd9f 100644
--- a/coerce/src/sharding/shard/recovery.rs
+++ b/coerce/src/sharding/shard/recovery.rs
@@ -137,7 +137,7 @@ impl Snapshot for ShardStateSnapshot {
                         .map(|e| Entity {
                             actor_id: e.actor_id.into_actor_id(),
                             recipe: Arc::new(e.recipe),
-                            state: match e.state.unwrap() {
+                            state: match e.state.enum_value_or_default() {
                                 proto::EntityState::IDLE | proto::EntityState::ACTIVE => {
                                     EntityState::Idle
                                 }
diff --git a/coerce/src/singleton/manager/status.rs b/coerce/src/singleton/manager/status.rs
index c48b353..9c6d4f5 100644
--- a/coerce/src/singleton/manager/status.rs
+++ b/coerce/src/singleton/manager/status.rs
@@ -57,7 +57,7 @@ impl Message for GetStatus {
 
     fn read_remote_result(buf: Vec<u8>) -> Result<Self::Result, MessageUnwrapErr> {
         proto::ManagerStatus::from_bytes(buf).map(|s| ManagerStatus {
-            singleton_state: s.singleton_state.unwrap().into(),
+            singleton_state: s.singleton_state.enum_value_or_default().into(),
         })
     }
 
-- 
2.43.0


From 9592f15efbc427d4e2c64be1ff89a211da48b025 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:19 +0000
Subject: [PATCH 06/31] fix: answering a request from another node no longer
 waits for an answer that never comes

---
 coerce/src/remote/system/rpc.rs | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index 4e583c2..d773d3e 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -128,12 +128,7 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if let Err(e) = self.node_rpc_raw(request_id, result, node_id).await {
-                error!(
-                    "error whilst sending result to target node (node_id={}, request_id={}) error: {}",
-                    &node_id, &request_id, &e
-                );
-            }
+            self.notify_node(node_id, result).await;
         }
     }
 
@@ -156,12 +151,7 @@ impl RemoteActorSystem {
                 ..Default::default()
             });
 
-            if let Err(e) = self.node_rpc_raw(request_id, result, node_id).await {
-                error!(
-                    "error whilst sending result to target node (node_id={}, request_id={}) error: {}",
-                    &node_id, &request_id, &e
-                );
-            }
+            self.notify_node(node_id, result).await;
         }
     }
 
-- 
2.43.0


From fe29e4f2c20d54827422d49938716f0d8ca24ce6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:19 +0000
Subject: [PATCH 07/31] fix: displaying a node RPC error no longer panics

---
 coerce/src/remote/system/rpc.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/system/rpc.rs b/coerce/src/remote/system/rpc.rs
index d773d3e..c5d0f23 100644
--- a/coerce/src/remote/system/rpc.rs
+++ b/coerce/src/remote/system/rpc.rs
@@ -20,8 +20,13 @@ pub enum NodeRpcErr {
 }
 
 impl Display for NodeRpcErr {
-    fn fmt(&self, _f: &mut Formatter<'_>) -> std::fmt::Result {
-        todo!()
+    fn fmt(&self, f: &mut Formatter<'_>) -> std::fmt::Result {
+        match self {
+            NodeRpcErr::NodeUnreachable => write!(f, "Node unreachable"),
+            NodeRpcErr::Serialisation => write!(f, "Serialisation error"),
+            NodeRpcErr::ReceiveFailed => write!(f, "Failed to receive result"),
+            NodeRpcErr::Err(e) => write!(f, "{}", e),
+        }
     }
 }
 
-- 
2.43.0


From ffe577b1fe45bce6db46c920036aa06c192ddfd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:06:54 +0000
Subject: [PATCH 08/31] fix: a remote request that cannot be encoded is not
 left registered as in flight

---
 coerce/src/remote/actor_ref.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/actor_ref.rs b/coerce/src/remote/actor_ref.rs
index 72ecc97..24d851a 100644
--- a/coerce/src/remote/actor_ref.rs
+++ b/coerce/src/remote/actor_ref.rs
@@ -75,11 +75,11 @@ where
     {
         let id = Uuid::new_v4();
 
+        let event = self.create_request(msg, String::new(), id, true)?;
+
         let (res_tx, res_rx) = oneshot::channel();
         self.system.push_request(id, res_tx);
 
-        let event = self.create_request(msg, String::new(), id, true)?;
-
         // TODO: we could make this fail fast if the node is known to be terminated?
         self.system.notify_node(self.node_id, event).await;
         match res_rx.await {
-- 
2.43.0


From 660db7bd386efa3bddd6140066b07b248e0432f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:13:21 +0000
Subject: [PATCH 09/31] fix: a connection that fails to authenticate, or stays
 silent, no longer stops the server from accepting others

---
 coerce/src/remote/net/server/session/store.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/coerce/src/remote/net/server/session/store.rs b/coerce/src/remote/net/server/session/store.rs
index fb7f139..c44b1d0 100644
--- a/coerce/src/remote/net/server/session/store.rs
+++ b/coerce/src/remote/net/server/session/store.rs
@@ -48,12 +48,12 @@ impl Handler<NewSession> for RemoteSessionStore {
         let session_id = message.0.id;
         let session = message.0;
 
+        // a session authenticates its peer while it starts, which must not hold up other sessions
         let session_actor = ctx
-            .spawn(
+            .spawn_deferred(
                 format!("session-{}", session_id.to_string()).into_actor_id(),
                 session,
             )
-            .await
             .expect("unable to create session actor");
 
         let node_id = ctx.system().remote().node_id();
-- 
2.43.0


From 76f3b56bd2ed44148710657a20ab20b0463911d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 10/31] fix: a node whose ping timed out is terminated when it
 has been silent too long, not when it has not

---
 coerce/src/remote/heartbeat/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index a192a0b..4e19641 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -435,7 +435,7 @@ fn node_status(
         Some(PingResult::Timeout) => {
             let terminated = last_heartbeat.map_or(true, |h| {
                 h.add(chrono::Duration::from_std(config.terminated_node_heartbeat_timeout).unwrap())
-                    >= Utc::now()
+                    <= Utc::now()
             });
 
             if terminated {
-- 
2.43.0


From 551407553c2f6a4285a9d0462a30a10854a80e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 11/31] fix: the heartbeat survives the wall clock going back

---
 coerce/src/remote/heartbeat/mod.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index 4e19641..d6bbf72 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -382,7 +382,9 @@ fn node_status(
 ) -> NodeStatus {
     match ping {
         Some(PingResult::Ok(_, ping_latency, pong_received_at)) => {
-            let time_since_ping = (Utc::now() - pong_received_at).to_std().unwrap();
+            let time_since_ping = (Utc::now() - pong_received_at)
+                .to_std()
+                .unwrap_or_default();
 
             if time_since_ping >= config.terminated_node_heartbeat_timeout {
                 error!(
-- 
2.43.0


From 46478785f559d081155154611f8c7d0b51bd4939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 12/31] fix: membership is announced when the cluster has its
 minimum size

---
 coerce/src/remote/heartbeat/mod.rs | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/coerce/src/remote/heartbeat/mod.rs b/coerce/src/remote/heartbeat/mod.rs
index d6bbf72..9b8db59 100644
--- a/coerce/src/remote/heartbeat/mod.rs
+++ b/coerce/src/remote/heartbeat/mod.rs
@@ -283,21 +283,24 @@ impl Handler<HeartbeatTick> for Heartbeat {
 
         system.update_nodes(updates.clone()).await;
 
-        if let Some(new_leader_id) = new_leader_id {
-            if !self.cluster_member_up {
-                let min_cluster_size_reached = match self.config.minimum_cluster_size {
-                    None => true,
-                    Some(n) => n >= self.node_pings.len(),
-                };
-
+        if !self.cluster_member_up && self.last_heartbeat.is_some() {
+            // the current node is not part of `node_pings`
+            let min_cluster_size_reached = match self.config.minimum_cluster_size {
+                None => true,
+                Some(n) => self.node_pings.len() + 1 >= n,
+            };
+
+            if let Some(leader_id) = new_leader_id.or_else(|| system.current_leader()) {
                 if min_cluster_size_reached {
                     self.on_min_cluster_size_reached(
-                        new_leader_id,
+                        leader_id,
                         updates.into_iter().map(|n| Arc::new(n.into())).collect(),
                     );
                 }
             }
+        }
 
+        if let Some(new_leader_id) = new_leader_id {
             self.update_leader(new_leader_id);
         }
 
-- 
2.43.0


From fb479d73de970745c9f1fa9c540d6a8fa5bc9238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 13/31] fix: a leader whose node id does not fit a signed
 integer is reported

---
 coerce/src/remote/system/builder.rs |  8 ++++----
 coerce/src/remote/system/cluster.rs | 18 ++----------------
 coerce/src/remote/system/mod.rs     |  4 +---
 3 files changed, 7 insertions(+), 23 deletions(-)

diff --git a/coerce/src/remote/system/builder.rs b/coerce/src/remote/system/builder.rs
index 56b0934..a499964 100644
--- a/coerce/src/remote/system/builder.rs
+++ b/coerce/src/remote/system/builder.rs
@@ -9,7 +9,7 @@ use crate::remote::actor::{
 use crate::remote::handler::{RemoteActorHandler, RemoteActorMessageHandler};
 use crate::remote::heartbeat::{Heartbeat, HeartbeatConfig};
 use crate::remote::stream::mediator::StreamMediator;
-use crate::remote::system::{AtomicNodeId, NodeId, RemoteActorSystem, RemoteSystemCore};
+use crate::remote::system::{NodeId, RemoteActorSystem, RemoteSystemCore};
 
 use rand::RngCore;
 
@@ -196,10 +196,10 @@ impl RemoteActorSystemBuilder {
             heartbeat_ref,
             started_at: Utc::now(),
             config,
-            current_leader: Arc::new(AtomicNodeId::new(if self.single_node_cluster {
-                node_id as i64
+            current_leader: Arc::new(parking_lot::Mutex::new(if self.single_node_cluster {
+                Some(node_id)
             } else {
-                -1
+                None
             })),
         };
 
diff --git a/coerce/src/remote/system/cluster.rs b/coerce/src/remote/system/cluster.rs
index e335a05..a5b1b0d 100644
--- a/coerce/src/remote/system/cluster.rs
+++ b/coerce/src/remote/system/cluster.rs
@@ -3,7 +3,6 @@ use crate::remote::cluster::node::{RemoteNode, RemoteNodeState};
 use crate::remote::net::client::{ClientType, RemoteClientRef};
 use crate::remote::net::message::SessionEvent;
 use crate::remote::system::{NodeId, RemoteActorSystem};
-use std::sync::atomic::Ordering;
 
 impl RemoteActorSystem {
     pub async fn register_node(&self, node: RemoteNode) {
@@ -39,24 +38,11 @@ impl RemoteActorSystem {
     }
 
     pub fn current_leader(&self) -> Option<NodeId> {
-        let n = self.inner.current_leader.load(Ordering::SeqCst);
-        if n >= 0 {
-            Some(n as NodeId)
-        } else {
-            None
-        }
+        *self.inner.current_leader.lock()
     }
 
     pub fn update_leader(&self, new_leader: NodeId) -> Option<NodeId> {
-        let n = self
-            .inner
-            .current_leader
-            .swap(new_leader as i64, Ordering::SeqCst);
-        if n >= 0 {
-            Some(n as NodeId)
-        } else {
-            None
-        }
+        self.inner.current_leader.lock().replace(new_leader)
     }
 
     pub async fn get_remote_client(&self, addr: String) -> Option<RemoteClientRef> {
diff --git a/coerce/src/remote/system/mod.rs b/coerce/src/remote/system/mod.rs
index 5c7d068..8951351 100644
--- a/coerce/src/remote/system/mod.rs
+++ b/coerce/src/remote/system/mod.rs
@@ -1,5 +1,4 @@
 use chrono::{DateTime, Utc};
-use std::sync::atomic::AtomicI64;
 use std::sync::Arc;
 
 use crate::actor::system::ActorSystem;
@@ -30,7 +29,6 @@ pub struct RemoteActorSystem {
 }
 
 pub type NodeId = u64;
-pub type AtomicNodeId = AtomicI64;
 
 #[derive(Clone)]
 pub struct RemoteSystemCore {
@@ -44,7 +42,7 @@ pub struct RemoteSystemCore {
     heartbeat_ref: LocalActorRef<Heartbeat>,
     mediator_ref: Option<LocalActorRef<StreamMediator>>,
     config: Arc<RemoteSystemConfig>,
-    current_leader: Arc<AtomicNodeId>,
+    current_leader: Arc<parking_lot::Mutex<Option<NodeId>>>,
 }
 
 impl RemoteActorSystem {
-- 
2.43.0


From ae1da11a1cb4b9db5f5a0548e1dad74bd999eafe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 14/31] fix: a request to create an actor that fails is
 answered

---
 coerce/src/remote/net/server/session/mod.rs | 28 ++++++++++++++++++---
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/coerce/src/remote/net/server/session/mod.rs b/coerce/src/remote/net/server/session/mod.rs
index d5c0ef8..84781c1 100644
--- a/coerce/src/remote/net/server/session/mod.rs
+++ b/coerce/src/remote/net/server/session/mod.rs
@@ -1,6 +1,6 @@
 use crate::actor::context::{ActorContext, LogContext};
 use crate::actor::message::Handler;
-use crate::actor::{Actor, ActorId, IntoActorId, LocalActorRef};
+use crate::actor::{Actor, ActorId, ActorRefErr, IntoActorId, LocalActorRef};
 use crate::remote::actor::message::NodeTerminated;
 use crate::remote::actor::RemoteResponse;
 use crate::remote::cluster::discovery::{Discover, Seed};
@@ -9,8 +9,8 @@ use crate::remote::net::message::{
     datetime_to_timestamp, timestamp_to_datetime, ClientEvent, SessionEvent,
 };
 use crate::remote::net::proto::network::{
-    ActorAddress, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest, NodeIdentity,
-    PongEvent, RemoteNode as RemoteNodeProto, SessionHandshake, StreamPublishEvent,
+    ActorAddress, ClientErr, ClientHandshake, ClientResult, CreateActorEvent, MessageRequest,
+    NodeIdentity, PongEvent, RemoteNode as RemoteNodeProto, SessionHandshake, StreamPublishEvent,
     SystemCapabilities,
 };
 use crate::remote::net::server::session::store::{RemoteSessionStore, SessionClosed, SessionWrite};
@@ -634,7 +634,10 @@ async fn session_create_actor(
             }
         }
         Err(_) => {
-            error!("failed to handle message, todo: send err");
+            error!("failed to create actor, message_id={}", &msg.message_id);
+            if let Ok(msg_id) = msg_id {
+                send_error(msg_id, ActorRefErr::ActorUnavailable, session_id, session).await
+            }
         }
     }
 }
@@ -666,3 +669,20 @@ async fn send_result(
         error!("failed to send result");
     }
 }
+
+async fn send_error(
+    msg_id: Uuid,
+    error: ActorRefErr,
+    session_id: i64,
+    session: LocalActorRef<RemoteSession>,
+) {
+    let event = ClientEvent::Err(ClientErr {
+        message_id: msg_id.to_string(),
+        error: Some(error.into()).into(),
+        ..ClientErr::default()
+    });
+
+    if session.send(SessionWrite(session_id, event)).await.is_err() {
+        error!("failed to send error");
+    }
+}
-- 
2.43.0


From be0448316189eeeca3c487eaab86d8f08d8ff7c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 15/31] fix: deploying an actor on the own node returns a
 reference that reaches it

---
 coerce/src/remote/system/actor.rs | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/coerce/src/remote/system/actor.rs b/coerce/src/remote/system/actor.rs
index cc360b3..7946f4f 100644
--- a/coerce/src/remote/system/actor.rs
+++ b/coerce/src/remote/system/actor.rs
@@ -168,11 +168,20 @@ impl RemoteActorSystem {
 
         match actor_addr {
             Some(actor_address) => {
-                let actor_ref = RemoteActorRef::<F::Actor>::new(
-                    actor_address.actor_id.into_actor_id(),
-                    actor_address.node_id.value,
-                    self.clone(),
-                );
+                let actor_id = actor_address.actor_id.into_actor_id();
+                let node_id = actor_address.node_id.value;
+
+                if node_id == self_id {
+                    return self
+                        .actor_system()
+                        .get_tracked_actor::<F::Actor>(actor_id)
+                        .await
+                        .map(ActorRef::from)
+                        .ok_or(RemoteActorErr::ActorUnavailable);
+                }
+
+                let actor_ref =
+                    RemoteActorRef::<F::Actor>::new(actor_id, node_id, self.clone());
 
                 Ok(ActorRef::from(actor_ref))
             }
-- 
2.43.0


From eb607e0dca3000a1d4ca44f73ccc369c2e89dfeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:46:20 +0000
Subject: [PATCH 16/31] fix: a subscriber that falls behind keeps receiving,
 one that stopped does not panic its subscription

---
 coerce/src/remote/stream/pubsub.rs | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/coerce/src/remote/stream/pubsub.rs b/coerce/src/remote/stream/pubsub.rs
index 5f36219..9dcd722 100644
--- a/coerce/src/remote/stream/pubsub.rs
+++ b/coerce/src/remote/stream/pubsub.rs
@@ -12,6 +12,7 @@ use std::sync::Arc;
 
 use crate::remote::system::RemoteActorSystem;
 use tokio::sync::broadcast;
+use tokio::sync::broadcast::error::RecvError;
 use tokio::task::JoinHandle;
 
 pub struct PubSub;
@@ -219,10 +220,23 @@ impl Subscription {
         let task_handle = Some(tokio::spawn(async move {
             let receiver_ref = receiver_ref;
             let mut stream_receiver = topic_receiver;
-            while let Ok(message) = stream_receiver.recv().await {
-                receiver_ref
-                    .notify(message)
-                    .expect("unable to notify receiver ref");
+            loop {
+                match stream_receiver.recv().await {
+                    Ok(message) => {
+                        if receiver_ref.notify(message).is_err() {
+                            // the subscriber has stopped
+                            break;
+                        }
+                    }
+                    Err(RecvError::Lagged(skipped)) => {
+                        warn!(
+                            "subscriber lagged behind, {} messages skipped (topic={})",
+                            skipped,
+                            T::topic_name()
+                        );
+                    }
+                    Err(RecvError::Closed) => break,
+                }
             }
         }));
 
-- 
2.43.0


From 8b68c0b20dd4428e64bbc4eed5eb417f83663605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:17 +0000
Subject: [PATCH 17/31] fix: requests waiting for an entity that fails to start
 are refused

---
 coerce/src/sharding/shard/mod.rs | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index 4940fdc..61720bc 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -268,12 +268,20 @@ impl Handler<EntityStartResult> for Shard {
                 );
             }
             Err(e) => {
-                // TODO: we should respond to all buffered requests with a failure
-
                 error!(
                     "failed to spawn entity as a child of Shard#{}, actor_id={}, error={}, is_shard_recovery={}",
                     &self.shard_id, &actor_id, e, is_shard_recovery
-                )
+                );
+
+                if let Some(Entity {
+                    state: EntityState::Starting { request_buffer },
+                    ..
+                }) = self.entities.remove(&actor_id)
+                {
+                    for msg in request_buffer {
+                        msg.result_channel.map(|c| c.send(Err(e.clone())));
+                    }
+                }
             }
         }
     }
-- 
2.43.0


From 6575312aa7e771c6ad0731e78834040484ed23bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:58 +0000
Subject: [PATCH 18/31] fix: a shard asked to stop while it starts is stopped
 and the request answered

---
 coerce/src/sharding/host/mod.rs | 100 +++++++++++++++++++-------------
 1 file changed, 60 insertions(+), 40 deletions(-)

diff --git a/coerce/src/sharding/host/mod.rs b/coerce/src/sharding/host/mod.rs
index e001d49..647bda1 100644
--- a/coerce/src/sharding/host/mod.rs
+++ b/coerce/src/sharding/host/mod.rs
@@ -254,30 +254,39 @@ impl Handler<ShardReady> for ShardHost {
         let shard_id = message.0;
         let actor_ref = message.1;
 
-        let shard_state = self
-            .hosted_shards
-            .insert(shard_id, ShardState::Ready(actor_ref.clone()));
-
-        ctx.attach_child_ref(actor_ref.clone().into());
-
-        match shard_state {
+        match self.hosted_shards.remove(&shard_id) {
             Some(ShardState::Starting {
                 request_buffer,
                 stop_requested,
                 ..
             }) => {
+                ctx.attach_child_ref(actor_ref.clone().into());
+
                 if let Some(stop_requested) = stop_requested {
                     // TODO: move the request buffer over to `requests_pending_shard_allocation`
+                    self.hosted_shards.insert(shard_id, ShardState::Stopping);
                     self.stop_shard(shard_id, actor_ref, ctx, Some(stop_requested));
                 } else {
                     let mut shard_state = ShardState::Ready(actor_ref);
                     for request in request_buffer {
                         handle_request(request, shard_id, &mut shard_state);
                     }
+
+                    self.hosted_shards.insert(shard_id, shard_state);
                 }
             }
 
-            _ => {}
+            Some(ShardState::Ready(_)) => {
+                self.hosted_shards
+                    .insert(shard_id, ShardState::Ready(actor_ref));
+            }
+
+            Some(ShardState::Stopping) => {
+                self.hosted_shards.insert(shard_id, ShardState::Stopping);
+            }
+
+            // the shard has been allocated to another node while it was starting
+            None => {}
         }
     }
 }
@@ -300,27 +309,29 @@ impl Handler<StopShard> for ShardHost {
         };
 
         match shard_entry {
-            Entry::Occupied(mut shard_entry) => {
-                // TODO: is this correct? if the status is starting, should we not update that rather than re-inserting `Stopping`?
-                match shard_entry.insert(ShardState::Stopping) {
-                    ShardState::Starting {
-                        mut stop_requested, ..
-                    } => {
-                        // actor has requested to be started so we can't stop it yet, once the actor
-                        // has finished starting, we can then stop it.
-                        stop_requested = Some(stop_request);
-                    }
+            Entry::Occupied(mut shard_entry) => match shard_entry.get_mut() {
+                ShardState::Starting { stop_requested, .. } => {
+                    // actor has requested to be started so we can't stop it yet, once the actor
+                    // has finished starting, we can then stop it.
+                    *stop_requested = Some(stop_request);
+                }
 
-                    ShardState::Ready(actor_ref) => {
-                        self.stop_shard(shard_id, actor_ref, ctx, Some(stop_request))
-                    }
+                ShardState::Ready(actor_ref) => {
+                    let actor_ref = actor_ref.clone();
 
-                    ShardState::Stopping => {
-                        // shard already stopping
-                    }
+                    shard_entry.insert(ShardState::Stopping);
+                    self.stop_shard(shard_id, actor_ref, ctx, Some(stop_request))
+                }
+
+                ShardState::Stopping => {
+                    // shard already stopping
                 }
+            },
+            Entry::Vacant(_) => {
+                // nothing to stop, let the requester know
+                let remote_system = ctx.system().remote_owned();
+                tokio::spawn(stop_result(shard_id, true, stop_request, remote_system));
             }
-            Entry::Vacant(_) => {}
         }
     }
 }
@@ -343,26 +354,35 @@ impl ShardHost {
             });
 
             if let Some(stop_requested) = stop_requested {
-                let shard_stopped = ShardStopped {
-                    shard_id,
-                    stopped_successfully: result.is_ok(),
-                }
-                .into_envelope(EnvelopeType::Remote)
-                .unwrap()
-                .into_bytes();
-
-                let _ = remote_system
-                    .notify_raw_rpc_result(
-                        stop_requested.request_id,
-                        shard_stopped,
-                        stop_requested.origin_node_id,
-                    )
-                    .await;
+                stop_result(shard_id, result.is_ok(), stop_requested, remote_system).await;
             }
         });
     }
 }
 
+async fn stop_result(
+    shard_id: ShardId,
+    stopped_successfully: bool,
+    stop_requested: StopRequested,
+    remote_system: RemoteActorSystem,
+) {
+    let shard_stopped = ShardStopped {
+        shard_id,
+        stopped_successfully,
+    }
+    .into_envelope(EnvelopeType::Remote)
+    .unwrap()
+    .into_bytes();
+
+    let _ = remote_system
+        .notify_raw_rpc_result(
+            stop_requested.request_id,
+            shard_stopped,
+            stop_requested.origin_node_id,
+        )
+        .await;
+}
+
 #[async_trait]
 impl Handler<ShardStopped> for ShardHost {
     async fn handle(&mut self, message: ShardStopped, _ctx: &mut ActorContext) {
-- 
2.43.0


From 8cc13e7f48e6c9e2312a6137f7caa7b297054480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:58 +0000
Subject: [PATCH 19/31] fix: requests to a shard that cannot be allocated are
 refused

---
 coerce/src/sharding/host/request.rs | 26 +++++++++++++++++++++++++-
 1 file changed, 25 insertions(+), 1 deletion(-)

diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index 4478ded..3fb186f 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -108,18 +108,42 @@ impl Handler<EntityRequest> for ShardHost {
                         AllocateShardResult::NotAllocated => {
                             // No hosts available?
                             error!("shard(#{}) not allocated, no hosts available?", shard_id);
+                            let _ = host_ref.notify(ShardNotAllocated(shard_id));
                         }
                         AllocateShardResult::Err(e) => {
                             error!("shard(#{}) failed to allocate: {}", shard_id, e);
+                            let _ = host_ref.notify(ShardNotAllocated(shard_id));
                         }
                     },
-                    Err(_e) => {}
+                    Err(e) => {
+                        error!("shard(#{}) failed to allocate: {}", shard_id, e);
+                        let _ = host_ref.notify(ShardNotAllocated(shard_id));
+                    }
                 }
             });
         }
     }
 }
 
+/// The coordinator could not allocate the shard
+pub struct ShardNotAllocated(pub ShardId);
+
+impl Message for ShardNotAllocated {
+    type Result = ();
+}
+
+#[async_trait]
+impl Handler<ShardNotAllocated> for ShardHost {
+    async fn handle(&mut self, message: ShardNotAllocated, _ctx: &mut ActorContext) {
+        let requests = self.requests_pending_shard_allocation.remove(&message.0);
+        for request in requests.into_iter().flatten() {
+            request
+                .result_channel
+                .map(|c| c.send(Err(ActorRefErr::ActorUnavailable)));
+        }
+    }
+}
+
 async fn remote_entity_request(
     shard_ref: ActorRef<Shard>,
     mut request: EntityRequest,
-- 
2.43.0


From c17e48dc822856662725bef069d1ea09786b9057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:37 +0000
Subject: [PATCH 20/31] fix: a shard has stopped only when its entities have

---
 coerce/src/sharding/shard/mod.rs | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/coerce/src/sharding/shard/mod.rs b/coerce/src/sharding/shard/mod.rs
index 61720bc..e39a1c6 100644
--- a/coerce/src/sharding/shard/mod.rs
+++ b/coerce/src/sharding/shard/mod.rs
@@ -25,6 +25,7 @@ use std::mem;
 use std::sync::Arc;
 use tokio::sync::oneshot;
 use tokio::sync::oneshot::Sender;
+use tokio::task::JoinHandle;
 
 pub mod message;
 pub(crate) mod passivation;
@@ -40,6 +41,7 @@ pub struct Shard {
     recovered_snapshot: bool,
     entity_passivation: bool,
     entities: HashMap<ActorId, Entity>,
+    starting_entities: HashMap<ActorId, JoinHandle<Option<BoxedActorRef>>>,
     host: LocalActorRef<ShardHost>,
 }
 
@@ -55,6 +57,7 @@ impl Shard {
             handler,
             persistent_entities,
             entities: HashMap::new(),
+            starting_entities: HashMap::new(),
             recovered_snapshot: false,
             entity_passivation: true,
             host,
@@ -176,6 +179,20 @@ impl PersistentActor for Shard {
             .notify(ShardReady(self.shard_id, self.actor_ref(ctx)));
     }
 
+    async fn stopped(&mut self, ctx: &mut ActorContext) {
+        // the shard can be started on another node as soon as it has stopped, none of its entities
+        // can be left running by then
+        for (_, starting_entity) in self.starting_entities.drain() {
+            if let Ok(Some(actor_ref)) = starting_entity.await {
+                let _ = actor_ref.stop().await;
+            }
+        }
+
+        if let Some(supervised) = ctx.supervised_mut() {
+            supervised.stop_all().await;
+        }
+    }
+
     async fn on_child_stopped(&mut self, id: &ActorId, _ctx: &mut ActorContext) {}
 }
 
@@ -232,6 +249,8 @@ impl Handler<EntityStartResult> for Shard {
             is_shard_recovery,
         } = message;
 
+        let _ = self.starting_entities.remove(&actor_id);
+
         match result {
             Ok(actor_ref) => {
                 if let Some(previous) = ctx.add_child_ref(actor_ref.clone()) {
@@ -308,7 +327,8 @@ impl Shard {
         let system = ctx.system().clone();
         let self_ref = self.actor_ref(ctx);
 
-        tokio::spawn(async move {
+        let entity_id = actor_id.clone();
+        let starting_entity = tokio::spawn(async move {
             let result = handler
                 .create(
                     Some(actor_id.clone()),
@@ -318,12 +338,17 @@ impl Shard {
                 )
                 .await;
 
+            let actor_ref = result.as_ref().ok().cloned();
             let _ = self_ref.notify(EntityStartResult {
                 actor_id,
                 result,
                 is_shard_recovery,
             });
+
+            actor_ref
         });
+
+        self.starting_entities.insert(entity_id, starting_entity);
     }
 }
 
-- 
2.43.0


From b572d8dba034752c2eee93ae3a87cdeb467f50c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:54 +0000
Subject: [PATCH 21/31] fix: a shard is not allocated again while its previous
 host is still stopping it

---
 coerce/src/sharding/coordinator/allocation.rs |  8 +++++
 coerce/src/sharding/coordinator/balancing.rs  | 36 +++++++++++--------
 coerce/src/sharding/coordinator/mod.rs        |  2 +-
 3 files changed, 30 insertions(+), 16 deletions(-)

diff --git a/coerce/src/sharding/coordinator/allocation.rs b/coerce/src/sharding/coordinator/allocation.rs
index 19eaf47..d7cbf05 100644
--- a/coerce/src/sharding/coordinator/allocation.rs
+++ b/coerce/src/sharding/coordinator/allocation.rs
@@ -73,9 +73,17 @@ impl Handler<AllocateShard> for ShardCoordinator {
         }
 
         if message.rebalancing {
+            // the shard is no longer running on its previous host
+            let _ = self.reallocating_shards.remove(&message.shard_id);
             return self.allocate_shard(message.shard_id, ctx).await;
         }
 
+        if self.reallocating_shards.contains_key(&message.shard_id) {
+            // the shard is still being stopped by its previous host, the hosts are notified once
+            // it has been allocated to another
+            return AllocateShardResult::NotAllocated;
+        }
+
         match self.persist(&message, ctx).await {
             Ok(_) => self.allocate_shard(message.shard_id, ctx).await,
             Err(e) => {
diff --git a/coerce/src/sharding/coordinator/balancing.rs b/coerce/src/sharding/coordinator/balancing.rs
index b3a473f..f7b29b1 100644
--- a/coerce/src/sharding/coordinator/balancing.rs
+++ b/coerce/src/sharding/coordinator/balancing.rs
@@ -98,6 +98,7 @@ impl ShardCoordinator {
             if let Some(shard_node_id) = self.shards.remove(&shard) {
                 let shard_host = self.hosts.get_mut(&shard_node_id).unwrap();
                 let _ = shard_host.shards.remove(&shard);
+                self.reallocating_shards.insert(shard, shard_node_id);
 
                 let self_ref = self_ref.clone();
                 let shard_host_actor = shard_host.actor.clone();
@@ -113,26 +114,19 @@ impl ShardCoordinator {
                     let result = shard_host_actor.notify(stop).await;
                     match result {
                         Ok(_) => {
-                            let result = rx.await;
-                            if let Ok(result) = result {
-                                let result = ShardStopped::from_bytes(result.into_result().unwrap());
-                                match result {
-                                    Ok(_res) => {
-                                        let _ = self_ref.send(AllocateShard { shard_id: shard, rebalancing: true }).await;
-                                    },
-                                    Err(e) => {
-                                        error!("deserialization error: {}", e);
-                                    },
-                                }
-                            } else {
-                                warn!("error recv")
+                            let result = rx.await.ok().and_then(|r| r.into_result().ok());
+                            match result.map(ShardStopped::from_bytes) {
+                                Some(Ok(_res)) => {}
+                                Some(Err(e)) => error!("deserialization error: {}", e),
+                                None => warn!("error recv"),
                             }
-
                         }
                         Err(e) => {
                             error!("error during shard re-balancing - failed to send StopShard (shard_id={}), target_node={}) error={}", shard, &shard_host_actor, e);
                         }
                     }
+
+                    let _ = self_ref.send(AllocateShard { shard_id: shard, rebalancing: true }).await;
                 });
             }
         }
@@ -158,7 +152,19 @@ impl ShardCoordinator {
             // The node can be made available again, once confirmed
             shard_host_state.status = ShardHostStatus::Unavailable;
 
-            mem::take(&mut shard_host_state.shards)
+            let mut shards = mem::take(&mut shard_host_state.shards);
+
+            // shards that the host has not finished stopping
+            self.reallocating_shards.retain(|shard, previous_host| {
+                let unavailable = *previous_host == node_id;
+                if unavailable {
+                    shards.insert(*shard);
+                }
+
+                !unavailable
+            });
+
+            shards
         };
 
         let shard_count = shards_to_rebalance.len();
diff --git a/coerce/src/sharding/coordinator/mod.rs b/coerce/src/sharding/coordinator/mod.rs
index 0a90d1a..eb2fd0a 100644
--- a/coerce/src/sharding/coordinator/mod.rs
+++ b/coerce/src/sharding/coordinator/mod.rs
@@ -54,7 +54,7 @@ pub struct ShardCoordinator {
     local_shard_host: LocalActorRef<ShardHost>,
     hosts: HashMap<NodeId, ShardHostState>,
     shards: HashMap<ShardId, NodeId>,
-    reallocating_shards: HashSet<ShardId>,
+    reallocating_shards: HashMap<ShardId, NodeId>,
     scheduled_rebalance: Option<ScheduledRebalance>,
     self_node_id: Option<NodeId>,
     system_event_subscription: Option<Subscription>,
-- 
2.43.0


From 449a0801a26b5147aa0d598a613fd087eca0c921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:54 +0000
Subject: [PATCH 22/31] fix: a request to a shard that is no longer on the node
 it was sent to is refused

---
 coerce/src/sharding/host/request.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/coerce/src/sharding/host/request.rs b/coerce/src/sharding/host/request.rs
index 3fb186f..2afffbb 100644
--- a/coerce/src/sharding/host/request.rs
+++ b/coerce/src/sharding/host/request.rs
@@ -164,8 +164,8 @@ async fn remote_entity_request(
         system.node_id()
     );
 
-    shard_ref
-        .notify(RemoteEntityRequest {
+    let delivered = shard_ref
+        .send(RemoteEntityRequest {
             origin_node: system.node_id(),
             request_id,
             actor_id: request.actor_id.into_actor_id(),
@@ -173,8 +173,14 @@ async fn remote_entity_request(
             message: request.message,
             recipe: request.recipe.map(|r| r.as_ref().clone()),
         })
-        .await
-        .expect("shard notify");
+        .await;
+
+    if let Err(e) = delivered {
+        // the shard isn't running on that node (anymore), there won't be a reply
+        let _ = system.pop_request(request_id);
+        result_channel.map(|result_sender| result_sender.send(Err(e.clone())));
+        return Err(e);
+    }
 
     trace!(
         "emitted RemoteEntityRequest to node_id={} from node_id={}, waiting for reply",
-- 
2.43.0


From 5f3de8c74e0fada4790efc16196a1d2ac53074e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:22 +0000
Subject: [PATCH 23/31] fix: notifying a singleton no longer panics its proxy

---
 coerce/src/singleton/mod.rs        |  2 +-
 coerce/src/singleton/proxy/send.rs | 12 +++++++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/coerce/src/singleton/mod.rs b/coerce/src/singleton/mod.rs
index b4c2054..109ffdb 100644
--- a/coerce/src/singleton/mod.rs
+++ b/coerce/src/singleton/mod.rs
@@ -94,7 +94,7 @@ impl<A: Actor, F: SingletonFactory<Actor = A>> Singleton<A, F> {
             return Err(e);
         }
 
-        rx.await.unwrap()
+        rx.await.unwrap_or(Err(ActorRefErr::ResultChannelClosed))
     }
 
     pub async fn notify<M: Message>(&self, message: M) -> Result<(), ActorRefErr>
diff --git a/coerce/src/singleton/proxy/send.rs b/coerce/src/singleton/proxy/send.rs
index 5ffe844..56ae561 100644
--- a/coerce/src/singleton/proxy/send.rs
+++ b/coerce/src/singleton/proxy/send.rs
@@ -25,12 +25,18 @@ impl<M: Message> Deliver<M> {
         A: Handler<M>,
     {
         let message = self.message.take().unwrap();
-        let result_channel = self.result_channel.take().unwrap();
+        let result_channel = self.result_channel.take();
         tokio::spawn(async move {
             debug!(msg_type = M::type_name(), "delivering message to singleton");
 
-            let res = actor.send(message).await;
-            result_channel.send(res)
+            match result_channel {
+                Some(result_channel) => {
+                    let _ = result_channel.send(actor.send(message).await);
+                }
+                None => {
+                    let _ = actor.notify(message).await;
+                }
+            }
         });
     }
 }
-- 
2.43.0


From 635ab71c5f5f0fda61179b95ee23699d036711bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:34:03 +0000
Subject: [PATCH 24/31] fix: a singleton is handed over to a new leader

---
 coerce/src/singleton/manager/lease.rs |  57 ++++++++-----
 coerce/src/singleton/manager/mod.rs   | 112 ++++++++++++++++----------
 coerce/src/singleton/manager/start.rs |   4 +
 3 files changed, 111 insertions(+), 62 deletions(-)

diff --git a/coerce/src/singleton/manager/lease.rs b/coerce/src/singleton/manager/lease.rs
index f2490a7..cee3320 100644
--- a/coerce/src/singleton/manager/lease.rs
+++ b/coerce/src/singleton/manager/lease.rs
@@ -78,21 +78,21 @@ pub struct LeaseNack {
 #[async_trait]
 impl<F: SingletonFactory> Handler<RequestLease> for Manager<F> {
     async fn handle(&mut self, message: RequestLease, ctx: &mut ActorContext) {
-        if !self.state.is_running() {
-            debug!(
-                source_node_id = message.source_node_id,
-                "received RequestLease"
-            );
-
-            self.grant_lease(message.source_node_id, ctx).await;
-        } else {
-            debug!(
-                node_id = self.node_id,
-                singleton = F::Actor::type_name(),
-                "singleton already running, stopping",
-            );
-
-            self.begin_stopping(message.source_node_id, ctx).await;
+        debug!(
+            source_node_id = message.source_node_id,
+            "received RequestLease"
+        );
+
+        match &self.state {
+            State::Joining { .. } | State::Idle => {
+                self.grant_lease(message.source_node_id, ctx).await;
+            }
+
+            State::Starting { .. } | State::Running { .. } | State::Stopping { .. } => {
+                // the lease is granted once this node can no longer be running the singleton
+                self.lease_requested_by.insert(message.source_node_id);
+                self.hand_over(ctx).await;
+            }
         }
     }
 }
@@ -162,10 +162,7 @@ impl<F: SingletonFactory> Manager<F> {
                     "received LeaseAck",
                 );
 
-                // TODO: Can we do it with a quorum rather than *all managers*?
-                if acknowledged_nodes.len() == self.managers.len() {
-                    self.on_all_managers_acknowledged(ctx).await;
-                }
+                self.check_acknowledgements(ctx).await;
             }
 
             state => {
@@ -179,8 +176,30 @@ impl<F: SingletonFactory> Manager<F> {
         }
     }
 
+    pub async fn grant_requested_leases(&mut self, ctx: &ActorContext) {
+        for node_id in std::mem::take(&mut self.lease_requested_by) {
+            self.grant_lease(node_id, ctx).await;
+        }
+    }
+
+    pub async fn check_acknowledgements(&mut self, ctx: &ActorContext) {
+        // TODO: Can we do it with a quorum rather than *all managers*?
+        let all_acknowledged = match &self.state {
+            State::Starting { acknowledged_nodes } => self
+                .managers
+                .keys()
+                .all(|node_id| acknowledged_nodes.contains(node_id)),
+            _ => false,
+        };
+
+        if all_acknowledged && !self.starting_actor {
+            self.on_all_managers_acknowledged(ctx).await;
+        }
+    }
+
     pub async fn on_all_managers_acknowledged(&mut self, ctx: &ActorContext) {
         debug!(node_id = self.node_id, "starting singleton");
+        self.starting_actor = true;
         self.start_actor(ctx).await;
     }
 
diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index 9aad610..f9e3149 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -35,6 +35,8 @@ pub struct Manager<F: SingletonFactory> {
     sys: RemoteActorSystem,
     proxy: LocalActorRef<Proxy<F::Actor>>,
     cluster_up: bool,
+    starting_actor: bool,
+    lease_requested_by: HashSet<NodeId>,
 }
 
 impl<F: SingletonFactory> Manager<F> {
@@ -59,6 +61,8 @@ impl<F: SingletonFactory> Manager<F> {
             sys,
             proxy,
             cluster_up: false,
+            starting_actor: false,
+            lease_requested_by: Default::default(),
         }
     }
 }
@@ -84,7 +88,6 @@ pub enum State<A: Actor> {
     },
     Stopping {
         actor_ref: LocalActorRef<A>,
-        lease_requested_by: NodeId,
     },
 }
 
@@ -127,7 +130,7 @@ impl<A: Actor> State<A> {
 
     pub fn get_actor(&self) -> Option<LocalActorRef<A>> {
         match &self {
-            Self::Running { actor_ref } | Self::Stopping { actor_ref, .. } => {
+            Self::Running { actor_ref } | Self::Stopping { actor_ref } => {
                 Some(actor_ref.clone())
             }
             _ => None,
@@ -199,14 +202,32 @@ impl<F: SingletonFactory> Manager<F> {
         self.request_lease(ctx).await;
     }
 
-    pub async fn begin_stopping(&mut self, node_id: NodeId, ctx: &ActorContext) {
-        let actor_ref = self.state.get_actor();
-        let actor_ref = match actor_ref {
-            Some(actor_ref) => actor_ref,
-            None => return,
+    /// Stops the singleton when another node has requested the lease, unless this node is, as far as
+    /// it knows, still the leader.
+    pub async fn hand_over(&mut self, ctx: &ActorContext) {
+        let actor_ref = match &self.state {
+            State::Running { actor_ref } => actor_ref.clone(),
+            _ => return,
         };
 
-        let _ = actor_ref.notify_stop();
+        if self.lease_requested_by.is_empty() || self.current_leader_node == Some(self.node_id) {
+            return;
+        }
+
+        debug!(
+            node_id = self.node_id,
+            singleton = F::Actor::type_name(),
+            "lease requested by another node, stopping singleton",
+        );
+
+        let manager_ref = self.actor_ref(ctx);
+        let singleton_ref = actor_ref.clone();
+        tokio::spawn(async move {
+            let _ = singleton_ref.stop().await;
+            let _ = manager_ref.notify(ActorStopped);
+        });
+
+        let _ = self.proxy.notify(proxy::SingletonStopping);
         self.notify_managers(
             SingletonStopped {
                 source_node_id: self.node_id,
@@ -215,14 +236,44 @@ impl<F: SingletonFactory> Manager<F> {
         )
         .await;
 
-        self.state = State::Stopping {
-            actor_ref,
-            lease_requested_by: node_id,
-        };
+        self.state = State::Stopping { actor_ref };
     }
 
     pub async fn on_leader_changed(&mut self, new_leader_id: NodeId, ctx: &ActorContext) {
-        if new_leader_id == self.node_id && !self.state.is_running() {
+        self.current_leader_node = Some(new_leader_id);
+
+        match &self.state {
+            State::Idle if new_leader_id == self.node_id => self.begin_starting(ctx).await,
+
+            State::Starting { .. } if new_leader_id != self.node_id && !self.starting_actor => {
+                // it is now up to the new leader to start the singleton
+                self.state = State::Idle;
+                self.grant_requested_leases(ctx).await;
+            }
+
+            _ => self.hand_over(ctx).await,
+        }
+    }
+}
+
+/// The singleton actor of this node has been stopped
+struct ActorStopped;
+
+impl Message for ActorStopped {
+    type Result = ();
+}
+
+#[async_trait]
+impl<F: SingletonFactory> Handler<ActorStopped> for Manager<F> {
+    async fn handle(&mut self, _: ActorStopped, ctx: &mut ActorContext) {
+        if !matches!(&self.state, State::Stopping { .. }) {
+            return;
+        }
+
+        self.state = State::Idle;
+        self.grant_requested_leases(ctx).await;
+
+        if self.current_leader_node == Some(self.node_id) {
             self.begin_starting(ctx).await;
         }
     }
@@ -246,29 +297,6 @@ impl<F: SingletonFactory> Actor for Manager<F> {
             "manager started"
         )
     }
-
-    async fn on_child_stopped(&mut self, id: &ActorId, ctx: &mut ActorContext) {
-        if id != &self.singleton_actor_id {
-            return;
-        }
-
-        match &self.state {
-            State::Running { .. } => {
-                if !ctx.system().is_terminated() {
-                    // TODO: restart actor
-                }
-            }
-
-            State::Stopping {
-                lease_requested_by, ..
-            } => {
-                self.grant_lease(*lease_requested_by, ctx).await;
-                self.state = State::Idle;
-            }
-
-            _ => {}
-        }
-    }
 }
 
 #[async_trait]
@@ -319,6 +347,7 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
                         _ => {}
                     }
 
+                    self.current_leader_node = Some(*leader);
                     if leader == &self.node_id {
                         self.begin_starting(ctx).await;
                     }
@@ -369,16 +398,13 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
 
                 ClusterEvent::NodeRemoved(node) => {
                     self.managers.remove(&node.id);
+                    self.lease_requested_by.remove(&node.id);
 
                     debug!(node_id = node.id, "node removed");
-                    if !self.state.is_joining() {
-                        if let State::Starting { acknowledged_nodes } = &mut self.state {
-                            acknowledged_nodes.remove(&node.id);
+                    if let State::Starting { acknowledged_nodes } = &mut self.state {
+                        acknowledged_nodes.remove(&node.id);
 
-                            if acknowledged_nodes.len() == self.managers.len() {
-                                self.on_all_managers_acknowledged(ctx).await;
-                            }
-                        }
+                        self.check_acknowledgements(ctx).await;
                     }
                 }
 
diff --git a/coerce/src/singleton/manager/start.rs b/coerce/src/singleton/manager/start.rs
index 9fd654a..cd07881 100644
--- a/coerce/src/singleton/manager/start.rs
+++ b/coerce/src/singleton/manager/start.rs
@@ -34,6 +34,8 @@ impl<F: SingletonFactory> Manager<F> {
 #[async_trait]
 impl<F: SingletonFactory> Handler<ActorStartResult<F::Actor>> for Manager<F> {
     async fn handle(&mut self, message: ActorStartResult<F::Actor>, ctx: &mut ActorContext) {
+        self.starting_actor = false;
+
         match message {
             ActorStartResult::Started(actor_ref) => {
                 match &self.state {
@@ -60,6 +62,8 @@ impl<F: SingletonFactory> Handler<ActorStartResult<F::Actor>> for Manager<F> {
                     ctx,
                 )
                 .await;
+
+                self.hand_over(ctx).await;
             }
             ActorStartResult::Failed(e) => {
                 error!(error = format!("{}", e), "singleton actor failed to start")
-- 
2.43.0


From 56a2f6df17131ba97e9e984d0b87f364b5121416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:36:25 +0000
Subject: [PATCH 25/31] fix: a late notice that the singleton stopped does not
 hide the one running elsewhere

---
 coerce/src/singleton/manager/mod.rs   | 9 +++++++++
 coerce/src/singleton/manager/start.rs | 1 +
 2 files changed, 10 insertions(+)

diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index f9e3149..b165842 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -37,6 +37,7 @@ pub struct Manager<F: SingletonFactory> {
     cluster_up: bool,
     starting_actor: bool,
     lease_requested_by: HashSet<NodeId>,
+    singleton_node: Option<NodeId>,
 }
 
 impl<F: SingletonFactory> Manager<F> {
@@ -63,6 +64,7 @@ impl<F: SingletonFactory> Manager<F> {
             cluster_up: false,
             starting_actor: false,
             lease_requested_by: Default::default(),
+            singleton_node: None,
         }
     }
 }
@@ -432,6 +434,8 @@ impl<F: SingletonFactory> Handler<SingletonStarted> for Manager<F> {
             "received started notification, notifying proxy"
         );
 
+        self.singleton_node = Some(message.source_node_id);
+
         let actor_ref = RemoteActorRef::new(
             self.singleton_actor_id.clone(),
             message.source_node_id,
@@ -451,6 +455,11 @@ impl<F: SingletonFactory> Handler<SingletonStopped> for Manager<F> {
             "received stopped notification, notifying proxy"
         );
 
+        if self.singleton_node != Some(message.source_node_id) {
+            // the singleton has since been started on another node
+            return;
+        }
+
         let _ = self.proxy.notify(proxy::SingletonStopping);
     }
 }
diff --git a/coerce/src/singleton/manager/start.rs b/coerce/src/singleton/manager/start.rs
index cd07881..4e17040 100644
--- a/coerce/src/singleton/manager/start.rs
+++ b/coerce/src/singleton/manager/start.rs
@@ -50,6 +50,7 @@ impl<F: SingletonFactory> Handler<ActorStartResult<F::Actor>> for Manager<F> {
                 self.state = State::Running {
                     actor_ref: actor_ref.clone(),
                 };
+                self.singleton_node = Some(self.node_id);
 
                 let _ = self
                     .proxy
-- 
2.43.0


From 05cfe7acd48c4749dcf9a1bc11c7d8d8af417aa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:36:44 +0000
Subject: [PATCH 26/31] fix: a scheduled message cancelled in time is never
 delivered

---
 coerce/src/actor/mod.rs | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/coerce/src/actor/mod.rs b/coerce/src/actor/mod.rs
index 127c387..120cf89 100644
--- a/coerce/src/actor/mod.rs
+++ b/coerce/src/actor/mod.rs
@@ -500,6 +500,8 @@ impl<A: Actor> LocalActorRef<A> {
         let cancellation_token_clone = cancellation_token.clone();
         let _join_handle = tokio::spawn(async move {
             tokio::select! {
+                // a cancellation made in time takes precedence, even if it is noticed late
+                biased;
                 _ = cancellation_token_clone.cancelled() => { }
                 _ = tokio::time::sleep(delay) => {
                     let _ = actor_ref.notify(message);
-- 
2.43.0


From 5ccfdad6ff542676626f64ae7ee7f79e39238960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:15:02 +0000
Subject: [PATCH 27/31] fix: a node whose handshake failed is discovered again
 when it is next seen

---
 coerce/src/remote/cluster/discovery/mod.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/coerce/src/remote/cluster/discovery/mod.rs b/coerce/src/remote/cluster/discovery/mod.rs
index 6642fef..7bf4a42 100644
--- a/coerce/src/remote/cluster/discovery/mod.rs
+++ b/coerce/src/remote/cluster/discovery/mod.rs
@@ -222,6 +222,9 @@ impl Handler<NodeDiscovered> for NodeDiscovery {
                 .await;
             }
         } else {
+            // the node is discovered again when it is next seen
+            self.discovering_nodes.remove(&message.node.id);
+
             // retry handshake etc?
             warn!(
                 "handshake to node (addr={}, id={}) from node_id={} failed",
-- 
2.43.0


From e01c6b00e70d4514d4cb6703728bdfc28397138b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:27:57 +0000
Subject: [PATCH 28/31] fix: describe: honour child_describe_timeout

---
 coerce/src/actor/describe/mod.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/coerce/src/actor/describe/mod.rs b/coerce/src/actor/describe/mod.rs
index 325f7bc..220afe2 100644
--- a/coerce/src/actor/describe/mod.rs
+++ b/coerce/src/actor/describe/mod.rs
@@ -165,11 +165,13 @@ pub async fn describe_all(
             describe
         };
 
-        let timeout = if message.current_depth > 0 {
-            Duration::from_secs(5)
-        } else {
-            Duration::from_secs(10)
-        };
+        let timeout = message.options.child_describe_timeout.unwrap_or({
+            if message.current_depth > 0 {
+                Duration::from_secs(5)
+            } else {
+                Duration::from_secs(10)
+            }
+        });
 
         async move {
             let start = Instant::now();
-- 
2.43.0


From 6d2a52fde2f858724effdd92c48f0197e161220a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:07:16 +0000
Subject: [PATCH 29/31] fix: k8s discovery: containers without ports and pods
 without a status, hostname or subdomain

---
 providers/discovery/coerce-k8s/src/lib.rs | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/providers/discovery/coerce-k8s/src/lib.rs b/providers/discovery/coerce-k8s/src/lib.rs
index a601935..8f5fbf6 100644
--- a/providers/discovery/coerce-k8s/src/lib.rs
+++ b/providers/discovery/coerce-k8s/src/lib.rs
@@ -32,8 +32,10 @@ impl KubernetesDiscovery {
 
             let pods = pods.items;
             for pod in pods {
-                let pod_spec = pod.spec.unwrap();
-                let pod_status = pod.status.unwrap();
+                let (pod_spec, pod_status) = match (pod.spec, pod.status) {
+                    (Some(pod_spec), Some(pod_status)) => (pod_spec, pod_status),
+                    _ => continue,
+                };
 
                 debug!("pod_status={:?}", pod_status);
 
@@ -51,18 +53,23 @@ impl KubernetesDiscovery {
                     }
 
                     Address::Hostname => {
-                        let hostname = pod_spec.hostname.unwrap();
-                        let subdomain = pod_spec.subdomain.unwrap();
+                        let hostname = match pod_spec.hostname {
+                            Some(hostname) => hostname,
+                            None => continue,
+                        };
 
-                        format!("{hostname}.{subdomain}")
+                        match pod_spec.subdomain {
+                            Some(subdomain) => format!("{hostname}.{subdomain}"),
+                            None => hostname,
+                        }
                     }
                 };
 
                 for container in pod_spec.containers {
                     let port = container
                         .ports
-                        .unwrap()
                         .into_iter()
+                        .flatten()
                         .find(|p| p.name == config.coerce_remote_port_name);
                     if let Some(port) = port {
                         cluster_nodes.push(format!("{}:{}", addr, port.container_port));
-- 
2.43.0


From b385913c479bd0e8bf680c5cd78b5498dd368f66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:47:12 +0000
Subject: [PATCH 30/31] fix: singleton: a node removed before the membership is
 announced is not waited for

---
 coerce/src/singleton/manager/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/coerce/src/singleton/manager/mod.rs b/coerce/src/singleton/manager/mod.rs
index b165842..deb9986 100644
--- a/coerce/src/singleton/manager/mod.rs
+++ b/coerce/src/singleton/manager/mod.rs
@@ -38,6 +38,7 @@ pub struct Manager<F: SingletonFactory> {
     starting_actor: bool,
     lease_requested_by: HashSet<NodeId>,
     singleton_node: Option<NodeId>,
+    removed_nodes: HashSet<NodeId>,
 }
 
 impl<F: SingletonFactory> Manager<F> {
@@ -65,6 +66,7 @@ impl<F: SingletonFactory> Manager<F> {
             starting_actor: false,
             lease_requested_by: Default::default(),
             singleton_node: None,
+            removed_nodes: Default::default(),
         }
     }
 }
@@ -322,6 +324,11 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
                             continue;
                         }
 
+                        if self.removed_nodes.contains(&node.id) {
+                            // removed since the list of nodes of this event was made
+                            continue;
+                        }
+
                         self.managers.insert(
                             node.id,
                             RemoteActorRef::new(
@@ -363,6 +370,7 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
 
                 ClusterEvent::NodeAdded(node) => {
                     debug!(node_id = node.id, "node added");
+                    self.removed_nodes.remove(&node.id);
 
                     if node.id != self.node_id && self.selector.includes(node.as_ref()) {
                         let mut entry = self.managers.entry(node.id);
@@ -400,6 +408,7 @@ impl<F: SingletonFactory> Handler<Receive<SystemTopic>> for Manager<F> {
 
                 ClusterEvent::NodeRemoved(node) => {
                     self.managers.remove(&node.id);
+                    self.removed_nodes.insert(node.id);
                     self.lease_requested_by.remove(&node.id);
 
                     debug!(node_id = node.id, "node removed");
-- 
2.43.0


From 5079fa2c1512a2fcb08b1b698080fa122b1cbae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:35:12 +0000
Subject: [PATCH 31/31] fix: a lost connection to another name of a node is not
 taken for the loss of the node

---
 coerce/src/remote/actor/clients.rs         | 22 ++++++++++++++++++----
 coerce/src/remote/cluster/discovery/mod.rs |  5 +++++
 coerce/src/remote/net/client/connect.rs    |  1 +
 coerce/src/remote/net/client/mod.rs        |  2 ++
 coerce/src/remote/net/client/ping.rs       |  3 ++-
 5 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/coerce/src/remote/actor/clients.rs b/coerce/src/remote/actor/clients.rs
index b494f3c..ac2640d 100644
--- a/coerce/src/remote/actor/clients.rs
+++ b/coerce/src/remote/actor/clients.rs
@@ -73,12 +73,15 @@ impl Handler<NewClient> for RemoteClientRegistry {
 #[async_trait]
 impl Handler<RemoveClient> for RemoteClientRegistry {
     async fn handle(&mut self, message: RemoveClient, _: &mut ActorContext) {
-        if let Some(node_id) = message.node_id {
-            self.node_id_registry.remove(&node_id);
+        let client = self.node_addr_registry.remove(&message.addr);
+        if let (Some(node_id), Some(client)) = (message.node_id, client) {
+            // the node may have been reached through another client
+            let registered = self.node_id_registry.get(&node_id);
+            if registered.map_or(false, |c| c.actor_id() == client.actor_id()) {
+                self.node_id_registry.remove(&node_id);
+            }
         }
 
-        self.node_addr_registry.remove(&message.addr);
-
         debug!(
             addr = &message.addr,
             node_id = &message.node_id,
@@ -90,6 +93,17 @@ impl Handler<RemoveClient> for RemoteClientRegistry {
 #[async_trait]
 impl Handler<ClientConnected> for RemoteClientRegistry {
     async fn handle(&mut self, message: ClientConnected, _ctx: &mut ActorContext) {
+        // a client connected to the node's own address is kept, rather than
+        // one that reached the node by another name
+        if let (Some(registered), Some(own)) = (
+            self.node_id_registry.get(&message.remote_node_id),
+            self.node_addr_registry.get(&message.addr),
+        ) {
+            if registered.actor_id() == own.actor_id() {
+                return;
+            }
+        }
+
         self.node_id_registry
             .insert(message.remote_node_id, message.client_actor_ref);
     }
diff --git a/coerce/src/remote/cluster/discovery/mod.rs b/coerce/src/remote/cluster/discovery/mod.rs
index 7bf4a42..6cfc54c 100644
--- a/coerce/src/remote/cluster/discovery/mod.rs
+++ b/coerce/src/remote/cluster/discovery/mod.rs
@@ -177,6 +177,11 @@ impl Handler<Forget> for NodeDiscovery {
                 &identity.node.addr, identity.node.id
             );
 
+            if identity.node.addr != message.0 {
+                // only another name for the node is lost, not the node
+                return;
+            }
+
             let node = self.discovered_nodes_by_id.remove(&identity.node.id);
             if let Some(node) = node {
                 if let Some(system) = self.remote_system.as_ref() {
diff --git a/coerce/src/remote/net/client/connect.rs b/coerce/src/remote/net/client/connect.rs
index a694e4f..bf14fdf 100644
--- a/coerce/src/remote/net/client/connect.rs
+++ b/coerce/src/remote/net/client/connect.rs
@@ -149,6 +149,7 @@ impl Handler<Connect> for RemoteClient {
             }
 
             self.node_id = Some(connection_state.identity.node.id);
+            self.is_alias = connection_state.identity.node.addr != self.addr;
             self.state = Some(ClientState::Connected(connection_state));
 
             debug!("RemoteClient connected to node (addr={})", &self.addr);
diff --git a/coerce/src/remote/net/client/mod.rs b/coerce/src/remote/net/client/mod.rs
index 63cf009..a76c2af 100644
--- a/coerce/src/remote/net/client/mod.rs
+++ b/coerce/src/remote/net/client/mod.rs
@@ -35,6 +35,7 @@ pub mod send;
 pub struct RemoteClient {
     addr: String,
     node_id: Option<NodeId>,
+    is_alias: bool,
     client_type: ClientType,
     state: Option<ClientState>,
     stop: Option<Sender<bool>>,
@@ -70,6 +71,7 @@ impl RemoteClient {
             addr,
             client_type,
             node_id: None,
+            is_alias: false,
             stop: None,
             state: Some(ClientState::Idle {
                 connection_attempts: 0,
diff --git a/coerce/src/remote/net/client/ping.rs b/coerce/src/remote/net/client/ping.rs
index 662340c..5ef206a 100644
--- a/coerce/src/remote/net/client/ping.rs
+++ b/coerce/src/remote/net/client/ping.rs
@@ -37,7 +37,8 @@ impl Handler<PingTick> for RemoteClient {
             match state {
                 ClientState::Connected(state) => state.identity.node.id,
                 _ => {
-                    if let Some(node_id) = self.node_id {
+                    // another client is connected to the node's own address
+                    if let Some(node_id) = self.node_id.filter(|_| !self.is_alias) {
                         let _ = heartbeat.notify(NodePing(node_id, PingResult::Disconnected));
                     }
 
-- 
2.43.0

