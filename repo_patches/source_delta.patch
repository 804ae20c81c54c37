From eafca706046a0d807e5e39e0c3d998f91672c196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:39:54 +0000
Subject: [PATCH 01/33] sim: add seams for deterministic simulation behind
 --cfg clickhouse_sim

---
 src/connecting_stream.rs          |   4 +-
 src/io/stream.rs                  |   6 +-
 src/io/transport.rs               |  11 +-
 src/lib.rs                        |   4 +
 src/pool/mod.rs                   |   8 +-
 src/sim.rs                        | 291 ++++++++++++++++++++++++++++++
 src/types/block/chunk_iterator.rs |   2 +
 7 files changed, 318 insertions(+), 8 deletions(-)
 create mode 100644 src/sim.rs

diff --git a/src/connecting_stream.rs b/src/connecting_stream.rs
index cab0132..0d4ec41 100644
--- a/src/connecting_stream.rs
+++ b/src/connecting_stream.rs
@@ -13,7 +13,9 @@ use futures_util::FutureExt;
 use async_std::net::TcpStream;
 #[cfg(feature = "tls")]
 use native_tls::TlsConnector;
-#[cfg(feature = "tokio_io")]
+#[cfg(clickhouse_sim)]
+use crate::sim::TcpStream;
+#[cfg(all(feature = "tokio_io", not(clickhouse_sim)))]
 use tokio::net::TcpStream;
 
 use pin_project::pin_project;
diff --git a/src/io/stream.rs b/src/io/stream.rs
index 14a4d45..e5f80c3 100644
--- a/src/io/stream.rs
+++ b/src/io/stream.rs
@@ -5,8 +5,12 @@ use std::{
     time::Duration,
 };
 
+#[cfg(clickhouse_sim)]
+use crate::sim::TcpStream;
 #[cfg(feature = "tokio_io")]
-use tokio::{io::ReadBuf, net::TcpStream};
+use tokio::io::ReadBuf;
+#[cfg(all(feature = "tokio_io", not(clickhouse_sim)))]
+use tokio::net::TcpStream;
 #[cfg(feature = "tls")]
 use tokio_native_tls::TlsStream;
 
diff --git a/src/io/transport.rs b/src/io/transport.rs
index 75f8f0e..57f76d0 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -3,14 +3,15 @@ use std::{
     io::{self, Cursor},
     pin::Pin,
     ptr,
-    sync::{
-        self,
-        atomic::{AtomicBool, Ordering},
-        Arc,
-    },
+    sync::{self, atomic::Ordering, Arc},
     task::{self, Poll},
 };
 
+#[cfg(clickhouse_sim)]
+use crate::sim::atomic::AtomicBool;
+#[cfg(not(clickhouse_sim))]
+use std::sync::atomic::AtomicBool;
+
 use chrono_tz::Tz;
 use log::trace;
 
diff --git a/src/lib.rs b/src/lib.rs
index c475868..4eb8cb7 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -107,6 +107,7 @@
 //! ```
 
 #![recursion_limit = "1024"]
+#![allow(unexpected_cfgs)]
 
 use std::{fmt, future::Future, time::Duration};
 
@@ -142,6 +143,9 @@ mod io;
 /// Pool types.
 pub mod pool;
 mod retry_guard;
+#[cfg(clickhouse_sim)]
+#[doc(hidden)]
+pub mod sim;
 /// Clickhouse types.
 pub mod types;
 
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index 5d94fa0..bcb71f2 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -1,11 +1,17 @@
 use std::{
     fmt, mem,
     pin::Pin,
-    sync::atomic::{self, Ordering},
+    sync::atomic::Ordering,
     sync::Arc,
     task::{Context, Poll, Waker},
 };
 
+#[cfg(not(clickhouse_sim))]
+use std::sync::atomic;
+
+#[cfg(clickhouse_sim)]
+use crate::sim::{atomic, crossbeam};
+
 use futures_util::future::BoxFuture;
 use log::{error, warn};
 
diff --git a/src/sim.rs b/src/sim.rs
new file mode 100644
index 0000000..acd56fa
--- /dev/null
+++ b/src/sim.rs
@@ -0,0 +1,291 @@
+//! Seams for deterministic simulation.
+//!
+//! This module only exists when the crate is built with `--cfg clickhouse_sim`.
+//! It replaces the TCP stream, the queues and the atomics that the crate shares
+//! between threads by versions that defer to hooks installed by a simulator.
+//! Without that flag nothing in here is compiled.
+#![allow(missing_docs, dead_code, unused_imports, clippy::all)]
+
+use std::{
+    future::Future,
+    io,
+    net::SocketAddr,
+    pin::Pin,
+    sync::OnceLock,
+    task::{Context, Poll},
+};
+
+use tokio::io::{AsyncRead, AsyncWrite, ReadBuf};
+
+/// A simulated, connected socket. Dropping it closes the connection.
+pub trait Socket: Send + Sync {
+    fn poll_read(&self, cx: &mut Context<'_>, buf: &mut [u8]) -> Poll<io::Result<usize>>;
+    fn poll_write(&self, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>>;
+    fn shutdown(&self) -> io::Result<()>;
+    fn set_nodelay(&self, nodelay: bool) -> io::Result<()>;
+}
+
+pub type ConnectFuture = Pin<Box<dyn Future<Output = io::Result<Box<dyn Socket>>> + Send>>;
+
+/// What a simulator has to provide.
+pub trait Hooks: Send + Sync {
+    fn connect(&self, addr: SocketAddr) -> ConnectFuture;
+    /// Called before every operation on shared memory: another thread may run here.
+    fn sched_point(&self, what: &'static str);
+    /// The number of rows per inserted block (`default` in production).
+    fn chunk_size(&self, default: usize) -> usize;
+}
+
+static HOOKS: OnceLock<&'static dyn Hooks> = OnceLock::new();
+
+/// Installs the simulator. May be called once per process.
+pub fn install(hooks: &'static dyn Hooks) {
+    let _ = HOOKS.set(hooks);
+}
+
+fn hooks() -> &'static dyn Hooks {
+    *HOOKS.get().expect("no simulator installed")
+}
+
+pub(crate) fn sched_point(what: &'static str) {
+    if let Some(hooks) = HOOKS.get() {
+        hooks.sched_point(what)
+    }
+}
+
+pub(crate) fn chunk_size(default: usize) -> usize {
+    HOOKS.get().map_or(default, |hooks| hooks.chunk_size(default))
+}
+
+/// Stands in for `tokio::net::TcpStream`.
+pub struct TcpStream {
+    socket: Box<dyn Socket>,
+}
+
+impl TcpStream {
+    pub async fn connect(addr: SocketAddr) -> io::Result<Self> {
+        let socket = hooks().connect(addr).await?;
+        Ok(Self { socket })
+    }
+
+    pub fn set_nodelay(&self, nodelay: bool) -> io::Result<()> {
+        self.socket.set_nodelay(nodelay)
+    }
+}
+
+impl AsyncRead for TcpStream {
+    fn poll_read(
+        self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &mut ReadBuf<'_>,
+    ) -> Poll<io::Result<()>> {
+        match self.socket.poll_read(cx, buf.initialize_unfilled()) {
+            Poll::Ready(Ok(n)) => {
+                buf.advance(n);
+                Poll::Ready(Ok(()))
+            }
+            Poll::Ready(Err(err)) => Poll::Ready(Err(err)),
+            Poll::Pending => Poll::Pending,
+        }
+    }
+}
+
+impl AsyncWrite for TcpStream {
+    fn poll_write(
+        self: Pin<&mut Self>,
+        cx: &mut Context<'_>,
+        buf: &[u8],
+    ) -> Poll<io::Result<usize>> {
+        self.socket.poll_write(cx, buf)
+    }
+
+    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Poll::Ready(Ok(()))
+    }
+
+    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
+        Poll::Ready(self.socket.shutdown())
+    }
+}
+
+/// Stands in for `std::sync::atomic`.
+pub mod atomic {
+    pub use std::sync::atomic::*;
+
+    use super::sched_point;
+
+    macro_rules! atomic {
+        ($name:ident, $t:ty $(, $extra:ident)*) => {
+            #[derive(Debug, Default)]
+            pub struct $name(std::sync::atomic::$name);
+
+            impl $name {
+                pub const fn new(value: $t) -> Self {
+                    Self(std::sync::atomic::$name::new(value))
+                }
+
+                pub fn load(&self, order: Ordering) -> $t {
+                    sched_point("load");
+                    self.0.load(order)
+                }
+
+                pub fn store(&self, value: $t, order: Ordering) {
+                    sched_point("store");
+                    self.0.store(value, order)
+                }
+
+                pub fn swap(&self, value: $t, order: Ordering) -> $t {
+                    sched_point("swap");
+                    self.0.swap(value, order)
+                }
+
+                pub fn compare_exchange(
+                    &self,
+                    current: $t,
+                    new: $t,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$t, $t> {
+                    sched_point("compare_exchange");
+                    self.0.compare_exchange(current, new, success, failure)
+                }
+
+                pub fn compare_exchange_weak(
+                    &self,
+                    current: $t,
+                    new: $t,
+                    success: Ordering,
+                    failure: Ordering,
+                ) -> Result<$t, $t> {
+                    sched_point("compare_exchange");
+                    self.0.compare_exchange(current, new, success, failure)
+                }
+
+                pub fn fetch_update<F>(
+                    &self,
+                    set: Ordering,
+                    fetch: Ordering,
+                    f: F,
+                ) -> Result<$t, $t>
+                where
+                    F: FnMut($t) -> Option<$t>,
+                {
+                    sched_point("fetch_update");
+                    self.0.fetch_update(set, fetch, f)
+                }
+
+                pub fn get_mut(&mut self) -> &mut $t {
+                    self.0.get_mut()
+                }
+
+                pub fn into_inner(self) -> $t {
+                    self.0.into_inner()
+                }
+
+                $(
+                    pub fn $extra(&self, value: $t, order: Ordering) -> $t {
+                        sched_point(stringify!($extra));
+                        self.0.$extra(value, order)
+                    }
+                )*
+            }
+        };
+    }
+
+    atomic!(AtomicBool, bool, fetch_and, fetch_or, fetch_xor, fetch_nand);
+    atomic!(
+        AtomicUsize, usize, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max,
+        fetch_min
+    );
+    atomic!(
+        AtomicIsize, isize, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max,
+        fetch_min
+    );
+    atomic!(
+        AtomicU64, u64, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min
+    );
+    atomic!(
+        AtomicU32, u32, fetch_add, fetch_sub, fetch_and, fetch_or, fetch_xor, fetch_max, fetch_min
+    );
+}
+
+/// Stands in for the `crossbeam` crate.
+pub mod crossbeam {
+    pub use ::crossbeam::*;
+
+    pub mod queue {
+        pub use ::crossbeam::queue::*;
+
+        use super::super::sched_point;
+
+        pub struct ArrayQueue<T>(::crossbeam::queue::ArrayQueue<T>);
+
+        impl<T> ArrayQueue<T> {
+            pub fn new(cap: usize) -> Self {
+                Self(::crossbeam::queue::ArrayQueue::new(cap))
+            }
+
+            pub fn push(&self, value: T) -> Result<(), T> {
+                sched_point("push");
+                self.0.push(value)
+            }
+
+            pub fn force_push(&self, value: T) -> Option<T> {
+                sched_point("force_push");
+                self.0.force_push(value)
+            }
+
+            pub fn pop(&self) -> Option<T> {
+                sched_point("pop");
+                self.0.pop()
+            }
+
+            pub fn capacity(&self) -> usize {
+                self.0.capacity()
+            }
+
+            pub fn is_empty(&self) -> bool {
+                sched_point("is_empty");
+                self.0.is_empty()
+            }
+
+            pub fn is_full(&self) -> bool {
+                sched_point("is_full");
+                self.0.is_full()
+            }
+
+            pub fn len(&self) -> usize {
+                sched_point("len");
+                self.0.len()
+            }
+        }
+
+        pub struct SegQueue<T>(::crossbeam::queue::SegQueue<T>);
+
+        impl<T> SegQueue<T> {
+            pub const fn new() -> Self {
+                Self(::crossbeam::queue::SegQueue::new())
+            }
+
+            pub fn push(&self, value: T) {
+                sched_point("push");
+                self.0.push(value)
+            }
+
+            pub fn pop(&self) -> Option<T> {
+                sched_point("pop");
+                self.0.pop()
+            }
+
+            pub fn is_empty(&self) -> bool {
+                sched_point("is_empty");
+                self.0.is_empty()
+            }
+
+            pub fn len(&self) -> usize {
+                sched_point("len");
+                self.0.len()
+            }
+        }
+    }
+}
diff --git a/src/types/block/chunk_iterator.rs b/src/types/block/chunk_iterator.rs
index a225554..f679c81 100644
--- a/src/types/block/chunk_iterator.rs
+++ b/src/types/block/chunk_iterator.rs
@@ -39,6 +39,8 @@ impl<K: ColumnType> Iterator for ChunkIterator<K> {
 
 impl<K: ColumnType> ChunkIterator<K> {
     pub fn new(size: usize, block: Block<K>) -> ChunkIterator<K> {
+        #[cfg(clickhouse_sim)]
+        let size = crate::sim::chunk_size(size);
         ChunkIterator {
             position: 0,
             size,
-- 
2.43.0


From 3928b4b538d319c7d12ab502aca126be77fbaa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:19 +0000
Subject: [PATCH 02/33] fix: do not panic when a handle is used without a pool
 or after a failed operation

Attaching or detaching a handle that had no pool (Client::connect) or that a failed
or cancelled operation had left detached ended in unreachable!().
---
 src/pool/mod.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index bcb71f2..e85eec0 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -88,16 +88,20 @@ impl PoolBinding {
     }
 
     pub(crate) fn attach(&mut self) {
-        match self.take() {
-            PoolBinding::Detached(pool) => *self = PoolBinding::Attached(pool),
-            _ => unreachable!(),
+        *self = match self.take() {
+            PoolBinding::Attached(pool) | PoolBinding::Detached(pool) => {
+                PoolBinding::Attached(pool)
+            }
+            PoolBinding::None => PoolBinding::None,
         }
     }
 
     pub(crate) fn detach(&mut self) {
-        match self.take() {
-            PoolBinding::Attached(pool) => *self = PoolBinding::Detached(pool),
-            _ => unreachable!(),
+        *self = match self.take() {
+            PoolBinding::Attached(pool) | PoolBinding::Detached(pool) => {
+                PoolBinding::Detached(pool)
+            }
+            PoolBinding::None => PoolBinding::None,
         }
     }
 }
-- 
2.43.0


From dbd4429c51c6c5bd991c283795b26a6b0516b38d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:19 +0000
Subject: [PATCH 03/33] fix: report an error instead of panicking when the
 server closes the connection

A connection that the server closed in the middle of a handshake, statement or insert
ended in a panic (unwrap of None).
---
 src/io/transport.rs |  9 ++++++---
 src/lib.rs          | 15 ++++++++++-----
 2 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 57f76d0..82499b0 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -19,7 +19,7 @@ use pin_project::pin_project;
 
 use crate::{
     binary::Parser,
-    errors::{DriverError, Error, Result},
+    errors::{ConnectionError, DriverError, Error, Result},
     io::{read_to_end::read_to_end, Stream as InnerStream},
     pool::{Inner, Pool},
     types::{Block, Cmd, Packet},
@@ -120,7 +120,7 @@ impl ClickhouseTransport {
             }
         }
 
-        let mut transport = h.unwrap();
+        let mut transport = h.ok_or(Error::Connection(ConnectionError::Broken))?;
         transport.inconsistent = false;
         Ok(transport)
     }
@@ -317,7 +317,10 @@ impl PacketStream {
             }
         }
 
-        Ok((h.unwrap(), b))
+        match h {
+            Some(h) => Ok((h, b)),
+            None => Err(Error::Connection(ConnectionError::Broken)),
+        }
     }
 
     pub(crate) fn take_transport(&mut self) -> Option<ClickhouseTransport> {
diff --git a/src/lib.rs b/src/lib.rs
index 4eb8cb7..611f8bf 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -327,9 +327,14 @@ impl ClientHandle {
             }
         }
 
-        self.inner = h;
-        self.context.server_info = info.unwrap();
-        Ok(())
+        match info {
+            Some(info) if h.is_some() => {
+                self.inner = h;
+                self.context.server_info = info;
+                Ok(())
+            }
+            _ => Err(Error::Connection(ConnectionError::Broken)),
+        }
     }
 
     pub async fn ping(&mut self) -> Result<()> {
@@ -426,7 +431,7 @@ impl ClientHandle {
                             }
                         }
 
-                        Ok(h.unwrap())
+                        h.ok_or(Error::Connection(ConnectionError::Broken))
                     }
                 })
                 .await
@@ -502,7 +507,7 @@ impl ClientHandle {
     ) -> Result<(ClickhouseTransport, Block)> {
         let stream = transport.call(Cmd::SendQuery(query, context));
         let (transport, b) = stream.read_block().await?;
-        let dst_block = b.unwrap();
+        let dst_block = b.ok_or(Error::Driver(DriverError::UnexpectedPacket))?;
         Ok((transport, dst_block))
     }
 
-- 
2.43.0


From 939c5f5cda6a57abc615106f0f02ac95f810833b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:19 +0000
Subject: [PATCH 04/33] fix: read what the server sent before it closed the
 connection

Packets that arrived together with the end of the stream (an exception, typically) were
thrown away.
---
 src/io/transport.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 82499b0..e2db03e 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -287,7 +287,7 @@ impl Stream for ClickhouseTransport {
             }
         }
 
-        if *this.done {
+        if *this.done && this.rd.is_empty() {
             return Poll::Ready(None);
         }
 
@@ -296,6 +296,10 @@ impl Stream for ClickhouseTransport {
 
         *this.buf_is_incomplete = matches!(ret, Poll::Pending);
 
+        if *this.done && *this.buf_is_incomplete {
+            return Poll::Ready(None);
+        }
+
         ret
     }
 }
-- 
2.43.0


From 6e236a2748b9da9d6c87b772616c13d9f268e226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:19 +0000
Subject: [PATCH 05/33] fix: do not keep a connection whose stream failed

After an I/O error, an unreadable or an unexpected packet the broken transport went back
to its handle, and with it to the pool.
---
 src/types/query_result/stream_blocks.rs | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/types/query_result/stream_blocks.rs b/src/types/query_result/stream_blocks.rs
index 83f6103..4e800b0 100644
--- a/src/types/query_result/stream_blocks.rs
+++ b/src/types/query_result/stream_blocks.rs
@@ -86,7 +86,10 @@ impl<'a> Stream for BlockStream<'a> {
             };
 
             let packet = match self.inner.poll_next_unpin(cx) {
-                Poll::Ready(Some(Err(err))) => return Poll::Ready(Some(Err(err.into()))),
+                Poll::Ready(Some(Err(err))) => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(err.into())));
+                }
                 Poll::Pending => return Poll::Pending,
                 Poll::Ready(None) => {
                     self.state = BlockStreamState::Error;
@@ -116,7 +119,10 @@ impl<'a> Stream for BlockStream<'a> {
                         return Poll::Ready(Some(Ok(block)));
                     }
                 }
-                _ => return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket)))),
+                _ => {
+                    self.state = BlockStreamState::Error;
+                    return Poll::Ready(Some(Err(Error::Driver(DriverError::UnexpectedPacket))));
+                }
             }
         }
     }
-- 
2.43.0


From 237cdbf3a9d1863a460b391e1073e9d547959399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:26:19 +0000
Subject: [PATCH 06/33] fix: do not report the exception of an abandoned query
 to the next operation

---
 src/io/transport.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index e2db03e..6d6c489 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -114,7 +114,11 @@ impl ClickhouseTransport {
                     h = Some(inner);
                 }
                 Ok(Packet::Eof(inner)) => h = Some(inner),
-                Ok(Packet::Exception(e)) => return Err(Error::Server(e)),
+                Ok(Packet::Exception(_)) => {
+                    // ends the abandoned statement, says nothing about the next one
+                    h = stream.take_transport();
+                    break;
+                }
                 Err(e) => return Err(Error::Io(e)),
                 _ => {}
             }
-- 
2.43.0


From 57e6b58ea862d411158aae989fd5df05974f856a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:01 +0000
Subject: [PATCH 07/33] fix: skip the rest of an abandoned reply before a query
 without ping

With ping_before_query=false a query that followed an abandoned stream read the
packets of the abandoned one as its own.
---
 src/lib.rs | 39 ++++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 611f8bf..69491bb 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -559,25 +559,30 @@ impl ClientHandle {
             Err(err) => return Box::pin(stream::once(future::err(err))),
         };
 
-        if ping_before_query {
-            let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
-                let inner: BoxStream<'a, Result<Block>> = match self.check_connection().await {
-                    Ok(_) => match f(self) {
-                        Ok(s) => Box::pin(s),
-                        Err(err) => Box::pin(stream::once(future::err(err))),
-                    },
+        let fut: BoxFuture<'a, BoxStream<'a, Result<Block>>> = Box::pin(async move {
+            let ready = if ping_before_query {
+                self.check_connection().await
+            } else {
+                self.clear_connection().await
+            };
+            let inner: BoxStream<'a, Result<Block>> = match ready {
+                Ok(_) => match f(self) {
+                    Ok(s) => Box::pin(s),
                     Err(err) => Box::pin(stream::once(future::err(err))),
-                };
-                inner
-            });
-
-            Box::pin(fut.flatten_stream())
-        } else {
-            match f(self) {
-                Ok(s) => Box::pin(s),
+                },
                 Err(err) => Box::pin(stream::once(future::err(err))),
-            }
-        }
+            };
+            inner
+        });
+
+        Box::pin(fut.flatten_stream())
+    }
+
+    /// Reads what is left of the reply to an abandoned query.
+    async fn clear_connection(&mut self) -> Result<()> {
+        let transport = self.get_inner()?.clear().await?;
+        self.inner = Some(transport);
+        Ok(())
     }
 
     /// Check connection and try to reconnect if necessary.
-- 
2.43.0


From 81e471504e6ca78d01582e93e7ce6e2c623c35f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:01 +0000
Subject: [PATCH 08/33] fix: fetch_all of a reply without blocks gives an empty
 block instead of a panic

---
 src/types/block/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index 4ab5446..bd3df90 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -276,7 +276,16 @@ impl<K: ColumnType> Block<K> {
 
 impl Block<Simple> {
     pub(crate) fn concat(blocks: &[Self]) -> Block<Complex> {
-        let first = blocks.first().expect("blocks should not be empty.");
+        let first = match blocks.first() {
+            Some(first) => first,
+            None => {
+                return Block {
+                    info: Default::default(),
+                    columns: vec![],
+                    capacity: 0,
+                }
+            }
+        };
 
         for block in blocks {
             assert_eq!(
-- 
2.43.0


From 8ccca54c9013c1013985afde29b706e64b73f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:01 +0000
Subject: [PATCH 09/33] fix: insert the right elements of arrays and maps in
 all chunks of a large block

From the second chunk on, offsets counted from the start of the whole column, and the
elements sent were those of the first rows.
---
 src/types/column/array.rs | 10 +++++++---
 src/types/column/map.rs   | 12 ++++++++----
 2 files changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index b083012..e7d2a75 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -49,14 +49,18 @@ impl ColumnData for ArrayColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        let first = match start {
+            0 => 0_u64,
+            _ => self.offsets.at(start - 1),
+        };
+        let mut offset = first;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - first);
         }
 
-        self.inner.save(encoder, 0, offset as usize);
+        self.inner.save(encoder, first as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 73e014a..beff2c2 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -54,15 +54,19 @@ impl ColumnData for MapColumnData {
     }
 
     fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
-        let mut offset = 0_u64;
+        let first = match start {
+            0 => 0_u64,
+            _ => self.offsets.at(start - 1),
+        };
+        let mut offset = first;
 
         for i in start..end {
             offset = self.offsets.at(i);
-            encoder.write(offset);
+            encoder.write(offset - first);
         }
 
-        self.keys.save(encoder, 0, offset as usize);
-        self.values.save(encoder, 0, offset as usize);
+        self.keys.save(encoder, first as usize, offset as usize);
+        self.values.save(encoder, first as usize, offset as usize);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 804bdcbbe9c0cf0c280b76774742700741ef9d64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:01 +0000
Subject: [PATCH 10/33] fix: end the insert of an empty block only once

The empty block itself ends the insert; the one sent after it made the server close
the connection.
---
 src/lib.rs | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index 69491bb..ec6aebb 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -516,10 +516,16 @@ impl ClientHandle {
         context: Context,
         block: Block,
     ) -> Result<ClickhouseTransport> {
-        let send_cmd = Cmd::Union(
-            Box::new(Cmd::SendData(block, context.clone())),
-            Box::new(Cmd::SendData(Block::default(), context)),
-        );
+        let send_end = Cmd::SendData(Block::default(), context.clone());
+        let send_cmd = if block.is_empty() {
+            // a second empty block would not belong to this insert any more
+            send_end
+        } else {
+            Cmd::Union(
+                Box::new(Cmd::SendData(block, context)),
+                Box::new(send_end),
+            )
+        };
         let (transport, _) = transport.call(send_cmd).read_block().await?;
         Ok(transport)
     }
-- 
2.43.0


From 4ad3934b71bd8dc36d63cbf56e5fa4614088d011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:27:01 +0000
Subject: [PATCH 11/33] fix: a timeout of None does not end operations at once

insert_timeout=none and execute_timeout=none mean that there is no limit; they were
taken for a limit of zero.
---
 src/lib.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index ec6aebb..6b78b43 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -402,7 +402,7 @@ impl ClientHandle {
     {
         let timeout = try_opt!(self.context.options.get())
             .execute_timeout
-            .unwrap_or_else(|| Duration::from_secs(0));
+            .unwrap_or(NO_TIMEOUT);
         let context = self.context.clone();
         let query = Query::from(sql);
         with_timeout(
@@ -456,7 +456,7 @@ impl ClientHandle {
     async fn insert_(&mut self, query: Query, block: &Block) -> Result<ClickhouseTransport> {
         let timeout = try_opt!(self.context.options.get())
             .insert_timeout
-            .unwrap_or_else(|| Duration::from_secs(0));
+            .unwrap_or(NO_TIMEOUT);
 
         let context = self.context.clone();
 
@@ -627,6 +627,9 @@ impl ClientHandle {
     }
 }
 
+/// Longer than any operation takes.
+const NO_TIMEOUT: Duration = Duration::from_secs(60 * 60 * 24 * 365 * 30);
+
 fn column_name_to_string(name: &str) -> Result<String> {
     if name.chars().all(|ch| ch.is_numeric()) {
         return Ok(name.to_string());
-- 
2.43.0


From 9f2ae61f283236a97735b195a6745a9b6dcbe292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:28:44 +0000
Subject: [PATCH 12/33] fix: iterate over dates without shifting them by the
 time zone of the server

With a server west of Greenwich every Date of a column iterator was one day early.
---
 src/types/column/iter/mod.rs | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index f34956f..5eb54de 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -186,7 +186,6 @@ pub struct DateIterator<'a> {
     ptr: *const u16,
     index: usize,
     len: usize,
-    tz: Tz,
     _marker: marker::PhantomData<&'a ()>,
 }
 
@@ -455,11 +454,9 @@ impl<'a> DateIterator<'a> {
         let current_value = *self.ptr.add(index);
         self.index += 1;
 
-        let time = self
-            .tz
-            .timestamp_opt(i64::from(current_value) * 24 * 3600, 0)
-            .unwrap();
-        time.date_naive()
+        NaiveDateTime::from_timestamp_opt(i64::from(current_value) * 24 * 3600, 0)
+            .unwrap()
+            .date()
     }
 
     #[inline(always)]
@@ -1182,7 +1179,6 @@ impl<'a> Iterable<'a, Simple> for NaiveDate {
             index: 0,
             ptr: dt_inter.begin as *const u16,
             len,
-            tz: dt_inter.tz,
             _marker: marker::PhantomData,
         })
     }
-- 
2.43.0


From 63bba656ffe209e68037f8546075014e4829ee3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:31:20 +0000
Subject: [PATCH 13/33] fix: read an exception packet to its end

The flag for nested exceptions stayed in the buffer and was taken for the next packet
when the connection was used further after an abandoned query had failed.
---
 src/binary/parser.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/binary/parser.rs b/src/binary/parser.rs
index 0209f80..fd32faf 100644
--- a/src/binary/parser.rs
+++ b/src/binary/parser.rs
@@ -170,6 +170,15 @@ impl<'i, T: Read> Parser<'i, T> {
             stack_trace: self.reader.read_string()?,
         };
 
+        let mut has_nested: u8 = self.reader.read_scalar()?;
+        while has_nested != 0 {
+            let _code: u32 = self.reader.read_scalar()?;
+            for _ in 0..3 {
+                self.reader.skip_string()?;
+            }
+            has_nested = self.reader.read_scalar()?;
+        }
+
         warn!("server exception: {:?}", exception);
         Ok(Packet::Exception(exception))
     }
-- 
2.43.0


From ea682c9c9952a8b5873d0874d8066100f143aa9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:07 +0000
Subject: [PATCH 14/33] fix: serve all tasks that wait for a connection, and
 keep to pool_max

A task that waited while another one was opening a connection was never
woken up if that attempt failed or was abandoned. A connection returned
between the check for an idle one and the registration of the task was
missed. Concurrent tasks could open more than pool_max connections, and
then panicked when the idle queue was full.
---
 src/pool/futures/get_handle.rs |  11 ++-
 src/pool/mod.rs                | 144 +++++++++++++++++++++++++--------
 2 files changed, 121 insertions(+), 34 deletions(-)

diff --git a/src/pool/futures/get_handle.rs b/src/pool/futures/get_handle.rs
index df584e8..53d24b8 100644
--- a/src/pool/futures/get_handle.rs
+++ b/src/pool/futures/get_handle.rs
@@ -4,12 +4,12 @@ use std::{
     task::{Context, Poll},
 };
 
-use pin_project::pin_project;
+use pin_project::{pin_project, pinned_drop};
 
 use crate::{errors::Result, pool::Pool, ClientHandle};
 
 /// Future that resolves to a `ClientHandle`.
-#[pin_project]
+#[pin_project(PinnedDrop)]
 pub struct GetHandle {
     #[pin]
     pool: Pool,
@@ -28,3 +28,10 @@ impl Future for GetHandle {
         self.project().pool.poll(cx)
     }
 }
+
+#[pinned_drop]
+impl PinnedDrop for GetHandle {
+    fn drop(self: Pin<&mut Self>) {
+        self.pool.abandon();
+    }
+}
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index e85eec0..abd32aa 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -27,11 +27,17 @@ use url::Url;
 
 mod futures;
 
+const CONNECTING: usize = 1;
+const CONNECTION: usize = 2;
+
 pub(crate) struct Inner {
     new: crossbeam::queue::ArrayQueue<BoxFuture<'static, Result<ClientHandle>>>,
     idle: crossbeam::queue::ArrayQueue<ClientHandle>,
     tasks: crossbeam::queue::SegQueue<Waker>,
     ongoing: atomic::AtomicUsize,
+    // Number of connections which are being opened, idle or ongoing (in units of CONNECTION),
+    // and whether one of them is being opened (CONNECTING)
+    connections: atomic::AtomicUsize,
     hosts: Vec<Url>,
     connections_num: atomic::AtomicUsize,
 }
@@ -39,16 +45,57 @@ pub(crate) struct Inner {
 impl Inner {
     pub(crate) fn release_conn(&self) {
         self.ongoing.fetch_sub(1, Ordering::AcqRel);
+        self.connections.fetch_sub(CONNECTION, Ordering::AcqRel);
+        self.wake_tasks();
+    }
+
+    fn wake_tasks(&self) {
+        // either a task sees the change which it waits for, or it is woken up, see Pool::poll
+        atomic::fence(Ordering::SeqCst);
         while let Some(task) = self.tasks.pop() {
             task.wake()
         }
     }
+}
+
+/// The right to open one more connection.
+struct Reservation {
+    inner: Arc<Inner>,
+    opened: bool,
+}
+
+impl Reservation {
+    fn new(inner: &Arc<Inner>, max: usize) -> Option<Self> {
+        // Connections are opened one by one.
+        inner
+            .connections
+            .fetch_update(Ordering::AcqRel, Ordering::Acquire, |state| {
+                if state & CONNECTING == 0 && state / CONNECTION < max {
+                    Some(state + CONNECTION + CONNECTING)
+                } else {
+                    None
+                }
+            })
+            .ok()?;
+
+        Some(Self {
+            inner: inner.clone(),
+            opened: false,
+        })
+    }
+}
 
-    fn conn_count(&self) -> usize {
-        let is_new_some = self.new.len();
-        let ongoing = self.ongoing.load(Ordering::Acquire);
-        let idle_count = self.idle.len();
-        is_new_some + idle_count + ongoing
+impl Drop for Reservation {
+    fn drop(&mut self) {
+        let state = if self.opened {
+            CONNECTING
+        } else {
+            CONNECTION + CONNECTING
+        };
+        self.inner.connections.fetch_sub(state, Ordering::AcqRel);
+
+        // Other tasks may open a connection now.
+        self.inner.wake_tasks();
     }
 }
 
@@ -173,6 +220,7 @@ impl Pool {
             idle: crossbeam::queue::ArrayQueue::new(max),
             tasks: crossbeam::queue::SegQueue::new(),
             ongoing: atomic::AtomicUsize::new(0),
+            connections: atomic::AtomicUsize::new(0),
             connections_num: atomic::AtomicUsize::new(0),
             hosts,
         });
@@ -200,46 +248,68 @@ impl Pool {
     }
 
     fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<Result<ClientHandle>> {
-        self.handle_futures(cx)?;
+        if let Some(client) = self.try_get(cx)? {
+            return Poll::Ready(Ok(client));
+        }
 
-        match self.take_conn() {
+        // A connection might have been returned before the task was registered,
+        // in this case nobody is going to wake it up.
+        self.inner.tasks.push(cx.waker().clone());
+        atomic::fence(Ordering::SeqCst);
+
+        match self.try_get(cx)? {
             Some(client) => Poll::Ready(Ok(client)),
-            None => {
-                let new_conn_created = {
-                    let conn_count = self.inner.conn_count();
-
-                    if conn_count < self.max && self.inner.new.push(self.new_connection()).is_ok() {
-                        true
-                    } else {
-                        self.inner.tasks.push(cx.waker().clone());
-                        false
-                    }
-                };
-                if new_conn_created {
-                    self.poll(cx)
-                } else {
-                    Poll::Pending
+            None => Poll::Pending,
+        }
+    }
+
+    fn try_get(&mut self, cx: &mut Context<'_>) -> Result<Option<ClientHandle>> {
+        loop {
+            self.handle_futures(cx)?;
+
+            if let Some(client) = self.take_conn() {
+                return Ok(Some(client));
+            }
+
+            match Reservation::new(&self.inner, self.max) {
+                Some(reservation) => {
+                    let _ = self.inner.new.push(self.new_connection(reservation));
                 }
+                None => return Ok(None),
             }
         }
     }
 
-    fn new_connection(&self) -> BoxFuture<'static, Result<ClientHandle>> {
+    fn new_connection(
+        &self,
+        reservation: Reservation,
+    ) -> BoxFuture<'static, Result<ClientHandle>> {
         let source = self.options.clone();
         let pool = Some(self.clone());
-        Box::pin(async move { Client::open(source, pool).await })
+        Box::pin(async move {
+            let mut reservation = reservation;
+            let client = Client::open(source, pool).await?;
+            reservation.opened = true;
+            Ok(client)
+        })
+    }
+
+    /// Has to be called when a task stops to wait for a connection: it is possible
+    /// that this is the task that drives the connection being opened.
+    fn abandon(&self) {
+        if !self.inner.new.is_empty() {
+            self.inner.wake_tasks();
+        }
     }
 
     fn handle_futures(&mut self, cx: &mut Context<'_>) -> Result<()> {
         if let Some(mut new) = self.inner.new.pop() {
             match new.poll_unpin(cx) {
-                Poll::Ready(Ok(client)) => {
+                Poll::Ready(Ok(mut client)) => {
+                    client.pool = PoolBinding::None;
                     self.inner.idle.push(client).unwrap();
                 }
                 Poll::Pending => {
-                    // NOTE: it is okay to drop the construction task
-                    // because another construction will be attempted
-                    // later in Pool::poll
                     let _ = self.inner.new.push(new);
                 }
                 Poll::Ready(Err(err)) => {
@@ -269,14 +339,24 @@ impl Pool {
         client.pool = PoolBinding::None;
         client.set_inside(true);
 
+        let mut excess = None;
         if self.inner.idle.len() < min && is_attached && client.inner.is_some() {
-            let _ = self.inner.idle.push(client);
+            match self.inner.idle.push(client) {
+                Err(client) => excess = Some(client),
+                // other connections might have been returned at the same time
+                Ok(()) if self.inner.idle.len() > min => excess = self.inner.idle.pop(),
+                Ok(()) => (),
+            }
+        } else {
+            excess = Some(client);
         }
-        self.inner.ongoing.fetch_sub(1, Ordering::AcqRel);
 
-        while let Some(task) = self.inner.tasks.pop() {
-            task.wake()
+        if excess.is_some() {
+            drop(excess);
+            self.inner.connections.fetch_sub(CONNECTION, Ordering::AcqRel);
         }
+        self.inner.ongoing.fetch_sub(1, Ordering::AcqRel);
+        self.inner.wake_tasks();
     }
 
     pub(crate) fn get_addr(&self) -> &Url {
-- 
2.43.0


From c020c5b123e5bd501c8490137260aa40a899dd9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:57:30 +0000
Subject: [PATCH 15/33] sim: let all operations of the wrapped types through

---
 src/sim.rs | 31 +++++++++++++++++++++++++++++++
 1 file changed, 31 insertions(+)

diff --git a/src/sim.rs b/src/sim.rs
index acd56fa..7ea32a3 100644
--- a/src/sim.rs
+++ b/src/sim.rs
@@ -119,6 +119,15 @@ pub mod atomic {
             #[derive(Debug, Default)]
             pub struct $name(std::sync::atomic::$name);
 
+            // operations not listed below are possible, too, only without a scheduling point
+            impl std::ops::Deref for $name {
+                type Target = std::sync::atomic::$name;
+
+                fn deref(&self) -> &Self::Target {
+                    &self.0
+                }
+            }
+
             impl $name {
                 pub const fn new(value: $t) -> Self {
                     Self(std::sync::atomic::$name::new(value))
@@ -220,6 +229,14 @@ pub mod crossbeam {
 
         pub struct ArrayQueue<T>(::crossbeam::queue::ArrayQueue<T>);
 
+        impl<T> std::ops::Deref for ArrayQueue<T> {
+            type Target = ::crossbeam::queue::ArrayQueue<T>;
+
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+
         impl<T> ArrayQueue<T> {
             pub fn new(cap: usize) -> Self {
                 Self(::crossbeam::queue::ArrayQueue::new(cap))
@@ -262,6 +279,20 @@ pub mod crossbeam {
 
         pub struct SegQueue<T>(::crossbeam::queue::SegQueue<T>);
 
+        impl<T> std::ops::Deref for SegQueue<T> {
+            type Target = ::crossbeam::queue::SegQueue<T>;
+
+            fn deref(&self) -> &Self::Target {
+                &self.0
+            }
+        }
+
+        impl<T> Default for SegQueue<T> {
+            fn default() -> Self {
+                Self::new()
+            }
+        }
+
         impl<T> SegQueue<T> {
             pub const fn new() -> Self {
                 Self(::crossbeam::queue::SegQueue::new())
-- 
2.43.0


From 4d164d295afa6dcf810873e56f897d4e35626efe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:03 +0000
Subject: [PATCH 16/33] fix: no null vtable in LowCardinalityInternals

A null vtable pointer is undefined behaviour; optimized builds dropped the
LowCardinality arms of the iterators, which then refused the column.
---
 src/types/column/low_cardinality.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index a69eac9..1908cf7 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -7,6 +7,7 @@ use crate::{
     types::{
         column::{
             column_data::{ArcColumnData, BoxColumnData, LowCardinalityAccessor},
+            string::StringColumnData,
             ArcColumnWrapper, ColumnData, VectorColumnData,
         },
         SqlType, Value, ValueRef,
@@ -173,8 +174,8 @@ pub(crate) struct LowCardinalityInternals {
 impl Default for LowCardinalityInternals {
     fn default() -> Self {
         LowCardinalityInternals {
-            index: ptr::null_mut(),
-            accessor: unsafe { mem::transmute([ptr::null_mut::<()>(), ptr::null_mut()]) },
+            index: ptr::null(),
+            accessor: ptr::null::<StringColumnData>(),
         }
     }
 }
-- 
2.43.0


From aeb88ca3817aabdeb1d91e7101d26a4f04fabdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:15 +0000
Subject: [PATCH 17/33] fix: DateTime64 values before 1970 or with large dates

Round seconds down, so that the fraction is not negative, and do not go
through nanoseconds, which overflow.
---
 src/types/column/datetime64.rs | 40 +++++++++++++++-------------------
 1 file changed, 17 insertions(+), 23 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 7aa80d4..893c9e8 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -118,8 +118,8 @@ impl ColumnData for DateTime64ColumnData {
 
 pub(crate) fn from_datetime<T: TimeZone>(time: DateTime<T>, precision: u32) -> i64 {
     let base10: i64 = 10;
-    let timestamp = time.timestamp_nanos_opt().unwrap();
-    timestamp / base10.pow(9 - precision)
+    let fraction = i64::from(time.timestamp_subsec_nanos()) / base10.pow(9 - precision);
+    time.timestamp() * base10.pow(precision) + fraction
 }
 
 #[inline(always)]
@@ -129,34 +129,28 @@ pub(crate) fn to_datetime(value: i64, precision: u32, tz: Tz) -> DateTime<Tz> {
 
 #[inline(always)]
 pub(crate) fn to_datetime_opt(value: i64, precision: u32, tz: Tz) -> LocalResult<DateTime<Tz>> {
-    let base10: i64 = 10;
-
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
-    } else {
-        0_i64
-    };
-
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
-
-    tz.timestamp_opt(sec, nsec as u32)
+    let (sec, nsec) = to_timestamp(value, precision);
+    tz.timestamp_opt(sec, nsec)
 }
 
 #[inline(always)]
 pub(crate) fn to_native_datetime_opt(value: i64, precision: u32) -> Option<NaiveDateTime> {
-    let base10: i64 = 10;
+    let (sec, nsec) = to_timestamp(value, precision);
+    NaiveDateTime::from_timestamp_opt(sec, nsec)
+}
 
-    let nano = if precision < 19 {
-        value * base10.pow(9 - precision)
-    } else {
-        0_i64
-    };
+/// Splits a value into whole seconds, rounded down, and nanoseconds.
+#[inline(always)]
+fn to_timestamp(value: i64, precision: u32) -> (i64, u32) {
+    let base10: i64 = 10;
 
-    let sec = nano / 1_000_000_000;
-    let nsec = nano - sec * 1_000_000_000;
+    if precision > 9 {
+        return (0, 0);
+    }
 
-    NaiveDateTime::from_timestamp_opt(sec, nsec as u32)
+    let ticks = base10.pow(precision);
+    let nsec = value.rem_euclid(ticks) * base10.pow(9 - precision);
+    (value.div_euclid(ticks), nsec as u32)
 }
 
 #[cfg(test)]
-- 
2.43.0


From 42f183e44c0fb677c5ac82afde1857227faa01ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:21 +0000
Subject: [PATCH 18/33] fix: save DateTime64 columns

---
 src/types/column/datetime64.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/types/column/datetime64.rs b/src/types/column/datetime64.rs
index 893c9e8..82f0ced 100644
--- a/src/types/column/datetime64.rs
+++ b/src/types/column/datetime64.rs
@@ -10,6 +10,7 @@ use crate::{
             column_data::{BoxColumnData, ColumnData},
             date::DateTimeInternals,
             list::List,
+            numeric::save_data,
         },
         DateTimeType, SqlType, Value, ValueRef,
     },
@@ -56,8 +57,8 @@ impl ColumnData for DateTime64ColumnData {
         SqlType::DateTime(DateTimeType::DateTime64(precision, tz))
     }
 
-    fn save(&self, _encoder: &mut Encoder, _start: usize, _end: usize) {
-        unimplemented!()
+    fn save(&self, encoder: &mut Encoder, start: usize, end: usize) {
+        save_data::<i64>(self.data.as_ref(), encoder, start, end);
     }
 
     fn len(&self) -> usize {
-- 
2.43.0


From 5629c6ff809cca161d69e79b37d4d19254faa406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:49 +0000
Subject: [PATCH 19/33] fix: report text that is not an IP address as an error
 instead of panicking

---
 src/types/column/mod.rs | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/types/column/mod.rs b/src/types/column/mod.rs
index c08439f..c897622 100644
--- a/src/types/column/mod.rs
+++ b/src/types/column/mod.rs
@@ -2,6 +2,7 @@ use std::{
     marker,
     net::{Ipv4Addr, Ipv6Addr},
     ops,
+    str::FromStr,
     sync::Arc,
 };
 
@@ -391,8 +392,7 @@ impl<K: ColumnType> Column<K> {
                 let n = self.len();
                 let mut inner = Vec::with_capacity(n);
                 for i in 0..n {
-                    let source = self.at(i).as_str().unwrap();
-                    let ip: Ipv4Addr = source.parse().unwrap();
+                    let ip: Ipv4Addr = parse_ip(&self.at(i), &dst_type)?;
                     let mut buffer = [0_u8; 4];
                     buffer.copy_from_slice(&ip.octets());
                     buffer.reverse();
@@ -416,8 +416,7 @@ impl<K: ColumnType> Column<K> {
                 let n = self.len();
                 let mut inner = Vec::with_capacity(n);
                 for i in 0..n {
-                    let source = self.at(i).as_str().unwrap();
-                    let ip: Ipv6Addr = source.parse().unwrap();
+                    let ip: Ipv6Addr = parse_ip(&self.at(i), &dst_type)?;
                     inner.extend(&ip.octets());
                 }
 
@@ -495,6 +494,15 @@ impl<K: ColumnType> Column<K> {
     }
 }
 
+fn parse_ip<T: FromStr>(source: &ValueRef, dst_type: &SqlType) -> Result<T> {
+    source.as_str()?.parse().map_err(|_| {
+        Error::FromSql(FromSqlError::InvalidType {
+            src: format!("{source}").into(),
+            dst: dst_type.to_string(),
+        })
+    })
+}
+
 pub(crate) fn new_column<K: ColumnType>(
     name: &str,
     data: Arc<(dyn ColumnData + Sync + Send + 'static)>,
-- 
2.43.0


From f82681cfa7ef4b1ea79b4d6c500e3d4df4c6557b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:50 +0000
Subject: [PATCH 20/33] fix: parse SimpleAggregateFunction of a parametric type

---
 src/types/column/factory.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/types/column/factory.rs b/src/types/column/factory.rs
index 274eca3..bfbd430 100644
--- a/src/types/column/factory.rs
+++ b/src/types/column/factory.rs
@@ -296,7 +296,7 @@ fn parse_simple_agg_fun(source: &str) -> Option<(SimpleAggFunc, &str)> {
         return None;
     }
 
-    let args = source[23..].trim_matches(|c| c == '(' || c == ')');
+    let args = &source[24..source.len() - 1];
     let sep_index = args.find(',')?;
 
     let agg_func = args[..sep_index].trim();
-- 
2.43.0


From f0af8fa1e930361b1bc3f1bead43a2fafe307ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:51 +0000
Subject: [PATCH 21/33] fix: iterate over dates and times within Nullable,
 Array and Map

---
 src/types/column/array.rs    |  4 ++++
 src/types/column/map.rs      | 11 +++++++++++
 src/types/column/nullable.rs |  4 ++++
 3 files changed, 19 insertions(+)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index e7d2a75..806b4aa 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -125,6 +125,10 @@ impl ColumnData for ArrayColumnData {
         }
     }
 
+    unsafe fn get_internals(&self, data_ptr: *mut (), level: u8, props: u32) -> Result<()> {
+        self.inner.get_internals(data_ptr, level, props)
+    }
+
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Array(inner_target) = target {
             if let Some(inner) = self.inner.cast_to(&self.inner, inner_target) {
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index beff2c2..11bcb5e 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -144,6 +144,17 @@ impl ColumnData for MapColumnData {
         }
     }
 
+    unsafe fn get_internals(&self, data_ptr: *mut (), level: u8, props: u32) -> Result<()> {
+        if props == 1 {
+            return self.keys.get_internals(data_ptr, level, 0);
+        }
+        let new_props = match props {
+            0 => 0,
+            _ => 1 | (((props >> 1) - 1) << 1),
+        };
+        self.values.get_internals(data_ptr, level, new_props)
+    }
+
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Map(key, value) = target {
             let keys = self.keys.cast_to(&self.keys, key)?;
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index d9b2b6e..87a7610 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -105,6 +105,10 @@ impl ColumnData for NullableColumnData {
         }
     }
 
+    unsafe fn get_internals(&self, data_ptr: *mut (), level: u8, props: u32) -> Result<()> {
+        self.inner.get_internals(data_ptr, level, props)
+    }
+
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Nullable(inner_target) = target {
             if let Some(inner) = self.inner.cast_to(&self.inner, inner_target) {
-- 
2.43.0


From e8c881797de822a6f1016b411ba8e4ee0c500754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:08:51 +0000
Subject: [PATCH 22/33] fix: push to a clone of a block with nested columns

---
 src/types/column/array.rs           | 2 +-
 src/types/column/low_cardinality.rs | 2 +-
 src/types/column/map.rs             | 4 ++--
 src/types/column/nullable.rs        | 2 +-
 src/types/column/simple_agg_func.rs | 2 +-
 5 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/types/column/array.rs b/src/types/column/array.rs
index 806b4aa..1c12fa3 100644
--- a/src/types/column/array.rs
+++ b/src/types/column/array.rs
@@ -105,7 +105,7 @@ impl ColumnData for ArrayColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            inner: self.inner.clone(),
+            inner: Arc::from(self.inner.clone_instance()),
             offsets: self.offsets.clone(),
         })
     }
diff --git a/src/types/column/low_cardinality.rs b/src/types/column/low_cardinality.rs
index 1908cf7..8488c78 100644
--- a/src/types/column/low_cardinality.rs
+++ b/src/types/column/low_cardinality.rs
@@ -336,7 +336,7 @@ impl ColumnData for LowCardinalityColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            inner: self.inner.clone(),
+            inner: Arc::from(self.inner.clone_instance()),
             index: self.index.clone(),
             value_map: None,
         })
diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 11bcb5e..04f2b66 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -116,8 +116,8 @@ impl ColumnData for MapColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            keys: self.keys.clone(),
-            values: self.values.clone(),
+            keys: Arc::from(self.keys.clone_instance()),
+            values: Arc::from(self.values.clone_instance()),
             offsets: self.offsets.clone(),
             size: self.size,
         })
diff --git a/src/types/column/nullable.rs b/src/types/column/nullable.rs
index 87a7610..960bcdf 100644
--- a/src/types/column/nullable.rs
+++ b/src/types/column/nullable.rs
@@ -85,7 +85,7 @@ impl ColumnData for NullableColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            inner: self.inner.clone(),
+            inner: Arc::from(self.inner.clone_instance()),
             nulls: self.nulls.clone(),
         })
     }
diff --git a/src/types/column/simple_agg_func.rs b/src/types/column/simple_agg_func.rs
index dfe24c3..fc815ae 100644
--- a/src/types/column/simple_agg_func.rs
+++ b/src/types/column/simple_agg_func.rs
@@ -57,7 +57,7 @@ impl ColumnData for SimpleAggregateFunctionColumnData {
 
     fn clone_instance(&self) -> BoxColumnData {
         Box::new(Self {
-            inner: self.inner.clone(),
+            inner: Arc::from(self.inner.clone_instance()),
             func: self.func,
         })
     }
-- 
2.43.0


From 695e2aae7398678cdf6612729cf92b68347c137d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:24 +0000
Subject: [PATCH 23/33] fix: escape the names of enum values in type names

---
 src/types/mod.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 83ff796..43187a3 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -429,14 +429,14 @@ impl SqlType {
             SqlType::Enum8(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("{} = {value}", quote_enum_name(name)))
                     .collect();
                 format!("Enum8({})", a.join(",")).into()
             }
             SqlType::Enum16(values) => {
                 let a: Vec<String> = values
                     .iter()
-                    .map(|(name, value)| format!("'{name}' = {value}"))
+                    .map(|(name, value)| format!("{} = {value}", quote_enum_name(name)))
                     .collect();
                 format!("Enum16({})", a.join(",")).into()
             }
@@ -464,6 +464,10 @@ impl SqlType {
     }
 }
 
+fn quote_enum_name(name: &str) -> String {
+    format!("'{}'", name.replace('\\', "\\\\").replace('\'', "\\'"))
+}
+
 impl fmt::Display for SqlType {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         write!(f, "{}", Self::to_string(self))
-- 
2.43.0


From de6ae60003e0382da19c11f60b469873d486d4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:25 +0000
Subject: [PATCH 24/33] fix: count only maps in map_level

---
 src/types/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/mod.rs b/src/types/mod.rs
index 43187a3..3f87fd6 100644
--- a/src/types/mod.rs
+++ b/src/types/mod.rs
@@ -456,9 +456,9 @@ impl SqlType {
 
     pub(crate) fn map_level(&self) -> u8 {
         match self {
-            SqlType::Nullable(inner) => inner.level(),
-            SqlType::Array(inner) => inner.level(),
-            SqlType::Map(_, value) => 1 + value.level(),
+            SqlType::Nullable(inner) => inner.map_level(),
+            SqlType::Array(inner) => inner.map_level(),
+            SqlType::Map(_, value) => 1 + value.map_level(),
             _ => 0,
         }
     }
-- 
2.43.0


From be567806c72caf08c50dd65d4f2bc31ec06f50b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:26 +0000
Subject: [PATCH 25/33] fix: keep the fractions of seconds in arrays of
 DateTime

---
 src/types/column/date.rs | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/types/column/date.rs b/src/types/column/date.rs
index 534ee44..58b6103 100644
--- a/src/types/column/date.rs
+++ b/src/types/column/date.rs
@@ -126,8 +126,7 @@ impl ColumnFrom for Vec<Vec<DateTime<Tz>>> {
         for vs in source {
             let mut inner = Vec::with_capacity(vs.len());
             for v in vs {
-                let value: Value = Value::DateTime(v.timestamp() as u32, v.timezone());
-                inner.push(value);
+                inner.push(Value::ChronoDateTime(v));
             }
             data.push(Value::Array(sql_type.clone().into(), Arc::new(inner)));
         }
-- 
2.43.0


From 06ae50b137ac93fd9701c03cb7956e273a395584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:26 +0000
Subject: [PATCH 26/33] fix: cast a map whose keys or values already have the
 right type

---
 src/types/column/map.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/types/column/map.rs b/src/types/column/map.rs
index 04f2b66..eddeb97 100644
--- a/src/types/column/map.rs
+++ b/src/types/column/map.rs
@@ -157,8 +157,8 @@ impl ColumnData for MapColumnData {
 
     fn cast_to(&self, _this: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
         if let SqlType::Map(key, value) = target {
-            let keys = self.keys.cast_to(&self.keys, key)?;
-            let values = self.values.cast_to(&self.values, value)?;
+            let keys = cast_column(&self.keys, key)?;
+            let values = cast_column(&self.values, value)?;
             Some(Arc::new(Self {
                 keys,
                 values,
@@ -175,6 +175,14 @@ impl ColumnData for MapColumnData {
     }
 }
 
+fn cast_column(column: &ArcColumnData, target: &SqlType) -> Option<ArcColumnData> {
+    if column.sql_type() == *target {
+        Some(column.clone())
+    } else {
+        column.cast_to(column, target)
+    }
+}
+
 impl<V> ColumnFrom for Vec<HashMap<String, V>>
 where
     V: Copy
-- 
2.43.0


From be3f7550325de9437b96f2b1ae4788d58dc5cdf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:58 +0000
Subject: [PATCH 27/33] fix: refuse to iterate over other columns as addresses
 or UUIDs

---
 src/types/column/iter/mod.rs | 27 ++++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index 5eb54de..5815c95 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -813,9 +813,16 @@ impl<'a> Iterable<'a, Simple> for Ipv4Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv4) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv4.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -838,9 +845,16 @@ impl<'a> Iterable<'a, Simple> for Ipv6Addr {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Ipv6) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Ipv6.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
@@ -863,9 +877,16 @@ impl<'a> Iterable<'a, Simple> for uuid::Uuid {
 
     fn iter_with_props(
         column: &'a Column<Simple>,
-        _column_type: SqlType,
+        column_type: SqlType,
         props: u32,
     ) -> Result<Self::Iter> {
+        if !check_type(&column_type, &SqlType::Uuid) {
+            return Err(Error::FromSql(FromSqlError::InvalidType {
+                src: column.sql_type().to_string(),
+                dst: SqlType::Uuid.to_string(),
+            }));
+        }
+
         let inner = unsafe {
             let mut inner: *const u8 = ptr::null();
             column.get_internal(&[&mut inner], 0, props)?;
-- 
2.43.0


From 488178ae1ea5c020fa63bc324b84043d01d3cdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:13:58 +0000
Subject: [PATCH 28/33] fix: refuse a wrong type when iterating over a column
 of several blocks

---
 src/types/column/iter/mod.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index 5815c95..39f6f08 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -1431,6 +1431,15 @@ where
             &*data
         };
 
+        if let Some(chunk) = data.first() {
+            let column: Column<Simple> = Column {
+                name: String::new(),
+                data: chunk.clone(),
+                _marker: marker::PhantomData,
+            };
+            unsafe { T::iter(mem::transmute(&column), column_type.clone()) }?;
+        }
+
         Ok(ComplexIterator {
             column_type,
             data,
-- 
2.43.0


From 1fb2d927ad48a498af098aceed4e3039a6e5efbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:15:31 +0000
Subject: [PATCH 29/33] fix: iterate over the keys of maps from FixedString or
 Decimal

---
 src/types/column/iter/mod.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/types/column/iter/mod.rs b/src/types/column/iter/mod.rs
index 39f6f08..23ad728 100644
--- a/src/types/column/iter/mod.rs
+++ b/src/types/column/iter/mod.rs
@@ -941,7 +941,7 @@ impl<'a> Iterable<'a, Simple> for &[u8] {
                     column.get_internal(
                         &[&mut buffer, &mut size as *mut usize as *mut *const u8],
                         0,
-                        0,
+                        props,
                     )?;
                     assert_ne!(buffer, ptr::null());
                     buffer
@@ -971,7 +971,7 @@ impl<'a> Iterable<'a, Simple> for Decimal {
     fn iter_with_props(
         column: &'a Column<Simple>,
         column_type: SqlType,
-        _props: u32,
+        props: u32,
     ) -> Result<Self::Iter> {
         let SqlType::Decimal(precision, scale) = column_type else {
             return Err(Error::FromSql(FromSqlError::InvalidType {
@@ -991,7 +991,7 @@ impl<'a> Iterable<'a, Simple> for Decimal {
                     &mut nobits as *mut NoBits as *mut *const u8,
                 ],
                 0,
-                0,
+                props,
             )?;
             assert_ne!(ptr, ptr::null());
             (ptr, size, nobits)
-- 
2.43.0


From 30c27aad6b22bcd82cdd5a3ed01ffd69fb2f964a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:01:00 +0000
Subject: [PATCH 30/33] fix: print blocks with very long cells

---
 src/types/block/mod.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/types/block/mod.rs b/src/types/block/mod.rs
index bd3df90..c6d830a 100644
--- a/src/types/block/mod.rs
+++ b/src/types/block/mod.rs
@@ -388,6 +388,9 @@ impl<K: ColumnType> Block<K> {
     }
 }
 
+// The width of a formatting argument is limited to `u16::MAX`.
+const MAX_CELL_WIDTH: usize = u16::MAX as usize - 2;
+
 impl<K: ColumnType> fmt::Debug for Block<K> {
     fn fmt(&self, f: &mut fmt::Formatter) -> fmt::Result {
         let titles: Vec<&str> = self.columns.iter().map(|column| column.name()).collect();
@@ -398,7 +401,7 @@ impl<K: ColumnType> fmt::Debug for Block<K> {
             .iter()
             .map(|t| t.chars().count())
             .zip(cells.iter().map(|w| column_width(w)))
-            .map(|(a, b)| cmp::max(a, b))
+            .map(|(a, b)| cmp::max(a, b).min(MAX_CELL_WIDTH))
             .collect();
 
         print_line(f, &titles_len, "\n\u{250c}", '┬', "\u{2510}\n")?;
-- 
2.43.0


From c5a5cb3f7706b6ff1458d16cb19d98363da2f777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:36 +0000
Subject: [PATCH 31/33] fix: decode the database name in the URL

---
 src/types/options.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/types/options.rs b/src/types/options.rs
index 5f02fb2..4c2b683 100644
--- a/src/types/options.rs
+++ b/src/types/options.rs
@@ -612,7 +612,7 @@ fn get_password_from_url(url: &Url) -> Option<Cow<'_, str>> {
     Some(percent_decode(password.as_bytes()).decode_utf8_lossy())
 }
 
-fn get_database_from_url(url: &Url) -> Result<Option<&str>> {
+fn get_database_from_url(url: &Url) -> Result<Option<Cow<'_, str>>> {
     match url.path_segments() {
         None => Ok(None),
         Some(mut segments) => {
@@ -623,7 +623,9 @@ fn get_database_from_url(url: &Url) -> Result<Option<&str>> {
             }
 
             match head {
-                Some(database) if !database.is_empty() => Ok(Some(database)),
+                Some(database) if !database.is_empty() => Ok(Some(
+                    percent_decode(database.as_bytes()).decode_utf8_lossy(),
+                )),
                 _ => Ok(None),
             }
         }
-- 
2.43.0


From e44bdb936cca16af34a5f346db971534690eb62b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:45:36 +0000
Subject: [PATCH 32/33] fix: close connections being opened when the pool is
 dropped

---
 src/io/transport.rs | 11 +++--------
 src/lib.rs          | 25 ++++++++++++++-----------
 src/pool/mod.rs     | 16 +++++++++-------
 src/retry_guard.rs  |  2 +-
 4 files changed, 27 insertions(+), 27 deletions(-)

diff --git a/src/io/transport.rs b/src/io/transport.rs
index 6d6c489..17e916d 100644
--- a/src/io/transport.rs
+++ b/src/io/transport.rs
@@ -21,7 +21,7 @@ use crate::{
     binary::Parser,
     errors::{ConnectionError, DriverError, Error, Result},
     io::{read_to_end::read_to_end, Stream as InnerStream},
-    pool::{Inner, Pool},
+    pool::Inner,
     types::{Block, Cmd, Packet},
 };
 use futures_core::Stream;
@@ -78,7 +78,7 @@ pub(crate) struct PacketStream {
 }
 
 impl ClickhouseTransport {
-    pub fn new(inner: InnerStream, compress: bool, pool: Option<Pool>) -> Self {
+    pub fn new(inner: InnerStream, compress: bool, pool: sync::Weak<Inner>) -> Self {
         ClickhouseTransport {
             inner,
             done: false,
@@ -145,12 +145,7 @@ impl Drop for TransportStatus {
 }
 
 impl TransportStatus {
-    fn new(pool: Option<Pool>) -> TransportStatus {
-        let pool = match pool {
-            None => sync::Weak::new(),
-            Some(p) => Arc::downgrade(&p.inner),
-        };
-
+    fn new(pool: sync::Weak<Inner>) -> TransportStatus {
         TransportStatus {
             inside: AtomicBool::new(true),
             pool,
diff --git a/src/lib.rs b/src/lib.rs
index 6b78b43..eb2b4d5 100755
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -109,18 +109,19 @@
 #![recursion_limit = "1024"]
 #![allow(unexpected_cfgs)]
 
-use std::{fmt, future::Future, time::Duration};
+use std::{fmt, future::Future, sync::Weak, time::Duration};
 
 use futures_util::{
     future, future::BoxFuture, future::FutureExt, stream, stream::BoxStream, StreamExt,
 };
 use log::{info, warn};
+use url::Url;
 
 use crate::{
     connecting_stream::ConnectingStream,
     errors::{DriverError, Error, Result},
     io::ClickhouseTransport,
-    pool::PoolBinding,
+    pool::{Inner, PoolBinding},
     retry_guard::retry_guard,
     types::{
         block::{ChunkIterator, INSERT_BLOCK_SIZE},
@@ -261,7 +262,12 @@ impl Client {
         Self::open(source, None).await
     }
 
-    pub(crate) async fn open(source: OptionsSource, pool: Option<Pool>) -> Result<ClientHandle> {
+    /// A connection of a pool must not keep the pool alive: the pool owns the connection
+    /// while it is being opened.
+    pub(crate) async fn open(
+        source: OptionsSource,
+        pool: Option<(Url, Weak<Inner>)>,
+    ) -> Result<ClientHandle> {
         let options = try_opt!(source.get());
         let compress = options.compression;
         let timeout = options.connection_timeout;
@@ -273,9 +279,9 @@ impl Client {
 
         with_timeout(
             async move {
-                let addr = match &pool {
-                    None => &options.addr,
-                    Some(p) => p.get_addr(),
+                let (addr, pool) = match &pool {
+                    None => (&options.addr, Weak::new()),
+                    Some((addr, pool)) => (addr, pool.clone()),
                 };
 
                 info!("try to connect to {}", addr);
@@ -286,14 +292,11 @@ impl Client {
                 stream.set_nodelay(options.nodelay)?;
                 stream.set_keepalive(options.keepalive)?;
 
-                let transport = ClickhouseTransport::new(stream, compress, pool.clone());
+                let transport = ClickhouseTransport::new(stream, compress, pool);
                 let mut handle = ClientHandle {
                     inner: Some(transport),
                     context,
-                    pool: match pool {
-                        None => PoolBinding::None,
-                        Some(p) => PoolBinding::Detached(p),
-                    },
+                    pool: PoolBinding::None,
                 };
 
                 handle.hello().await?;
diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index abd32aa..de985e3 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -2,7 +2,7 @@ use std::{
     fmt, mem,
     pin::Pin,
     sync::atomic::Ordering,
-    sync::Arc,
+    sync::{Arc, Weak},
     task::{Context, Poll, Waker},
 };
 
@@ -60,7 +60,7 @@ impl Inner {
 
 /// The right to open one more connection.
 struct Reservation {
-    inner: Arc<Inner>,
+    inner: Weak<Inner>,
     opened: bool,
 }
 
@@ -79,7 +79,7 @@ impl Reservation {
             .ok()?;
 
         Some(Self {
-            inner: inner.clone(),
+            inner: Arc::downgrade(inner),
             opened: false,
         })
     }
@@ -92,10 +92,12 @@ impl Drop for Reservation {
         } else {
             CONNECTION + CONNECTING
         };
-        self.inner.connections.fetch_sub(state, Ordering::AcqRel);
+        if let Some(inner) = self.inner.upgrade() {
+            inner.connections.fetch_sub(state, Ordering::AcqRel);
 
-        // Other tasks may open a connection now.
-        self.inner.wake_tasks();
+            // Other tasks may open a connection now.
+            inner.wake_tasks();
+        }
     }
 }
 
@@ -285,7 +287,7 @@ impl Pool {
         reservation: Reservation,
     ) -> BoxFuture<'static, Result<ClientHandle>> {
         let source = self.options.clone();
-        let pool = Some(self.clone());
+        let pool = Some((self.get_addr().clone(), Arc::downgrade(&self.inner)));
         Box::pin(async move {
             let mut reservation = reservation;
             let client = Client::open(source, pool).await?;
diff --git a/src/retry_guard.rs b/src/retry_guard.rs
index 6d68962..7d4a8d3 100644
--- a/src/retry_guard.rs
+++ b/src/retry_guard.rs
@@ -60,7 +60,7 @@ async fn check(c: &mut ClientHandle) -> Result<()> {
 async fn reconnect(c: &mut ClientHandle, source: &OptionsSource, pool: Option<Pool>) -> Result<()> {
     warn!("[reconnect]");
     let mut nc = match pool {
-        None => Client::open(source.clone(), pool).await?,
+        None => Client::open(source.clone(), None).await?,
         Some(p) => p.get_handle().await?,
     };
     mem::swap(c, &mut nc);
-- 
2.43.0


From 37ffa7f999c19281280236d9fbf55dc4fac991d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:27 +0000
Subject: [PATCH 33/33] fix: give up when reconnecting works but the server
 does not answer

---
 src/pool/mod.rs    | 2 +-
 src/retry_guard.rs | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/pool/mod.rs b/src/pool/mod.rs
index de985e3..a4fd776 100644
--- a/src/pool/mod.rs
+++ b/src/pool/mod.rs
@@ -161,7 +161,7 @@ pub struct Pool {
     options: OptionsSource,
     pub(crate) inner: Arc<Inner>,
     min: usize,
-    max: usize,
+    pub(crate) max: usize,
 }
 
 #[derive(Debug)]
diff --git a/src/retry_guard.rs b/src/retry_guard.rs
index 7d4a8d3..760e46e 100644
--- a/src/retry_guard.rs
+++ b/src/retry_guard.rs
@@ -14,6 +14,10 @@ pub(crate) async fn retry_guard(
     let mut attempt = 0;
     let mut skip_check = false;
 
+    // Beside the attempts, each connection of the pool might have died.
+    let max_checks = max_attempt + pool.as_ref().map_or(0, |p| p.max);
+    let mut checks = 0;
+
     loop {
         if skip_check {
             skip_check = false;
@@ -21,9 +25,10 @@ pub(crate) async fn retry_guard(
             match check(handle).await {
                 Ok(()) => return Ok(()),
                 Err(err) => {
-                    if attempt >= max_attempt {
+                    if attempt >= max_attempt || checks >= max_checks {
                         return Err(err);
                     }
+                    checks += 1;
                 }
             }
         }
-- 
2.43.0

