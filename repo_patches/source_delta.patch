From 73bfd6aa56612740401e51777fa3034cd670a920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 01/63] fix: answer info.json requests instead of panicking

The unimplemented!() unwound out of the glommio executor, so a single
GET .../info.json ended the worker that served it.
---
 src/http.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 70d55f7..00d3265 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -137,7 +137,11 @@ impl From<ImageRequestParseError> for ImageRequestError {
 pub enum InfoRequestError {}
 
 fn info_request(path: &str) -> Result<Response<ResponseBody>, Infallible> {
-    unimplemented!()
+    // TODO: a panic here would take the executor of this worker down with it.
+    Ok(Response::builder()
+        .status(StatusCode::NOT_IMPLEMENTED)
+        .body(ResponseBody::new("notimplemented"))
+        .unwrap())
 }
 
 fn bad_request<I: Into<Bytes>>(body: I) -> Response<ResponseBody> {
-- 
2.43.0


From facdf1f6db7fbd4cd98ee99e211ef85d715124fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 02/63] fix: skip the leading path segment in release builds
 too

The call that consumed the empty segment before the first slash was inside
debug_assert!, so builds without debug assertions took every segment one
position too late and rejected all image requests.
---
 src/http.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 00d3265..796fb34 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -55,7 +55,8 @@ async fn image_request(
 
 fn decode_image_request(path: &str) -> Result<ImageRequest, ImageRequestError> {
     let mut segments = path.split('/');
-    debug_assert!(segments.next().is_some_and(|s| s.is_empty()));
+    let root = segments.next();
+    debug_assert!(root.is_some_and(|s| s.is_empty()));
 
     let identifier = segments
         .next()
-- 
2.43.0


From 4390e72badc702d9aff98f18e50d69e9cb25a874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 03/63] fix: only resolve identifiers to files within the image
 directory

Identifiers such as %2Fetc%2Fpasswd or ..%2Fsecret were joined to the image
directory as they came and opened files outside of it; one with %00 made the
glommio reactor panic and ended the worker.
---
 src/resolve.rs | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/resolve.rs b/src/resolve.rs
index 3bd408a..229e90e 100644
--- a/src/resolve.rs
+++ b/src/resolve.rs
@@ -1,5 +1,6 @@
 use std::fmt::Debug;
-use std::path::Path;
+use std::io;
+use std::path::{Component, Path};
 
 use glommio::io::{ImmutableFile, ImmutableFileBuilder};
 // TODO move to more appropriate module
@@ -15,6 +16,16 @@ impl DiskImageSource {
     }
 
     pub async fn resolve(&self, ident: &str) -> glommio::Result<ImmutableFile, ()> {
+        // Percent-decoded identifiers may be absolute, climb out of the directory, or contain bytes
+        // that no path can (which the reactor panics on).
+        let contained = !ident.contains('\0')
+            && Path::new(ident)
+                .components()
+                .all(|c| matches!(c, Component::Normal(_) | Component::CurDir));
+        if !contained {
+            return Err(io::Error::from(io::ErrorKind::InvalidInput).into());
+        }
+
         let file = self.path.join(ident);
         ImmutableFileBuilder::new(file).build_existing().await
     }
-- 
2.43.0


From 64af1fb8faa49c129bf2808baf814a8ce5c4b310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:49 +0000
Subject: [PATCH 04/63] fix: keep accepting after a failed accept

An aborted connection, a shortage of file descriptors or a failing
getsockname ended the accept loop, and with it the worker.
---
 src/lib.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/lib.rs b/src/lib.rs
index c2c0ad2..f691210 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -14,6 +14,7 @@ mod hyper_compat {
     use std::pin::Pin;
     use std::rc::Rc;
     use std::task::{Context, Poll};
+    use std::time::Duration;
     use std::{io, slice};
 
     use futures_lite::{AsyncRead, AsyncWrite, Future};
@@ -103,6 +104,9 @@ mod hyper_compat {
         }
     }
 
+    /// How long to wait before accepting again after a failure.
+    const ACCEPT_BACKOFF: Duration = Duration::from_millis(10);
+
     pub(crate) async fn serve_http2<S, R, A>(
         addr: A,
         service: S,
@@ -120,10 +124,14 @@ mod hyper_compat {
         loop {
             match listener.accept().await {
                 Err(x) => {
-                    return Err(x.into());
+                    // Either this one connection is lost or the system is short of resources for
+                    // now; neither is a reason to stop serving.
+                    glommio::timer::sleep(ACCEPT_BACKOFF).await;
                 }
                 Ok(stream) => {
-                    stream.local_addr()?;
+                    if stream.local_addr().is_err() {
+                        continue;
+                    }
                     let io = HyperStream(stream);
 
                     glommio::spawn_local(enclose! { (service, conn_control) async move {
-- 
2.43.0


From 9f7a69c8fcc756dd800fa0fd91a3778d6ecd379e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:07 +0000
Subject: [PATCH 05/63] fix: contain panics of a request to that request

A panic while serving a request unwound into the glommio executor and ended
the worker with all its connections. glommio itself panics when a file
vanishes between its open and the statfs right after it.
---
 src/http.rs | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/http.rs b/src/http.rs
index 796fb34..308db47 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -2,9 +2,11 @@ use std::convert::Infallible;
 use std::error::Error;
 use std::fmt::{Debug, Display, Formatter};
 use std::future::Future;
+use std::panic::AssertUnwindSafe;
 use std::pin::Pin;
 use std::sync::Arc;
 
+use futures_lite::FutureExt;
 use hyper::body::{Bytes, Incoming};
 use hyper::service::Service;
 use hyper::{Method, Request, Response, StatusCode};
@@ -23,6 +25,24 @@ const PREFIX: &str = "/"; // TODO: read this from config
 pub async fn handle_request(
     req: Request<Incoming>,
     images: Arc<DiskImageSource>,
+) -> Result<Response<ResponseBody>, Infallible> {
+    // A panic that unwinds into the executor ends this worker and all of its connections (glommio
+    // panics, for example, if a file vanishes while it is being opened).
+    match AssertUnwindSafe(route_request(req, images))
+        .catch_unwind()
+        .await
+    {
+        Ok(response) => response,
+        Err(_) => Ok(Response::builder()
+            .status(StatusCode::INTERNAL_SERVER_ERROR)
+            .body(ResponseBody::new("internal error"))
+            .unwrap()),
+    }
+}
+
+async fn route_request(
+    req: Request<Incoming>,
+    images: Arc<DiskImageSource>,
 ) -> Result<Response<ResponseBody>, Infallible> {
     match (req.method(), req.uri().path()) {
         (&Method::GET, p) if p.ends_with("info.json") => info_request(p),
@@ -138,7 +158,7 @@ impl From<ImageRequestParseError> for ImageRequestError {
 pub enum InfoRequestError {}
 
 fn info_request(path: &str) -> Result<Response<ResponseBody>, Infallible> {
-    // TODO: a panic here would take the executor of this worker down with it.
+    // TODO
     Ok(Response::builder()
         .status(StatusCode::NOT_IMPLEMENTED)
         .body(ResponseBody::new("notimplemented"))
-- 
2.43.0


From 2cb74b001aa8746afc711b93a1ae398b715e1b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:47 +0000
Subject: [PATCH 06/63] fix: send no content in response to HEAD over HTTP/2

HEAD requests were answered with the text of the 404 response. hyper drops it
for HTTP/1 only; an HTTP/2 peer resets the stream with a protocol error.
---
 src/http.rs | 10 ++++++++--
 src/lib.rs  |  4 ++++
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/http.rs b/src/http.rs
index 308db47..5a8781a 100644
--- a/src/http.rs
+++ b/src/http.rs
@@ -26,9 +26,11 @@ pub async fn handle_request(
     req: Request<Incoming>,
     images: Arc<DiskImageSource>,
 ) -> Result<Response<ResponseBody>, Infallible> {
+    let head = req.method() == Method::HEAD;
+
     // A panic that unwinds into the executor ends this worker and all of its connections (glommio
     // panics, for example, if a file vanishes while it is being opened).
-    match AssertUnwindSafe(route_request(req, images))
+    let response = match AssertUnwindSafe(route_request(req, images))
         .catch_unwind()
         .await
     {
@@ -37,7 +39,11 @@ pub async fn handle_request(
             .status(StatusCode::INTERNAL_SERVER_ERROR)
             .body(ResponseBody::new("internal error"))
             .unwrap()),
-    }
+    };
+
+    // hyper leaves out the content of a response to HEAD for HTTP/1, but not for HTTP/2, where peers
+    // treat it as a protocol error.
+    response.map(|r| if head { r.map(|_| ResponseBody::empty()) } else { r })
 }
 
 async fn route_request(
diff --git a/src/lib.rs b/src/lib.rs
index f691210..5bd726e 100644
--- a/src/lib.rs
+++ b/src/lib.rs
@@ -91,6 +91,10 @@ mod hyper_compat {
         pub fn new<I: Into<Bytes>>(body: I) -> Self {
             ResponseBody { _marker: PhantomData, data: Some(body.into()) }
         }
+
+        pub fn empty() -> Self {
+            ResponseBody { _marker: PhantomData, data: None }
+        }
     }
 
     impl HttpBody for ResponseBody {
-- 
2.43.0


From 27748717186a19e5dad737b70c3bc8468f2f176c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:25 +0000
Subject: [PATCH 07/63] fix: allocate the default comment with the allocator
 that releases it

---
 openjp2-rs/src/j2k.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 7fcf585..8c2cf61 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7267,11 +7267,14 @@ pub(crate) fn opj_j2k_setup_encoder(
             let comment = format!("Created by OpenJPEG version {}", OPJ_VERSION);
             let c_comment = alloc::ffi::CString::new(comment).unwrap();
             // UniPG>>
-            (*cp).comment = c_comment.into_raw();
+            // Copied, because it is released with opj_free.
+            (*cp).comment =
+                opj_malloc(strlen(c_comment.as_ptr()).wrapping_add(1)) as *mut core::ffi::c_char;
             if (*cp).comment.is_null() {
                 event_msg!(p_manager, EVT_ERROR, "Not enough memory to allocate comment string\n",);
                 return 0i32;
             }
+            strcpy((*cp).comment, c_comment.as_ptr());
         }
         // calculate other encoding parameters
         if parameters.tile_size_on != 0 {
-- 
2.43.0


From dfc8d63459a9bc0d482260e26d712a73410edbde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:52 +0000
Subject: [PATCH 08/63] fix: return no stream for a file that cannot be opened

---
 openjp2-rs/src/openjpeg.rs | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index bffa9b8..784fd26 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -667,11 +667,13 @@ pub unsafe fn opj_stream_create_file_stream(
         return std::ptr::null_mut::<opj_stream_t>();
     }
     match std::ffi::CStr::from_ptr(fname).to_str() {
-        Ok(name) => {
-            let l_stream =
-                Box::new(opj_stream_private::new_file(name, p_size, p_is_read_stream != 0));
-            Box::into_raw(l_stream) as *mut opj_stream_t
-        }
+        Ok(name) => match opj_stream_private::new_file(name, p_size, p_is_read_stream != 0) {
+            Ok(l_stream) => Box::into_raw(Box::new(l_stream)) as *mut opj_stream_t,
+            Err(err) => {
+                log::error!("Failed to open {name}: {err}");
+                std::ptr::null_mut::<opj_stream_t>()
+            }
+        },
         Err(err) => {
             log::error!("Failed to convert C filename to Rust String: {err}");
             std::ptr::null_mut::<opj_stream_t>()
-- 
2.43.0


From 64bae01aac07ccacaeab2b7606df99fb2f1aae64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:59 +0000
Subject: [PATCH 09/63] fix: return what a stream still had before its end

---
 openjp2-rs/src/stream.rs | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 042b02d..a56f2b6 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -342,26 +342,24 @@ impl Stream {
     }
 
     pub fn read(&mut self, buf: &mut [u8]) -> std::io::Result<usize> {
-        let len = buf.len();
-        match self.m_inner.read_exact(buf) {
-            Ok(_) => {
-                self.m_byte_offset += len as i64;
-                Ok(len)
-            }
-            Err(_err) => {
-                // Maybe EOF, do a partial read.
-                match self.m_inner.read(buf) {
-                    Ok(nb) => {
-                        self.m_byte_offset += nb as i64;
-                        Ok(nb)
-                    }
-                    Err(err) => {
-                        log::trace!("Failed to read from stream: {err}");
-                        Err(err)
+        let mut len = 0;
+        while len < buf.len() {
+            match self.m_inner.read(&mut buf[len..]) {
+                Ok(0) => break,
+                Ok(nb) => len += nb,
+                Err(err) if err.kind() == std::io::ErrorKind::Interrupted => {}
+                Err(err) => {
+                    log::trace!("Failed to read from stream: {err}");
+                    if len == 0 {
+                        return Err(err);
                     }
+                    // What was read before the failure is not lost.
+                    break;
                 }
             }
         }
+        self.m_byte_offset += len as i64;
+        Ok(len)
     }
 
     pub fn write(&mut self, buf: &[u8]) -> std::io::Result<usize> {
-- 
2.43.0


From 486d75ff77c8e74e1ef588a3d25b3e998a65d7c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:07 +0000
Subject: [PATCH 10/63] fix: continue short skips of custom streams

---
 openjp2-rs/src/stream.rs | 29 +++++++++++++++++++----------
 1 file changed, 19 insertions(+), 10 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index a56f2b6..bc68bb6 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -166,18 +166,27 @@ impl Seek for CustomStream {
                     Err(IoError::other("seek failed"))
                 }
             }
+            // Skip functions only go forward.
+            SeekFrom::Current(offset) if offset < 0 => {
+                self.seek(SeekFrom::Start((self.m_byte_offset + offset) as u64))
+            }
             SeekFrom::Current(offset) => {
-                let res = if let Some(skip) = &self.m_skip_fn {
-                    unsafe { skip(offset, self.m_user_data) }
-                } else {
-                    return Err(IoError::other("Custom stream doesn't have a skip function"));
-                };
-                if res != -1 {
-                    self.m_byte_offset += offset;
-                    Ok(self.m_byte_offset as u64)
-                } else {
-                    Err(IoError::other("skip failed"))
+                let mut left = offset;
+                while left > 0 {
+                    let res = if let Some(skip) = &self.m_skip_fn {
+                        unsafe { skip(left, self.m_user_data) }
+                    } else {
+                        return Err(IoError::other("Custom stream doesn't have a skip function"));
+                    };
+                    if res <= 0 {
+                        return Err(IoError::other("skip failed"));
+                    }
+                    // Fewer bytes than asked for may have been skipped.
+                    let skipped = res.min(left);
+                    self.m_byte_offset += skipped;
+                    left -= skipped;
                 }
+                Ok(self.m_byte_offset as u64)
             }
             SeekFrom::End(_offset) => Err(IoError::other("Unsupported seek from end")),
         }
-- 
2.43.0


From 163c6150a271c6d7e05d7dd59f27af1c9c8e5bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:15 +0000
Subject: [PATCH 11/63] fix: seek custom streams with their seek function

---
 openjp2-rs/src/stream.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index bc68bb6..7febdfd 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -440,7 +440,7 @@ impl Stream {
     }
 
     pub fn seek(&mut self, offset: i64) -> std::io::Result<()> {
-        let res = self.m_inner.seek_relative(offset - self.m_byte_offset);
+        let res = self.m_inner.seek(SeekFrom::Start(offset as u64));
         match res {
             Ok(_) => {
                 self.m_byte_offset = offset;
-- 
2.43.0


From f26f8afb321d5c3ee03db8c4a264663c8681c2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:39:23 +0000
Subject: [PATCH 12/63] fix: do not panic on streams longer than announced

---
 openjp2-rs/src/stream.rs | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/openjp2-rs/src/stream.rs b/openjp2-rs/src/stream.rs
index 7febdfd..036fee6 100644
--- a/openjp2-rs/src/stream.rs
+++ b/openjp2-rs/src/stream.rs
@@ -399,12 +399,7 @@ impl Stream {
     pub fn get_bytes_left(&self) -> i64 {
         log::trace!("-- byte_left(), offset={}", self.m_byte_offset);
         assert!(self.m_byte_offset >= 0i64);
-        assert!(self.m_stream_length >= self.m_byte_offset as OPJ_UINT64);
-        let nb = if self.m_stream_length != 0 {
-            (self.m_stream_length as OPJ_OFF_T) - self.m_byte_offset
-        } else {
-            0i64
-        };
+        let nb = self.m_stream_length.saturating_sub(self.m_byte_offset as OPJ_UINT64) as OPJ_OFF_T;
         log::trace!("-- get_number_byte_left() = {}", nb);
         nb
     }
-- 
2.43.0


From 27fac903eb2405e7146dd1c9c53c76138f3b54a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:56 +0000
Subject: [PATCH 13/63] fix: encode in RPCL progression order instead of
 panicking

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 8c2cf61..68b5f2f 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -168,6 +168,7 @@ pub(crate) enum ProgressionOrder {
     PCRL,
     RLCP,
     LRCP,
+    RPCL,
 }
 
 impl ProgressionOrder {
@@ -177,6 +178,7 @@ impl ProgressionOrder {
             OPJ_PCRL => Self::PCRL,
             OPJ_RLCP => Self::RLCP,
             OPJ_LRCP => Self::LRCP,
+            OPJ_RPCL => Self::RPCL,
             _ => Self::Unknown,
         }
     }
@@ -188,6 +190,7 @@ impl ProgressionOrder {
             Self::PCRL => &[Precinct, Component, Resolution, Layer],
             Self::RLCP => &[Resolution, Layer, Component, Precinct],
             Self::LRCP => &[Layer, Resolution, Component, Precinct],
+            Self::RPCL => &[Resolution, Precinct, Component, Layer],
             Self::Unknown => &[],
         }
     }
@@ -198,6 +201,7 @@ impl ProgressionOrder {
             Self::PCRL => "PCRL",
             Self::RLCP => "RLCP",
             Self::LRCP => "LRCP",
+            Self::RPCL => "RPCL",
             Self::Unknown => "",
         }
     }
-- 
2.43.0


From aec1f1eb462eb35204f635618ddd09b332600b41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:03 +0000
Subject: [PATCH 14/63] fix: keep the sign of tile data of signed components

---
 openjp2-rs/src/tcd.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 67d13cf..2cdc619 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2881,7 +2881,7 @@ pub(crate) fn opj_tcd_copy_tile_data(p_tcd: &mut opj_tcd_t, mut p_src: &[u8]) ->
                     let (src, remain) = p_src.split_at(l_nb_elem);
                     if l_img_comp.sgnd != 0 {
                         for (src, dest) in src.iter().zip(l_dest.iter_mut()) {
-                            *dest = *src as OPJ_INT32;
+                            *dest = *src as i8 as OPJ_INT32;
                         }
                     } else {
                         for (src, dest) in src.iter().zip(l_dest.iter_mut()) {
@@ -2894,7 +2894,7 @@ pub(crate) fn opj_tcd_copy_tile_data(p_tcd: &mut opj_tcd_t, mut p_src: &[u8]) ->
                     let (src, remain) = p_src.split_at(l_nb_elem * 2);
                     if l_img_comp.sgnd != 0 {
                         for (src, dest) in src.chunks_exact(2).zip(l_dest.iter_mut()) {
-                            *dest = u16::from_ne_bytes([src[0], src[1]]) as OPJ_INT32;
+                            *dest = i16::from_ne_bytes([src[0], src[1]]) as OPJ_INT32;
                         }
                     } else {
                         for (src, dest) in src.chunks_exact(2).zip(l_dest.iter_mut()) {
-- 
2.43.0


From 1fa11a778b7087562c20f3fac5f022344af60dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:12 +0000
Subject: [PATCH 15/63] fix: encode tiles without samples of a subsampled
 component

---
 openjp2-rs/src/j2k.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 68b5f2f..645216b 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12450,6 +12450,10 @@ fn opj_j2k_get_tile_data(mut p_tcd: &mut opj_tcd_t, mut p_data: &mut [u8]) {
             let l_width = l_width as usize;
             let l_stride = l_stride as usize;
             let l_nb_elem = l_height * l_width;
+            if l_nb_elem == 0 {
+                // The tile holds no sample of this component.
+                continue;
+            }
             let mut l_src =
                 std::slice::from_raw_parts(l_src_ptr, l_nb_elem + (l_height * l_stride));
             match l_size_comp {
-- 
2.43.0


From 95797bf6d53b771e88bc8ea4e1ff023483108ad8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:32 +0000
Subject: [PATCH 16/63] fix: write the ICC profile of the image instead of
 panicking

---
 openjp2-rs/src/jp2.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 16319a2..082cf3d 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1239,9 +1239,11 @@ pub(crate) fn opj_jp2_setup_encoder(
     }
 
     // Colour Specification box
-    if image.icc_profile_len != 0 {
+    if let Some(icc_profile) = image.icc_profile().filter(|icc| !icc.is_empty()) {
         jp2.meth = 2 as OPJ_UINT32;
-        jp2.enumcs = 0 as OPJ_UINT32
+        jp2.enumcs = 0 as OPJ_UINT32;
+        jp2.color.icc_profile = Some(Vec::from(icc_profile));
+        jp2.color.icc_profile_len = icc_profile.len() as OPJ_UINT32;
     } else {
         jp2.meth = 1 as OPJ_UINT32;
         if image.color_space as core::ffi::c_int == 1 {
-- 
2.43.0


From a0db6d6cc644c5eb46d64351eac81f483ed678f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:19 +0000
Subject: [PATCH 17/63] fix: split tile-parts at the requested level of the
 progression

---
 openjp2-rs/src/j2k.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 645216b..6df1809 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -896,6 +896,7 @@ fn opj_j2k_get_num_tp(
                     (*cp).m_specific_param.m_enc.m_tp_pos = i;
                     break;
                 }
+                i += 1;
             }
         } else {
             tpnum = 1 as OPJ_UINT32
-- 
2.43.0


From 0e9b3c3b266d0b4ee82e40d249a37f4feb429a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:14 +0000
Subject: [PATCH 18/63] fix: do not transform resolutions without samples when
 encoding

---
 openjp2-rs/src/dwt.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 04f524b..fd2e5ae 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -1201,6 +1201,10 @@ unsafe fn opj_dwt_encode_procedure(
         let mut cas_row: OPJ_INT32 = 0;
         rw = ((*l_cur_res).x1 - (*l_cur_res).x0) as OPJ_UINT32;
         rh = ((*l_cur_res).y1 - (*l_cur_res).y0) as OPJ_UINT32;
+        if rw == 0 || rh == 0 {
+            // Nothing left to transform here and at the lower resolutions
+            break;
+        }
         cas_row = (*l_cur_res).x0 & 1i32;
         cas_col = (*l_cur_res).y0 & 1i32;
         // Perform vertical pass
-- 
2.43.0


From b5ec17dc39557a3ad93bccd25c8b57142ba60ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:52 +0000
Subject: [PATCH 19/63] fix: start the bypass mode below the region-of-interest
 shift

---
 openjp2-rs/src/t1.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/t1.rs b/openjp2-rs/src/t1.rs
index 79d3657..6b4975e 100644
--- a/openjp2-rs/src/t1.rs
+++ b/openjp2-rs/src/t1.rs
@@ -2336,7 +2336,7 @@ fn opj_t1_decode_cblk(
             let mut seg: *mut opj_tcd_seg_t =
                 &mut *(*cblk).segs.offset(segno as isize) as *mut opj_tcd_seg_t;
             // BYPASS mode
-            type_0 = if bpno_plus_one <= (*cblk).numbps as OPJ_INT32 - 4i32
+            type_0 = if bpno_plus_one <= roishift.wrapping_add((*cblk).numbps) as OPJ_INT32 - 4i32
                 && passtype < 2
                 && cblksty & 0x1 != 0
             {
-- 
2.43.0


From 4a4b5937fee99508130d2225aa0af46cbd2dafe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:32 +0000
Subject: [PATCH 20/63] fix: write no packets for precincts a resolution does
 not have

---
 openjp2-rs/src/pi.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index fef2c2b..e6a6e44 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -160,7 +160,9 @@ unsafe fn opj_pi_next_lrcp(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     current_block = 10048703153582371463;
                 }
                 _ => {
-                    if (*pi).precno < (*pi).poc.precno1 {
+                    if (*pi).precno < (*pi).poc.precno1
+                        && (*pi).precno < (*res).pw.wrapping_mul((*res).ph)
+                    {
                         index = (*pi)
                             .layno
                             .wrapping_mul((*pi).step_l)
@@ -272,7 +274,9 @@ unsafe fn opj_pi_next_rlcp(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     current_block = 10048703153582371463;
                 }
                 _ => {
-                    if (*pi).precno < (*pi).poc.precno1 {
+                    if (*pi).precno < (*pi).poc.precno1
+                        && (*pi).precno < (*res).pw.wrapping_mul((*res).ph)
+                    {
                         index = (*pi)
                             .layno
                             .wrapping_mul((*pi).step_l)
-- 
2.43.0


From c6be5fd7b4d60ae9b6ff638470a5baec706dc584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:53 +0000
Subject: [PATCH 21/63] fix: read the tiles of subsampled images at an offset
 with their stride

---
 openjp2-rs/src/j2k.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 6df1809..aabb23a 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12406,7 +12406,7 @@ fn opj_get_tile_dimensions(
         *l_height = (l_tilec.y1 - l_tilec.y0) as OPJ_UINT32;
         *l_offset_x = opj_uint_ceildiv(l_image.x0, l_img_comp.dx);
         *l_offset_y = opj_uint_ceildiv(l_image.y0, l_img_comp.dy);
-        *l_image_width = opj_uint_ceildiv(l_image.x1 - l_image.x0, l_img_comp.dx);
+        *l_image_width = opj_uint_ceildiv(l_image.x1, l_img_comp.dx).wrapping_sub(*l_offset_x);
         *l_stride = (*l_image_width).wrapping_sub(*l_width);
         *l_tile_offset = (l_tilec.x0 as OPJ_UINT32)
             .wrapping_sub(*l_offset_x)
-- 
2.43.0


From f84e9ffc221f56a71878c363f7b8803057ffa073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:54:31 +0000
Subject: [PATCH 22/63] fix: decode tiles without samples of a subsampled
 component

---
 openjp2-rs/src/j2k.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index aabb23a..aeda5ac 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9611,7 +9611,15 @@ fn opj_j2k_update_image_data(
                 src_data_stride = (*l_res_0).win_x1.wrapping_sub((*l_res_0).win_x0);
                 p_src_data = (*l_tilec).data_win
             }
-            if !p_src_data.is_null() {
+            let mut l_res_max = (*l_tilec)
+                .resolutions
+                .offset((*l_tilec).minimum_num_resolutions.wrapping_sub(1u32) as isize);
+            // A tile without samples of the component has no packet from which
+            // resno_decoded could have been found, and nothing to copy.
+            if !p_src_data.is_null()
+                && (*l_res_max).x0 < (*l_res_max).x1
+                && (*l_res_max).y0 < (*l_res_max).y1
+            {
                 l_width_src = (res_x1 - res_x0) as OPJ_UINT32;
                 l_height_src = (res_y1 - res_y0) as OPJ_UINT32;
                 // Current tile component size
-- 
2.43.0


From b2325198d0eb4aadeb4cc1d5c5b493fcced5cf61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:54 +0000
Subject: [PATCH 23/63] fix: refuse to encode more tile-parts than a tile can
 have

---
 openjp2-rs/src/j2k.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index aeda5ac..be0bef9 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -920,7 +920,7 @@ fn opj_j2k_calculate_tp(
     mut cp: *mut opj_cp_t,
     mut p_nb_tiles: *mut OPJ_UINT32,
     mut image: &mut opj_image,
-    mut _p_manager: &mut opj_event_mgr,
+    mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
     let mut pino: OPJ_UINT32 = 0;
@@ -980,6 +980,16 @@ fn opj_j2k_calculate_tp(
         cur_totnum_tp = (cur_totnum_tp as core::ffi::c_uint).wrapping_add(tp_num) as OPJ_UINT32;
         pino += 1;
       }
+      // The number of tile-parts has to fit in TNsot.
+      if cur_totnum_tp > 255 {
+        event_msg!(
+          p_manager,
+          EVT_ERROR,
+          "%u tile-parts are more than the 255 a tile can have\n",
+          cur_totnum_tp,
+        );
+        return 0i32;
+      }
       (*tcp).m_nb_tile_parts = cur_totnum_tp;
       tcp = tcp.offset(1);
       tileno += 1;
-- 
2.43.0


From 0b47078e518da797b1c31577f10311af0a72ac37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:47 +0000
Subject: [PATCH 24/63] fix: make room for terminated passes in the data of a
 code-block

---
 openjp2-rs/src/tcd.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 2cdc619..680f17a 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1427,9 +1427,9 @@ unsafe fn opj_tcd_code_block_enc_allocate_data(
     // and +33 for https://github.com/uclouvain/openjpeg/issues/1283 (-M 4)
     // and +63 for https://github.com/uclouvain/openjpeg/issues/1283 (-M 4 -IMF 2K)
     // and +74 for https://github.com/uclouvain/openjpeg/issues/1283 (-M 4 -n 8 -s 7,7 -I)
-    // TODO: is there a theoretical upper-bound for the compressed code
-    // block size ?
-    l_data_size = (74u32).wrapping_add(
+    // Each of the up to 3 * 31 coding passes can be terminated, which takes up to
+    // 4 bytes more than the bits it codes.
+    l_data_size = (372u32).wrapping_add(
         (((*p_code_block).x1 - (*p_code_block).x0)
             * ((*p_code_block).y1 - (*p_code_block).y0)
             * core::mem::size_of::<OPJ_UINT32>() as OPJ_INT32) as OPJ_UINT32,
-- 
2.43.0


From 453f858dd85a0197b739d0c518fcd591f473a230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:57 +0000
Subject: [PATCH 25/63] fix: make room for packet headers and tile-parts in the
 data of a tile

---
 openjp2-rs/src/j2k.rs | 49 +++++++++++++++++++++++++++++++++++++++++--
 1 file changed, 47 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index be0bef9..898852b 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4622,6 +4622,51 @@ fn opj_j2k_get_default_stride(mut _p_tcp: *mut opj_tcp_t) -> OPJ_FLOAT32 {
 // @param       p_stream                                the stream to write data to.
 // @param       p_j2k                           J2K codec.
 // @param       p_manager               the user event manager.
+/// Estimates what packets, code-blocks and tile-parts can add to the coded samples of a tile.
+fn opj_j2k_get_tile_overhead(p_j2k: &opj_j2k) -> u64 {
+    unsafe {
+        let cp = &p_j2k.m_cp;
+        let image = &*p_j2k.m_private_image;
+        let tcp = &*cp.tcps;
+        let mut nb_packets = 0u64;
+        let mut nb_tile_parts = 0u64;
+        for tileno in 0..cp.tw.wrapping_mul(cp.th) {
+            let packets = opj_get_encoding_packet_count(image, cp, tileno) as u64;
+            nb_packets = nb_packets.max(packets);
+            nb_tile_parts = nb_tile_parts.max((*cp.tcps.offset(tileno as isize)).m_nb_tile_parts as u64);
+        }
+        // SOT and SOD of the tile-parts; SOP, EPH and an empty header of the packets
+        let mut size = nb_tile_parts * 14 + nb_packets * 9;
+        for compno in 0..image.numcomps as isize {
+            let comp = &*image.comps.offset(compno);
+            let tccp = &*tcp.tccps.offset(compno);
+            let w = opj_uint_ceildiv(cp.tdx, comp.dx) as u64 + 1;
+            let h = opj_uint_ceildiv(cp.tdy, comp.dy) as u64 + 1;
+            // bits that the transforms add to the samples
+            size += w * h / 2;
+            // inclusion, bit planes, numbers of passes and lengths; flushed bits
+            let mut block_size = 16 + 4 * tcp.numlayers as u64;
+            if tccp.cblksty & 0x5 != 0 {
+                // LAZY or TERMALL: lengths and flushed bits of terminated passes
+                block_size += 3 * (comp.prec as u64 + 4 + tccp.roishift as u64) * 5;
+            }
+            for resno in 0..tccp.numresolutions {
+                let (level, nb_bands, in_band) = match resno {
+                    0 => (tccp.numresolutions - 1, 1, 0),
+                    _ => (tccp.numresolutions - resno, 3, 1),
+                };
+                let cblkw = tccp.cblkw.min(tccp.prcw[resno as usize].saturating_sub(in_band));
+                let cblkh = tccp.cblkh.min(tccp.prch[resno as usize].saturating_sub(in_band));
+                let band_w = (w >> level.min(63)) + 1;
+                let band_h = (h >> level.min(63)) + 1;
+                let nb_blocks = ((band_w >> cblkw) + 2) * ((band_h >> cblkh) + 2);
+                size += nb_bands * nb_blocks.min(band_w * band_h) * block_size;
+            }
+        }
+        size
+    }
+}
+
 fn opj_j2k_update_rates(
     mut p_j2k: &mut opj_j2k,
     mut p_stream: &mut Stream,
@@ -4761,14 +4806,14 @@ fn opj_j2k_update_rates(
         // This used to be 1.3 / 8, but with random data and very small code
         // block sizes, this is not enough. For example with
         // bin/test_tile_encoder 1 256 256 32 32 8 0 reversible_with_precinct.j2k 4 4 3 0 0 1 16 16
-        // TODO revise this to take into account the overhead linked to the
-        // number of packets and number of code blocks in packets
         l_tile_size = (l_tile_size as f64 * 1.4 / 8.0) as u64;
 
         // Arbitrary amount to make the following work:
         // bin/test_tile_encoder 1 256 256 17 16 8 0 reversible_no_precinct.j2k 4 4 3 0 0 1
         l_tile_size += 500;
 
+        l_tile_size += opj_j2k_get_tile_overhead(p_j2k);
+
         l_tile_size += opj_j2k_get_specific_header_sizes(p_j2k) as u64;
 
         if l_tile_size > u32::MAX as u64 {
-- 
2.43.0


From a15983c47175584ae6de6aba219ce154ba9ac7ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:22 +0000
Subject: [PATCH 26/63] fix: report samples that the guard bits do not hold

---
 openjp2-rs/src/t2.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 202c528..b84203f 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -683,6 +683,19 @@ unsafe fn opj_t2_encode_packet(
                     cblk =
                         &mut *(*prc).cblks.enc.offset(cblkno as isize) as *mut opj_tcd_cblk_enc_t;
                     (*cblk).numpasses = 0 as OPJ_UINT32;
+                    if (*band).numbps < (*cblk).numbps as OPJ_INT32
+                        && p_t2_mode as core::ffi::c_uint == FINAL_PASS as core::ffi::c_uint
+                    {
+                        // The most significant bit planes could not be told to the decoder.
+                        event_msg!(
+                            p_manager,
+                            EVT_ERROR,
+                            "Code-block with %d bit planes in a band of %d: more guard bits are needed\n",
+                            (*cblk).numbps as OPJ_INT32,
+                            (*band).numbps,
+                        );
+                        return 0i32;
+                    }
                     opj_tgt_setvalue(
                         (*prc).imsbtree,
                         cblkno,
-- 
2.43.0


From 359aaa6b9d849955f134ad45a0204fae012fb189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:44 +0000
Subject: [PATCH 27/63] fix: copy no tile data of a component without samples
 (debug builds aborted)

---
 openjp2-rs/src/tcd.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 680f17a..4c4851c 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -2875,6 +2875,10 @@ pub(crate) fn opj_tcd_copy_tile_data(p_tcd: &mut opj_tcd_t, mut p_src: &[u8]) ->
             if l_size_comp == 3u32 {
                 l_size_comp = 4 as OPJ_UINT32
             }
+            if l_nb_elem == 0 {
+                // A subsampled component may have no samples in a tile, and no data
+                continue;
+            }
             let l_dest = std::slice::from_raw_parts_mut(l_tilec.data, l_nb_elem as usize);
             match l_size_comp {
                 1 => {
-- 
2.43.0


From 73d4b0c2dc0c16fd4ca2e3df616d1e022c80fad6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:45 +0000
Subject: [PATCH 28/63] fix: palette of JP2 files wrote to freed image data

---
 openjp2-rs/src/jp2.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 082cf3d..d8b12a1 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -589,6 +589,16 @@ fn opj_jp2_apply_pclr(
         *new_comp = *old_comp;
         new_comp.prec = channel.size as OPJ_UINT32;
         new_comp.sgnd = channel.sign as OPJ_UINT32;
+        // The old component keeps its data.
+        new_comp.data = std::ptr::null_mut();
+        if !new_comp.alloc_data() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Memory allocation failure in opj_jp2_apply_pclr().\n",
+            );
+            return 0i32;
+        }
 
         // Palette mapping:
         let src = old_comp.data().expect("Source data shouldn't be null"); // verified above
@@ -654,7 +664,7 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
     if buf.len() < nr_channels as usize {
         return 0;
     }
-    let mut entries = Vec::with_capacity((nr_channels * nr_channels) as usize);
+    let mut entries = Vec::with_capacity(nr_channels as usize * nr_entries as usize);
     let mut channel = Vec::with_capacity(nr_channels as usize);
     for _ in 0..nr_channels {
         let value = buf.read_u8().expect("Buffer should have enough data");
-- 
2.43.0


From b64eae551440cad28ddd01fb02d462cfcf02bbfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:22 +0000
Subject: [PATCH 29/63] fix: size of a decoded tile without columns (division
 by zero)

---
 openjp2-rs/src/tcd.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 4c4851c..36ad3de 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1541,6 +1541,7 @@ pub(crate) unsafe fn opj_tcd_get_decoded_tile_size(
             h = ((*l_res).y1 - (*l_res).y0) as OPJ_UINT32
         }
         if h > 0u32
+            && w > 0u32
             && (2147483647u32)
                 .wrapping_mul(2u32)
                 .wrapping_add(1u32)
-- 
2.43.0


From d0d629653c91e73851123335eea7627eb2c030ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:29 +0000
Subject: [PATCH 30/63] fix: ICC profile leaked when an image header is copied
 again

---
 openjp2-rs/src/image.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index 266db7d..826586d 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -291,6 +291,7 @@ impl opj_image {
     }
 
     fn alloc_icc_profile(&mut self, len: u32) -> bool {
+        self.clear_icc_profile();
         unsafe {
             self.icc_profile_buf = opj_malloc(len as size_t) as *mut OPJ_BYTE;
             if self.icc_profile_buf.is_null() {
-- 
2.43.0


From b294b507467292f90d65197826eaaf9af2ad90fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:36 +0000
Subject: [PATCH 31/63] fix: tile data of components without samples or not
 decoded

---
 openjp2-rs/src/tcd.rs | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 36ad3de..906bf2f 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1974,6 +1974,13 @@ pub(crate) fn opj_tcd_update_tile_data(p_tcd: &mut opj_tcd_t, mut p_dest: &mut [
                 l_size_comp = 4 as OPJ_UINT32
             }
             let l_nb_elem = l_height * l_width;
+            if l_nb_elem == 0 {
+                continue;
+            }
+            if l_src_data.is_null() {
+                // Happens for partial component decoding
+                return 0i32;
+            }
             let mut l_src =
                 std::slice::from_raw_parts(l_src_data, l_nb_elem + (l_height * l_stride));
             match l_size_comp {
-- 
2.43.0


From 2793bbbf132b868fb01cf6c7a99e3b9846e991f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 32/63] fix: decode calls after a failed one or with fewer
 components crashed

---
 openjp2-rs/src/j2k.rs | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 898852b..a49f159 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9124,6 +9124,9 @@ pub(crate) fn opj_j2k_read_tile_header(
         let l_nb_tiles = p_j2k.m_cp.tw.wrapping_mul(p_j2k.m_cp.th);
         // preconditions
 
+        if p_j2k.m_private_image.is_null() {
+            return false;
+        }
         // Reach the End Of Codestream ?
         if p_j2k.m_specific_param.m_decoder.m_state == J2KState::EOC {
             l_current_marker = J2KMarker::EOC;
@@ -9974,6 +9977,14 @@ pub(crate) fn opj_j2k_set_decode_area(
         let mut l_image = p_j2k.m_private_image;
         let mut ret: OPJ_BOOL = 0;
         let mut it_comp: OPJ_UINT32 = 0;
+        if l_image.is_null() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "Need to read the main header before setting the decoded area.\n",
+            );
+            return 0i32;
+        }
         if !(p_j2k.m_cp.tw == 1u32
             && p_j2k.m_cp.th == 1u32
             && !(*p_j2k.m_cp.tcps.offset(0)).m_data.is_null())
@@ -11963,6 +11974,14 @@ pub(crate) fn opj_j2k_decode(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
+        if p_j2k.m_private_image.is_null() {
+            event_msg!(p_manager, EVT_ERROR, "The main header must be read before decoding.\n",);
+            return 0i32;
+        }
+        if p_image.numcomps < (*p_j2k.m_private_image).numcomps {
+            event_msg!(p_manager, EVT_ERROR, "Image has less components than codestream.\n",);
+            return 0i32;
+        }
         // Heuristics to detect sequence opj_read_header(), opj_set_decoded_resolution_factor()
         // and finally opj_decode_image() without manual setting of comps[].factor
         // We could potentially always execute it, if we don't allow people to do
@@ -12024,6 +12043,10 @@ pub(crate) fn opj_j2k_get_tile(
         let mut l_tile_x: OPJ_UINT32 = 0;
         let mut l_tile_y: OPJ_UINT32 = 0;
         let mut l_img_comp = std::ptr::null_mut::<opj_image_comp_t>();
+        if p_j2k.m_private_image.is_null() {
+            event_msg!(p_manager, EVT_ERROR, "The main header must be read before decoding.\n",);
+            return 0i32;
+        }
         if p_image.numcomps < (*p_j2k.m_private_image).numcomps {
             event_msg!(p_manager, EVT_ERROR, "Image has less components than codestream.\n",);
             return 0i32;
-- 
2.43.0


From 81a2bf47bec2351461cda8bde1cd84deaf352028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:54 +0000
Subject: [PATCH 33/63] fix: a refused resolution factor took effect

---
 openjp2-rs/src/j2k.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a49f159..9b8cd30 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -12166,7 +12166,6 @@ pub(crate) fn opj_j2k_set_decoded_resolution_factor(
 ) -> OPJ_BOOL {
     unsafe {
         let mut it_comp: OPJ_UINT32 = 0;
-        p_j2k.m_cp.m_specific_param.m_dec.m_reduce = res_factor;
         if !p_j2k.m_private_image.is_null()
             && !(*p_j2k.m_private_image).comps.is_null()
             && !p_j2k.m_specific_param.m_decoder.m_default_tcp.is_null()
@@ -12188,11 +12187,17 @@ pub(crate) fn opj_j2k_set_decoded_resolution_factor(
           );
                     return 0i32;
                 }
+                it_comp += 1;
+            }
+            p_j2k.m_cp.m_specific_param.m_dec.m_reduce = res_factor;
+            it_comp = 0 as OPJ_UINT32;
+            while it_comp < (*p_j2k.m_private_image).numcomps {
                 (*(*p_j2k.m_private_image).comps.offset(it_comp as isize)).factor = res_factor;
                 it_comp += 1;
             }
             return 1i32;
         }
+        p_j2k.m_cp.m_specific_param.m_dec.m_reduce = res_factor;
         0i32
     }
 }
-- 
2.43.0


From ec8677759cc31721c4486c3ec70477b7389a50a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:50 +0000
Subject: [PATCH 34/63] fix: parts of a codestream whose last tile-part has no
 length

---
 openjp2-rs/src/j2k.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 9b8cd30..99506b0 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3757,6 +3757,8 @@ fn opj_j2k_read_sot(
       event_msg!(p_manager, EVT_INFO,
                       "Psot value of the current tile-part is equal to zero, we assuming it is the last tile-part of the codestream.\n");
       p_j2k.m_specific_param.m_decoder.m_last_tile_part = 1i32
+    } else {
+      p_j2k.m_specific_param.m_decoder.m_last_tile_part = 0i32
     }
     if (*l_tcp).m_nb_tile_parts != 0u32 && l_current_part >= (*l_tcp).m_nb_tile_parts {
       /* Fixes https://bugs.chromium.org/p/oss-fuzz/issues/detail?id=2851 */
@@ -9297,6 +9299,12 @@ pub(crate) fn opj_j2k_read_tile_header(
                             }
                         }
                         if p_j2k.m_specific_param.m_decoder.m_skip_data {
+                            if p_j2k.m_specific_param.m_decoder.m_last_tile_part != 0 {
+                                // Psot is zero: the tile-part goes on until the EOC marker
+                                p_j2k.m_specific_param.m_decoder.m_sot_length =
+                                    opj_stream_get_number_byte_left(p_stream).saturating_sub(2)
+                                        as OPJ_UINT32
+                            }
                             // Skip the rest of the tile part header
                             if opj_stream_skip(
                                 p_stream,
-- 
2.43.0


From e2f4d600e01846785fed3fb57ac23bd8ff9a2ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:46 +0000
Subject: [PATCH 35/63] fix: areas in which a component has no samples could
 not be decoded

---
 openjp2-rs/src/j2k.rs | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 99506b0..b051fbc 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -11589,10 +11589,9 @@ fn opj_j2k_are_all_used_components_decoded(
                     .m_decoder
                     .m_comps_indices_to_decode
                     .offset(compno as isize);
-                if (*(*p_j2k.m_output_image).comps.offset(dec_compno as isize))
-                    .data
-                    .is_null()
-                {
+                let comp = &*(*p_j2k.m_output_image).comps.offset(dec_compno as isize);
+                // A component may have no samples in the decoded area
+                if comp.data.is_null() && comp.w != 0 && comp.h != 0 {
                     event_msg!(
                         p_manager,
                         EVT_WARNING,
@@ -11606,10 +11605,8 @@ fn opj_j2k_are_all_used_components_decoded(
         } else {
             compno = 0 as OPJ_UINT32;
             while compno < (*p_j2k.m_output_image).numcomps {
-                if (*(*p_j2k.m_output_image).comps.offset(compno as isize))
-                    .data
-                    .is_null()
-                {
+                let comp = &*(*p_j2k.m_output_image).comps.offset(compno as isize);
+                if comp.data.is_null() && comp.w != 0 && comp.h != 0 {
                     event_msg!(p_manager, EVT_WARNING, "Failed to decode component %d\n", compno,);
                     decoded_all_used_components = 0i32
                 }
-- 
2.43.0


From 31a6ddd539f1d1b5f196b2f8773dd071ca19e62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:10 +0000
Subject: [PATCH 36/63] fix: size of reduced images at an offset

---
 openjp2-rs/src/image.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index 826586d..3330b47 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -400,8 +400,10 @@ pub(crate) fn opj_image_comp_header_update(
             let l_comp_y0 = opj_uint_ceildiv(l_y0, comp.dy);
             let l_comp_x1 = opj_uint_ceildiv(l_x1, comp.dx);
             let l_comp_y1 = opj_uint_ceildiv(l_y1, comp.dy);
-            let l_width = opj_uint_ceildivpow2(l_comp_x1.wrapping_sub(l_comp_x0), comp.factor);
-            let l_height = opj_uint_ceildivpow2(l_comp_y1.wrapping_sub(l_comp_y0), comp.factor);
+            let l_width = opj_uint_ceildivpow2(l_comp_x1, comp.factor)
+                .wrapping_sub(opj_uint_ceildivpow2(l_comp_x0, comp.factor));
+            let l_height = opj_uint_ceildivpow2(l_comp_y1, comp.factor)
+                .wrapping_sub(opj_uint_ceildivpow2(l_comp_y0, comp.factor));
             comp.w = l_width;
             comp.h = l_height;
             comp.x0 = l_comp_x0;
-- 
2.43.0


From 3769cb1efeaa4915c22ba3a31c9182c29ea3d3e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:33 +0000
Subject: [PATCH 37/63] fix: palette of an area without samples

---
 openjp2-rs/src/jp2.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index d8b12a1..fa32c63 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -549,7 +549,8 @@ fn opj_jp2_apply_pclr(
     };
     for (i, cmap) in pclr.cmap.iter().enumerate() {
         // Ensure that the component data is not null.
-        if comps[cmap.cmp as usize].data.is_null() {
+        let comp = &comps[cmap.cmp as usize];
+        if comp.data.is_null() && comp.w != 0 && comp.h != 0 {
             event_msg!(
                 p_manager,
                 EVT_ERROR,
@@ -591,6 +592,10 @@ fn opj_jp2_apply_pclr(
         new_comp.sgnd = channel.sign as OPJ_UINT32;
         // The old component keeps its data.
         new_comp.data = std::ptr::null_mut();
+        if old_comp.data.is_null() {
+            // No samples
+            continue;
+        }
         if !new_comp.alloc_data() {
             event_msg!(
                 p_manager,
-- 
2.43.0


From 07ba5a9046df5d465c7c921e2fabf32dd133d9f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:16 +0000
Subject: [PATCH 38/63] fix: channel definitions were applied to the first
 decoded tile or area only

---
 openjp2-rs/src/j2k.rs | 42 +++++++++++++++++++++++++++---------------
 openjp2-rs/src/jp2.rs | 13 ++++++-------
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index b051fbc..e86e1b7 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9971,6 +9971,27 @@ pub(crate) fn opj_j2k_set_decoded_components(
     }
 }
 
+// *
+// Gives an image that was decoded before the components of the codestream again: the colour
+// processing of JP2 files may have reordered them, or added some.
+unsafe fn opj_j2k_reset_image_components(p_j2k: &opj_j2k, p_image: &mut opj_image) {
+    let private_image = &*p_j2k.m_private_image;
+    while p_image.numcomps > private_image.numcomps {
+        p_image.numcomps -= 1;
+        (*p_image.comps.offset(p_image.numcomps as isize)).clear_data();
+    }
+    for compno in 0..p_image.numcomps as isize {
+        let src = &*private_image.comps.offset(compno);
+        let dest = &mut *p_image.comps.offset(compno);
+        dest.dx = src.dx;
+        dest.dy = src.dy;
+        dest.prec = src.prec;
+        dest.bpp = src.bpp;
+        dest.sgnd = src.sgnd;
+        dest.alpha = src.alpha;
+    }
+}
+
 pub(crate) fn opj_j2k_set_decode_area(
     mut p_j2k: &mut opj_j2k,
     mut p_image: &mut opj_image,
@@ -10007,6 +10028,7 @@ pub(crate) fn opj_j2k_set_decode_area(
                 return 0i32;
             }
         }
+        opj_j2k_reset_image_components(p_j2k, p_image);
         // Update the comps[].factor member of the output image with the one
         // of m_reduce
         it_comp = 0 as OPJ_UINT32;
@@ -11987,6 +12009,7 @@ pub(crate) fn opj_j2k_decode(
             event_msg!(p_manager, EVT_ERROR, "Image has less components than codestream.\n",);
             return 0i32;
         }
+        opj_j2k_reset_image_components(p_j2k, p_image);
         // Heuristics to detect sequence opj_read_header(), opj_set_decoded_resolution_factor()
         // and finally opj_decode_image() without manual setting of comps[].factor
         // We could potentially always execute it, if we don't allow people to do
@@ -12056,6 +12079,10 @@ pub(crate) fn opj_j2k_get_tile(
             event_msg!(p_manager, EVT_ERROR, "Image has less components than codestream.\n",);
             return 0i32;
         }
+        // Can happen when calling repeatdly opj_get_decoded_tile() on an
+        // image with a color palette, where color palette expansion is done
+        // later in jp2.c
+        opj_j2k_reset_image_components(p_j2k, p_image);
         if tile_index >= p_j2k.m_cp.tw.wrapping_mul(p_j2k.m_cp.th) {
             event_msg!(
                 p_manager,
@@ -12122,21 +12149,6 @@ pub(crate) fn opj_j2k_get_tile(
             l_img_comp = l_img_comp.offset(1);
             compno += 1;
         }
-        if p_image.numcomps > (*p_j2k.m_private_image).numcomps {
-            // Can happen when calling repeatdly opj_get_decoded_tile() on an
-            // image with a color palette, where color palette expansion is done
-            // later in jp2.c
-            compno = (*p_j2k.m_private_image).numcomps;
-            while compno < p_image.numcomps {
-                opj_image_data_free(
-                    (*p_image.comps.offset(compno as isize)).data as *mut core::ffi::c_void,
-                );
-                let fresh48 = &mut (*p_image.comps.offset(compno as isize)).data;
-                *fresh48 = std::ptr::null_mut::<OPJ_INT32>();
-                compno += 1;
-            }
-            p_image.numcomps = (*p_j2k.m_private_image).numcomps
-        }
         // Destroy the previous output image
         if !p_j2k.m_output_image.is_null() {
             opj_image_destroy(p_j2k.m_output_image);
diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index fa32c63..74379ff 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -748,12 +748,13 @@ fn opj_jp2_apply_cdef(
     color: &mut opj_jp2_color,
     manager: &mut opj_event_mgr,
 ) {
-    let cdef = if let Some(cdef) = &mut color.jp2_cdef {
-        cdef
+    // The definitions are needed again for the next area or tile
+    let mut cdef_info = if let Some(cdef) = &color.jp2_cdef {
+        cdef.info.clone()
     } else {
         return;
     };
-    let n = cdef.info.len();
+    let n = cdef_info.len();
     let comps = if let Some(comps) = image.comps_mut() {
         comps
     } else {
@@ -761,7 +762,7 @@ fn opj_jp2_apply_cdef(
     };
     let numcomps = comps.len() as u32;
     for i in 0..n {
-        let info = cdef.info[i];
+        let info = cdef_info[i];
         // WATCH: acn = asoc - 1 !
         let asoc = info.asoc;
         let cn = info.cn;
@@ -794,7 +795,7 @@ fn opj_jp2_apply_cdef(
                     // Swap channels in following channel definitions, don't bother with j <= i that
                     // are already processed
                     for j in i..n {
-                        let info = &mut cdef.info[j];
+                        let info = &mut cdef_info[j];
                         if info.cn == cn {
                             info.cn = acn
                         } else if info.cn == acn {
@@ -808,8 +809,6 @@ fn opj_jp2_apply_cdef(
             }
         }
     }
-    cdef.info.clear();
-    color.jp2_cdef = None;
 }
 
 // jp2_apply_cdef()
-- 
2.43.0


From 4da046f1fee083ad82199ae6519ff765cab6af7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:11 +0000
Subject: [PATCH 39/63] fix: copying a tile to an area without samples of a
 component failed

---
 openjp2-rs/src/j2k.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index e86e1b7..4499453 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9681,8 +9681,11 @@ fn opj_j2k_update_image_data(
                 .resolutions
                 .offset((*l_tilec).minimum_num_resolutions.wrapping_sub(1u32) as isize);
             // A tile without samples of the component has no packet from which
-            // resno_decoded could have been found, and nothing to copy.
+            // resno_decoded could have been found, and nothing to copy. Nor is
+            // there anything to copy to an area without samples of the component.
             if !p_src_data.is_null()
+                && (*l_img_comp_dest).w != 0u32
+                && (*l_img_comp_dest).h != 0u32
                 && (*l_res_max).x0 < (*l_res_max).x1
                 && (*l_res_max).y0 < (*l_res_max).y1
             {
-- 
2.43.0


From d5fa17ed781cac660651e0a90478c03ea401e810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:19 +0000
Subject: [PATCH 40/63] fix: reduced decoding of tiles without samples at that
 resolution failed

---
 openjp2-rs/src/dwt.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index fd2e5ae..23c8b5d 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -1471,6 +1471,10 @@ unsafe fn opj_dwt_decode_tile(
         return 1i32;
     }
     h_mem_size = opj_dwt_max_resolution(tr, numres) as OPJ_SIZE_T;
+    if h_mem_size == 0 {
+        // Resolutions without samples
+        return 1i32;
+    }
     // overflow check
     if h_mem_size > (usize::MAX / PARALLEL_COLS_53 / core::mem::size_of::<OPJ_INT32>()) {
         // FIXME event manager error callback
@@ -2497,6 +2501,10 @@ unsafe fn opj_dwt_decode_tile_97(
         return 1i32;
     }
     l_data_size = opj_dwt_max_resolution(res, numres) as OPJ_SIZE_T;
+    if l_data_size == 0 {
+        // Resolutions without samples
+        return 1i32;
+    }
     // overflow check
     if l_data_size > (usize::MAX).wrapping_div(core::mem::size_of::<opj_v8_t>()) {
         // FIXME event manager error callback
-- 
2.43.0


From b03956259e2c5d495931b6b709dd2921d21ee6a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:20 +0000
Subject: [PATCH 41/63] fix: a codestream ending without EOC lost tiles and
 could not be decoded again

---
 openjp2-rs/src/j2k.rs | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 4499453..71a0dde 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9450,9 +9450,10 @@ pub(crate) fn opj_j2k_read_tile_header(
                     J2KMarker::from_buffer(p_j2k.m_specific_param.m_decoder.m_header_data);
             }
         }
-        // Current marker is the EOC marker ?
-        if l_current_marker == J2KMarker::EOC
-            && p_j2k.m_specific_param.m_decoder.m_state != J2KState::EOC
+        // Current marker is the EOC marker, or is it missing ?
+        if (l_current_marker == J2KMarker::EOC
+            && p_j2k.m_specific_param.m_decoder.m_state != J2KState::EOC)
+            || p_j2k.m_specific_param.m_decoder.m_state == J2KState::NEOC
         {
             p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
             p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC
@@ -9583,6 +9584,9 @@ pub(crate) fn opj_j2k_decode_tile(
         if opj_stream_get_number_byte_left(p_stream) == 0i64
             && p_j2k.m_specific_param.m_decoder.m_state == J2KState::NEOC
         {
+            // Nothing follows: go on as after the EOC marker
+            p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
+            p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
             return 1i32;
         }
         if p_j2k.m_specific_param.m_decoder.m_state != J2KState::EOC {
@@ -9597,7 +9601,8 @@ pub(crate) fn opj_j2k_decode_tile(
                 p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC
             } else if l_current_marker != J2KMarker::SOT {
                 if opj_stream_get_number_byte_left(p_stream) == 0i64 {
-                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
+                    p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
+                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
                     event_msg!(p_manager, EVT_WARNING, "Stream does not end with EOC\n",);
                     return 1i32;
                 }
@@ -11748,11 +11753,6 @@ fn opj_j2k_decode_tiles(
                 "Image data has been updated with tile %d.\n\n",
                 tile_info.index.wrapping_add(1u32),
             );
-            if opj_stream_get_number_byte_left(p_stream) == 0i64
-                && p_j2k.m_specific_param.m_decoder.m_state == J2KState::NEOC
-            {
-                break;
-            }
             nr_tiles = nr_tiles.wrapping_add(1);
             if nr_tiles == p_j2k.m_cp.th.wrapping_mul(p_j2k.m_cp.tw) {
                 break;
-- 
2.43.0


From f3f9afe06774ece131bd9fd50a4a509ad7b9ccd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:40 +0000
Subject: [PATCH 42/63] fix: strict decoding took codestreams with missing
 tiles for complete

---
 openjp2-rs/src/j2k.rs | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 71a0dde..c22884f 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4425,7 +4425,15 @@ fn opj_j2k_read_sod(
         } else {
             l_current_read_size = 0 as OPJ_SIZE_T
         }
+        if l_current_read_size == OPJ_SIZE_T::MAX {
+            // Nothing could be read
+            l_current_read_size = 0 as OPJ_SIZE_T
+        }
         if l_current_read_size != p_j2k.m_specific_param.m_decoder.m_sot_length as usize {
+            if p_j2k.m_cp.strict != 0 {
+                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                return 0i32;
+            }
             p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC
         } else {
             p_j2k.m_specific_param.m_decoder.m_state = J2KState::TPHSOT
@@ -9141,6 +9149,13 @@ pub(crate) fn opj_j2k_read_tile_header(
             // Try to read until the Start Of Data is detected
             while l_current_marker != J2KMarker::SOD {
                 if opj_stream_get_number_byte_left(p_stream) == 0i64 {
+                    // (a tile-part without length goes on until the end)
+                    if p_j2k.m_cp.strict != 0
+                        && p_j2k.m_specific_param.m_decoder.m_last_tile_part == 0
+                    {
+                        event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
+                        return false;
+                    }
                     p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
                     break;
                 } else {
@@ -11758,6 +11773,23 @@ fn opj_j2k_decode_tiles(
                 break;
             }
         }
+        if p_j2k.m_cp.strict != 0 {
+            let decoder = &p_j2k.m_specific_param.m_decoder;
+            let wanted = decoder
+                .m_end_tile_x
+                .saturating_sub(decoder.m_start_tile_x)
+                .wrapping_mul(decoder.m_end_tile_y.saturating_sub(decoder.m_start_tile_y));
+            if nr_tiles < wanted {
+                event_msg!(
+                    p_manager,
+                    EVT_ERROR,
+                    "Only %d of %d tiles could be decoded\n",
+                    nr_tiles,
+                    wanted,
+                );
+                return 0i32;
+            }
+        }
         if opj_j2k_are_all_used_components_decoded(p_j2k, p_manager) == 0 {
             return 0i32;
         }
-- 
2.43.0


From 25fcf1b4299a7ce6597bff5007e952a37240fed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:32 +0000
Subject: [PATCH 43/63] fix: a tile cut short at the end of the stream could
 not be decoded

---
 openjp2-rs/src/j2k.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index c22884f..45e0b68 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9468,7 +9468,8 @@ pub(crate) fn opj_j2k_read_tile_header(
         // Current marker is the EOC marker, or is it missing ?
         if (l_current_marker == J2KMarker::EOC
             && p_j2k.m_specific_param.m_decoder.m_state != J2KState::EOC)
-            || p_j2k.m_specific_param.m_decoder.m_state == J2KState::NEOC
+            || (!p_j2k.m_specific_param.m_decoder.m_can_decode
+                && p_j2k.m_specific_param.m_decoder.m_state == J2KState::NEOC)
         {
             p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
             p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC
-- 
2.43.0


From 825abc4eb3ca88cc5a4e9158d36d530f0ccf3072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 44/63] fix: tolerant decoding failed for most truncated files

---
 openjp2-rs/src/j2k.rs | 51 +++++++++++++++++++++++++++++++++++++------
 1 file changed, 44 insertions(+), 7 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 45e0b68..eabde80 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9054,8 +9054,11 @@ fn opj_j2k_need_nb_tile_parts_correction(
                 p_manager,
             ) != 2
             {
-                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                return 0i32;
+                // assume all is OK
+                if opj_stream_seek(p_stream, l_stream_pos_backup, p_manager) == 0 {
+                    return 0i32;
+                }
+                return 1i32;
             }
             // Read 2 bytes from the buffer as the marker size
             opj_read_bytes(l_header_data.as_mut_ptr(), &mut l_marker_size, 2 as OPJ_UINT32);
@@ -9072,8 +9075,11 @@ fn opj_j2k_need_nb_tile_parts_correction(
                 p_manager,
             ) != l_marker_size as usize
             {
-                event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
-                return 0i32;
+                // assume all is OK
+                if opj_stream_seek(p_stream, l_stream_pos_backup, p_manager) == 0 {
+                    return 0i32;
+                }
+                return 1i32;
             }
             if opj_j2k_get_sot_values(
                 l_header_data.as_mut_ptr(),
@@ -9168,6 +9174,10 @@ pub(crate) fn opj_j2k_read_tile_header(
                         p_manager,
                     ) != 2
                     {
+                        if p_j2k.m_cp.strict == 0 {
+                            p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
+                            break;
+                        }
                         event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
                         return false;
                     }
@@ -9223,6 +9233,10 @@ pub(crate) fn opj_j2k_read_tile_header(
                             if l_marker_size as OPJ_OFF_T
                                 > opj_stream_get_number_byte_left(p_stream)
                             {
+                                if p_j2k.m_cp.strict == 0 {
+                                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
+                                    break;
+                                }
                                 event_msg!(
                                     p_manager,
                                     EVT_ERROR,
@@ -9263,6 +9277,10 @@ pub(crate) fn opj_j2k_read_tile_header(
                             p_manager,
                         ) != l_marker_size as usize
                         {
+                            if p_j2k.m_cp.strict == 0 {
+                                p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
+                                break;
+                            }
                             event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
                             return false;
                         }
@@ -9327,6 +9345,10 @@ pub(crate) fn opj_j2k_read_tile_header(
                                 p_manager,
                             ) != p_j2k.m_specific_param.m_decoder.m_sot_length as i64
                             {
+                                if p_j2k.m_cp.strict == 0 {
+                                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
+                                    break;
+                                }
                                 event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
                                 return false;
                             }
@@ -9342,6 +9364,10 @@ pub(crate) fn opj_j2k_read_tile_header(
                                 p_manager,
                             ) != 2
                             {
+                                if p_j2k.m_cp.strict == 0 {
+                                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
+                                    break;
+                                }
                                 event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
                                 return false;
                             }
@@ -9353,9 +9379,10 @@ pub(crate) fn opj_j2k_read_tile_header(
                     }
                 }
             }
-            if opj_stream_get_number_byte_left(p_stream) == 0i64
-                && p_j2k.m_specific_param.m_decoder.m_state == J2KState::NEOC
-            {
+            if p_j2k.m_specific_param.m_decoder.m_state == J2KState::NEOC {
+                // The header of this tile-part is not complete
+                p_j2k.m_specific_param.m_decoder.m_can_decode = false;
+                p_j2k.m_specific_param.m_decoder.m_skip_data = false;
                 break;
             }
             // If we didn't skip data before, we need to read the SOD marker
@@ -9457,6 +9484,10 @@ pub(crate) fn opj_j2k_read_tile_header(
                         break;
                     }
                 }
+                if p_j2k.m_cp.strict == 0 {
+                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
+                    break;
+                }
                 event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
                 return false;
             } else {
@@ -9608,6 +9639,12 @@ pub(crate) fn opj_j2k_decode_tile(
         if p_j2k.m_specific_param.m_decoder.m_state != J2KState::EOC {
             if opj_stream_read_data(p_stream, l_data.as_mut_ptr(), 2 as OPJ_SIZE_T, p_manager) != 2
             {
+                if p_j2k.m_cp.strict == 0 {
+                    p_j2k.m_current_tile_number = 0 as OPJ_UINT32;
+                    p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
+                    event_msg!(p_manager, EVT_WARNING, "Stream does not end with EOC\n",);
+                    return 1i32;
+                }
                 event_msg!(p_manager, EVT_ERROR, "Stream too short\n",);
                 return 0i32;
             }
-- 
2.43.0


From 42777e68e42b4b94dc3a7c4e85a9e8f3fc6f1cc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:51 +0000
Subject: [PATCH 45/63] fix: length of a tile-part without length at the end of
 a stream

---
 openjp2-rs/src/j2k.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index eabde80..26885fd 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4283,7 +4283,7 @@ fn opj_j2k_read_sod(
       // so its result will fit on OPJ_UINT32 unless we find
       // a file with a single tile part of more than 4 GB...*/
       p_j2k.m_specific_param.m_decoder.m_sot_length =
-        (opj_stream_get_number_byte_left(p_stream) - 2i64) as OPJ_UINT32
+        opj_stream_get_number_byte_left(p_stream).saturating_sub(2).max(0) as OPJ_UINT32
     } else if p_j2k.m_specific_param.m_decoder.m_sot_length >= 2u32 {
       p_j2k.m_specific_param.m_decoder.m_sot_length = (p_j2k.m_specific_param.m_decoder.m_sot_length
         as core::ffi::c_uint)
@@ -9335,7 +9335,7 @@ pub(crate) fn opj_j2k_read_tile_header(
                             if p_j2k.m_specific_param.m_decoder.m_last_tile_part != 0 {
                                 // Psot is zero: the tile-part goes on until the EOC marker
                                 p_j2k.m_specific_param.m_decoder.m_sot_length =
-                                    opj_stream_get_number_byte_left(p_stream).saturating_sub(2)
+                                    opj_stream_get_number_byte_left(p_stream).saturating_sub(2).max(0)
                                         as OPJ_UINT32
                             }
                             // Skip the rest of the tile part header
-- 
2.43.0


From 4d0c811dc8d19d612ff582e15d592e1b5d8dfb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:35 +0000
Subject: [PATCH 46/63] fix: calls out of order on a codec crashed or leaked

---
 openjp2-rs/src/codec.rs    |  13 +++
 openjp2-rs/src/j2k.rs      | 163 +++++++++++++++++++++++++++++++++----
 openjp2-rs/src/openjpeg.rs |   2 +-
 3 files changed, 163 insertions(+), 15 deletions(-)

diff --git a/openjp2-rs/src/codec.rs b/openjp2-rs/src/codec.rs
index 6e68959..2a3a480 100644
--- a/openjp2-rs/src/codec.rs
+++ b/openjp2-rs/src/codec.rs
@@ -170,6 +170,19 @@ impl Codec {
         );
             }
             CodecType::Decoder(dec) => {
+                let j2k = match dec {
+                    CodecFormat::J2K(dec) => &*dec,
+                    CodecFormat::JP2(dec) => &dec.j2k,
+                };
+                if !j2k.m_private_image.is_null() {
+                    // The main header has been checked against the previous parameters
+                    event_msg!(
+                        &mut self.m_event_mgr,
+                        EVT_ERROR,
+                        "The decoder cannot be set up again after the header has been read.\n",
+                    );
+                    return 0i32;
+                }
                 match dec {
                     CodecFormat::J2K(dec) => {
                         opj_j2k_setup_decoder(dec, parameters);
diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 26885fd..0e032ee 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -428,6 +428,23 @@ impl J2KMarker {
 // Updates the Tile Length Marker.
 fn opj_j2k_update_tlm(mut p_j2k: &mut opj_j2k, mut p_tile_part_size: OPJ_UINT32) {
     unsafe {
+        let entry_size = if p_j2k.m_specific_param.m_encoder.m_Ttlmi_is_byte != 0 {
+            5
+        } else {
+            6
+        };
+        let used = p_j2k
+            .m_specific_param
+            .m_encoder
+            .m_tlm_sot_offsets_current
+            .offset_from(p_j2k.m_specific_param.m_encoder.m_tlm_sot_offsets_buffer)
+            as u64;
+        if used + entry_size
+            > p_j2k.m_specific_param.m_encoder.m_total_tile_parts as u64 * entry_size
+        {
+            // A tile has been written again after a failure
+            return;
+        }
         if p_j2k.m_specific_param.m_encoder.m_Ttlmi_is_byte != 0 {
             opj_write_bytes(
                 p_j2k.m_specific_param.m_encoder.m_tlm_sot_offsets_current,
@@ -6916,6 +6933,16 @@ pub(crate) fn opj_j2k_setup_encoder(
         let mut cp = std::ptr::null_mut::<opj_cp_t>();
         let mut cblkw: OPJ_UINT32 = 0;
         let mut cblkh: OPJ_UINT32 = 0;
+        if !p_j2k.m_private_image.is_null() {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "The encoder cannot be set up again after the compression has been started.\n",
+            );
+            return 0i32;
+        }
+        // Forget the parameters of a previous call
+        opj_j2k_cp_destroy(&mut p_j2k.m_cp);
         if parameters.numresolution <= 0i32 || parameters.numresolution > 33i32 {
             event_msg!(
                 p_manager,
@@ -7835,6 +7862,10 @@ pub(crate) unsafe fn opj_j2k_read_header(
     unsafe {
         // preconditions
 
+        if !p_j2k.m_private_image.is_null() {
+            event_msg!(p_manager, EVT_ERROR, "The main header has already been read.\n",);
+            return 0i32;
+        }
         // create an empty image header
         p_j2k.m_private_image = opj_image_create0();
         if p_j2k.m_private_image.is_null() {
@@ -9574,6 +9605,7 @@ pub(crate) fn opj_j2k_decode_tile(
 
         if p_j2k.m_specific_param.m_decoder.m_state & J2KState::DATA == J2KState::NONE
             || p_tile_index != p_j2k.m_current_tile_number
+            || p_j2k.m_private_image.is_null()
         {
             return 0i32;
         }
@@ -9587,7 +9619,7 @@ pub(crate) fn opj_j2k_decode_tile(
         // to the full image dimension. This is a bit surprising that
         // opj_set_decode_area() is only used to determine intersecting tiles,
         // but full tile decoding is done
-        l_image_for_bounds = if !p_j2k.m_output_image.is_null() {
+        l_image_for_bounds = if !p_j2k.m_output_image.is_null() && p_data.is_none() {
             p_j2k.m_output_image
         } else {
             p_j2k.m_private_image
@@ -11383,6 +11415,10 @@ pub(crate) fn j2k_dump_image_comp_header(
 pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_info_v2_t {
     unsafe {
         let mut compno: OPJ_UINT32 = 0;
+        if !p_j2k.m_cp.m_is_decoder || p_j2k.m_private_image.is_null() {
+            // The main header has not been read
+            return std::ptr::null_mut::<opj_codestream_info_v2_t>();
+        }
         let mut numcomps = (*p_j2k.m_private_image).numcomps;
         let mut l_default_tile = std::ptr::null_mut::<opj_tcp_t>();
         let mut cstr_info =
@@ -11469,6 +11505,9 @@ pub(crate) fn j2k_get_cstr_info(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_
 
 pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream_index_t {
     unsafe {
+        if p_j2k.cstr_index.is_null() {
+            return std::ptr::null_mut::<opj_codestream_index_t>();
+        }
         let mut l_cstr_index =
             opj_calloc(1i32 as size_t, core::mem::size_of::<opj_codestream_index_t>())
                 as *mut opj_codestream_index_t;
@@ -11483,7 +11522,7 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
             ((*l_cstr_index).marknum as usize)
                 .wrapping_mul(core::mem::size_of::<opj_marker_info_t>()),
         ) as *mut opj_marker_info_t;
-        if (*l_cstr_index).marker.is_null() {
+        if (*l_cstr_index).marker.is_null() && (*l_cstr_index).marknum != 0 {
             opj_free(l_cstr_index as *mut core::ffi::c_void);
             return std::ptr::null_mut::<opj_codestream_index_t>();
         }
@@ -11526,6 +11565,7 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
                 if (*(*l_cstr_index).tile_index.offset(it_tile as isize))
                     .marker
                     .is_null()
+                    && (*(*l_cstr_index).tile_index.offset(it_tile as isize)).marknum != 0
                 {
                     let mut it_tile_free: OPJ_UINT32 = 0;
                     it_tile_free = 0 as OPJ_UINT32;
@@ -11534,6 +11574,10 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
                             (*(*l_cstr_index).tile_index.offset(it_tile_free as isize)).marker
                                 as *mut core::ffi::c_void,
                         );
+                        opj_free(
+                            (*(*l_cstr_index).tile_index.offset(it_tile_free as isize)).tp_index
+                                as *mut core::ffi::c_void,
+                        );
                         it_tile_free += 1;
                     }
                     opj_free((*l_cstr_index).tile_index as *mut core::ffi::c_void);
@@ -11573,10 +11617,11 @@ pub(crate) fn j2k_get_cstr_index(mut p_j2k: &mut opj_j2k) -> *mut opj_codestream
                 if (*(*l_cstr_index).tile_index.offset(it_tile as isize))
                     .tp_index
                     .is_null()
+                    && (*(*l_cstr_index).tile_index.offset(it_tile as isize)).nb_tps != 0
                 {
                     let mut it_tile_free_0: OPJ_UINT32 = 0;
                     it_tile_free_0 = 0 as OPJ_UINT32;
-                    while it_tile_free_0 < it_tile {
+                    while it_tile_free_0 <= it_tile {
                         opj_free(
                             (*(*l_cstr_index).tile_index.offset(it_tile_free_0 as isize)).marker
                                 as *mut core::ffi::c_void,
@@ -12297,6 +12342,14 @@ pub(crate) unsafe fn opj_j2k_encoder_set_extra_options(
     options: &[&str],
     p_manager: &mut opj_event_mgr,
 ) -> bool {
+    if p_j2k.m_cp.tcps.is_null() || !p_j2k.m_private_image.is_null() {
+        event_msg!(
+            p_manager,
+            EVT_ERROR,
+            "Options can only be set after setting up the encoder and before starting the compression.\n",
+        );
+        return false;
+    }
     for option in options {
         if option.starts_with("PLT=") {
             if *option == "PLT=YES" {
@@ -12370,6 +12423,29 @@ pub(crate) fn opj_j2k_encode(
         // preconditions
 
         p_tcd = p_j2k.m_tcd;
+        if let Some(tcd) = p_tcd.as_ref() {
+            let comps = (*tcd.image).comps;
+            for compno in 0..(*tcd.image).numcomps {
+                let comp = &*comps.offset(compno as isize);
+                if comp.data.is_null() && comp.w != 0 && comp.h != 0 {
+                    event_msg!(p_manager, EVT_ERROR, "Component %d has no data.\n", compno,);
+                    return 0i32;
+                }
+                let w = opj_uint_ceildiv((*tcd.image).x1, comp.dx)
+                    .saturating_sub(opj_uint_ceildiv((*tcd.image).x0, comp.dx));
+                let h = opj_uint_ceildiv((*tcd.image).y1, comp.dy)
+                    .saturating_sub(opj_uint_ceildiv((*tcd.image).y0, comp.dy));
+                if comp.w < w || comp.h < h {
+                    event_msg!(
+                        p_manager,
+                        EVT_ERROR,
+                        "Component %d is smaller than the area of the image.\n",
+                        compno,
+                    );
+                    return 0i32;
+                }
+            }
+        }
         l_nb_tiles = p_j2k.m_cp.th.wrapping_mul(p_j2k.m_cp.tw);
         if l_nb_tiles == 1u32 {
             l_reuse_data = 1i32
@@ -12390,6 +12466,10 @@ pub(crate) fn opj_j2k_encode(
                 let mut l_tilec = (*(*(*p_tcd).tcd_image).tiles).comps.offset(j as isize);
                 if l_reuse_data != 0 {
                     let mut l_img_comp = (*(*p_tcd).image).comps.offset(j as isize);
+                    if (*l_tilec).ownsData != 0 {
+                        // Left by opj_write_tile after a failure
+                        opj_image_data_free((*l_tilec).data as *mut core::ffi::c_void);
+                    }
                     (*l_tilec).data = (*l_img_comp).data;
                     (*l_tilec).ownsData = 0i32
                 } else if opj_alloc_tile_component_data(l_tilec) == 0 {
@@ -12417,20 +12497,19 @@ pub(crate) fn opj_j2k_encode(
                     l_current_data = l_new_current_data;
                     l_max_tile_size = l_current_tile_size
                 }
-                if l_current_data.is_null() {
-                    // Should not happen in practice, but will avoid Coverity to
-                    // complain about a null pointer dereference
-                    panic!("");
-                    // C: assert(0);
-                }
                 // copy image data (32 bit) to l_current_data as contiguous, all-component, zero
                 // offset buffer
                 // 32 bit components @ 8 bit precision get converted to 8 bit
                 // 32 bit components @ 16 bit precision get converted to 16 bit
-                let p_data = std::slice::from_raw_parts_mut(
-                    l_current_data as *mut u8,
-                    l_current_tile_size as usize,
-                );
+                let p_data = if l_current_data.is_null() {
+                    // No component has a sample in this tile
+                    &mut []
+                } else {
+                    std::slice::from_raw_parts_mut(
+                        l_current_data as *mut u8,
+                        l_current_tile_size as usize,
+                    )
+                };
                 opj_j2k_get_tile_data(&mut *p_j2k.m_tcd, p_data);
                 // now copy this data into the tile component
                 if opj_tcd_copy_tile_data(&mut *p_j2k.m_tcd, p_data) == 0 {
@@ -12464,6 +12543,18 @@ pub(crate) fn opj_j2k_end_compress(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     let mut procedure_list = opj_j2k_proc_list_t::new();
+    if p_j2k.m_tcd.is_null()
+        || unsafe {
+            p_j2k
+                .m_specific_param
+                .m_encoder
+                .m_encoded_tile_data
+                .is_null()
+        }
+    {
+        event_msg!(p_manager, EVT_ERROR, "The compression has not been started.\n",);
+        return 0i32;
+    }
     // customization of the encoding
     if opj_j2k_setup_end_compress(p_j2k, &mut procedure_list, p_manager) == 0 {
         return 0i32;
@@ -12485,6 +12576,38 @@ pub(crate) fn opj_j2k_start_compress(
     // preconditions
 
     unsafe {
+        if p_j2k.m_cp.tcps.is_null()
+            || !p_j2k.m_private_image.is_null()
+            || p_j2k
+                .m_specific_param
+                .m_encoder
+                .m_header_tile_data
+                .is_null()
+        {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "The encoder is not set up, or the compression has been started before.\n",
+            );
+            return 0i32;
+        }
+        let cp = &p_j2k.m_cp;
+        if p_image.comps.is_null()
+            || p_image.numcomps != p_j2k.m_specific_param.m_encoder.m_nb_comps
+            || p_image.x0 < cp.tx0
+            || p_image.y0 < cp.ty0
+            || p_image.x1 <= p_image.x0
+            || p_image.y1 <= p_image.y0
+            || opj_uint_ceildiv(p_image.x1 - cp.tx0, cp.tdx) != cp.tw
+            || opj_uint_ceildiv(p_image.y1 - cp.ty0, cp.tdy) != cp.th
+        {
+            event_msg!(
+                p_manager,
+                EVT_ERROR,
+                "The image is not like the one that the encoder has been set up for.\n",
+            );
+            return 0i32;
+        }
         p_j2k.m_private_image = opj_image_create0();
         if p_j2k.m_private_image.is_null() {
             event_msg!(p_manager, EVT_ERROR, "Failed to allocate image header.",);
@@ -12533,7 +12656,19 @@ fn opj_j2k_pre_write_tile(
     mut p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
     unsafe {
-        if p_tile_index != p_j2k.m_current_tile_number {
+        if p_j2k.m_tcd.is_null()
+            || p_j2k
+                .m_specific_param
+                .m_encoder
+                .m_encoded_tile_data
+                .is_null()
+        {
+            event_msg!(p_manager, EVT_ERROR, "The compression has not been started.\n",);
+            return 0i32;
+        }
+        if p_tile_index != p_j2k.m_current_tile_number
+            || p_tile_index >= p_j2k.m_cp.tw.wrapping_mul(p_j2k.m_cp.th)
+        {
             event_msg!(p_manager, EVT_ERROR, "The given tile index does not match.",);
             return 0i32;
         }
diff --git a/openjp2-rs/src/openjpeg.rs b/openjp2-rs/src/openjpeg.rs
index 784fd26..9604692 100644
--- a/openjp2-rs/src/openjpeg.rs
+++ b/openjp2-rs/src/openjpeg.rs
@@ -504,7 +504,7 @@ pub unsafe fn opj_get_cstr_info(mut p_codec: *mut opj_codec_t) -> *mut opj_codes
 
 #[no_mangle]
 pub unsafe fn opj_destroy_cstr_info(mut cstr_info: *mut *mut opj_codestream_info_v2_t) {
-    if !cstr_info.is_null() {
+    if !cstr_info.is_null() && !(*cstr_info).is_null() {
         // TODO: use drop.
         if !(**cstr_info).m_default_tile_info.tccp_info.is_null() {
             opj_free((**cstr_info).m_default_tile_info.tccp_info as *mut core::ffi::c_void);
-- 
2.43.0


From 01359e645d4e2c71be9be9f823723c419425f7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:27 +0000
Subject: [PATCH 47/63] fix: PCRL and CPRL lost packets with very many
 resolutions

---
 openjp2-rs/src/pi.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/openjp2-rs/src/pi.rs b/openjp2-rs/src/pi.rs
index e6a6e44..e8e1a03 100644
--- a/openjp2-rs/src/pi.rs
+++ b/openjp2-rs/src/pi.rs
@@ -807,8 +807,8 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         as *mut opj_pi_resolution_t;
                     levelno = (*comp).numresolutions - 1 - (*pi).resno;
 
-                    if (((*comp).dx << levelno as u64) >> levelno) as u32 != (*comp).dx
-                        || (((*comp).dy << levelno as u64) >> levelno) as u32 != (*comp).dy
+                    if ((((*comp).dx as u64) << levelno) >> levelno) as u32 != (*comp).dx
+                        || ((((*comp).dy as u64) << levelno) >> levelno) as u32 != (*comp).dy
                     {
                         current_block = 15512526488502093901;
                         continue;
@@ -833,8 +833,8 @@ unsafe fn opj_pi_next_pcrl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     rpx = (*res).pdx.wrapping_add(levelno);
                     rpy = (*res).pdy.wrapping_add(levelno);
 
-                    if (((*comp).dx << rpx) as u64 >> rpx) as u32 != (*comp).dx
-                        || (((*comp).dy << rpy) as u64 >> rpy) as u32 != (*comp).dy
+                    if ((((*comp).dx as u64) << rpx) >> rpx) as u32 != (*comp).dx
+                        || ((((*comp).dy as u64) << rpy) >> rpy) as u32 != (*comp).dy
                     {
                         current_block = 15512526488502093901;
                         continue;
@@ -1086,8 +1086,8 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                         as *mut opj_pi_resolution_t;
                     levelno = (*comp).numresolutions - 1 - (*pi).resno;
 
-                    if (((*comp).dx << levelno as u64) >> levelno) as u32 != (*comp).dx
-                        || (((*comp).dy << levelno as u64) >> levelno) as u32 != (*comp).dy
+                    if ((((*comp).dx as u64) << levelno) >> levelno) as u32 != (*comp).dx
+                        || ((((*comp).dy as u64) << levelno) >> levelno) as u32 != (*comp).dy
                     {
                         current_block = 3123434771885419771;
                         continue;
@@ -1112,8 +1112,8 @@ unsafe fn opj_pi_next_cprl(mut pi: *mut opj_pi_iterator_t) -> OPJ_BOOL {
                     rpx = (*res).pdx.wrapping_add(levelno);
                     rpy = (*res).pdy.wrapping_add(levelno);
 
-                    if (((*comp).dx << rpx) as u64 >> rpx) as u32 != (*comp).dx
-                        || (((*comp).dy << rpy) as u64 >> rpy) as u32 != (*comp).dy
+                    if ((((*comp).dx as u64) << rpx) >> rpx) as u32 != (*comp).dx
+                        || ((((*comp).dy as u64) << rpy) >> rpy) as u32 != (*comp).dy
                     {
                         current_block = 3123434771885419771;
                         continue;
-- 
2.43.0


From 768c5290e79ddbec028ab5e7ea20d6601b9ee954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:37 +0000
Subject: [PATCH 48/63] fix: encoding at a large offset or with large tiles
 needed gigabytes

---
 openjp2-rs/src/j2k.rs | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 0e032ee..7b19f72 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -4667,8 +4667,8 @@ fn opj_j2k_get_tile_overhead(p_j2k: &opj_j2k) -> u64 {
         for compno in 0..image.numcomps as isize {
             let comp = &*image.comps.offset(compno);
             let tccp = &*tcp.tccps.offset(compno);
-            let w = opj_uint_ceildiv(cp.tdx, comp.dx) as u64 + 1;
-            let h = opj_uint_ceildiv(cp.tdy, comp.dy) as u64 + 1;
+            let w = opj_uint_ceildiv(cp.tdx.min(image.x1 - image.x0), comp.dx) as u64 + 1;
+            let h = opj_uint_ceildiv(cp.tdy.min(image.y1 - image.y0), comp.dy) as u64 + 1;
             // bits that the transforms add to the samples
             size += w * h / 2;
             // inclusion, bit planes, numbers of passes and lengths; flushed bits
@@ -4823,8 +4823,11 @@ fn opj_j2k_update_rates(
         let mut l_tile_size = 0u64;
         i = 0 as OPJ_UINT32;
         while i < (*l_image).numcomps {
-            l_tile_size += opj_uint_ceildiv((*l_cp).tdx, (*l_img_comp).dx) as u64
-                * opj_uint_ceildiv((*l_cp).tdy, (*l_img_comp).dy) as u64
+            // A tile is not larger than the image
+            let l_width = opj_uint_min((*l_cp).tdx, (*l_image).x1 - (*l_image).x0);
+            let l_height = opj_uint_min((*l_cp).tdy, (*l_image).y1 - (*l_image).y0);
+            l_tile_size += opj_uint_ceildiv(l_width, (*l_img_comp).dx) as u64
+                * opj_uint_ceildiv(l_height, (*l_img_comp).dy) as u64
                 * (*l_img_comp).prec as u64;
             l_img_comp = l_img_comp.offset(1);
             i += 1;
-- 
2.43.0


From 9fb835d3742751a93a0b1d917efdf3e58e61a907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:45 +0000
Subject: [PATCH 49/63] fix: null references and overflow in builds with debug
 assertions

---
 openjp2-rs/src/dwt.rs | 4 ++++
 openjp2-rs/src/t2.rs  | 6 +++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 23c8b5d..7493d4b 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -1502,6 +1502,10 @@ unsafe fn opj_dwt_decode_tile(
         v.sn = rh as OPJ_INT32;
         rw = ((*tr).x1 - (*tr).x0) as OPJ_UINT32;
         rh = ((*tr).y1 - (*tr).y0) as OPJ_UINT32;
+        if rw == 0 || rh == 0 {
+            // There may be no data at all
+            continue;
+        }
         h.dn = rw.wrapping_sub(h.sn as OPJ_UINT32) as OPJ_INT32;
         h.cas = (*tr).x0 % 2i32;
         j = 0 as OPJ_UINT32;
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index b84203f..c7650d8 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1201,14 +1201,14 @@ unsafe fn opj_t2_read_packet_header(
                             i += 1;
                         }
                         (*l_cblk).Mb = (*l_band).numbps as OPJ_UINT32;
-                        if (*l_band).numbps as u32 + 1 < i {
+                        if ((*l_band).numbps as u32).wrapping_add(1) < i {
                             // Not totally sure what we should do in that situation,
                             // but that avoids the integer overflow of
                             // https://github.com/uclouvain/openjpeg/pull/1488
                             // while keeping the regression test suite happy.
-                            (*l_cblk).numbps = ((*l_band).numbps + 1 - i as i32) as u32;
+                            (*l_cblk).numbps = ((*l_band).numbps as u32).wrapping_add(1).wrapping_sub(i);
                         } else {
-                            (*l_cblk).numbps = (*l_band).numbps as u32 + 1 - i;
+                            (*l_cblk).numbps = ((*l_band).numbps as u32).wrapping_add(1).wrapping_sub(i);
                         }
                         (*l_cblk).numlenbits = 3 as OPJ_UINT32
                     }
-- 
2.43.0


From 5b04d8be7f55090257ab1075d8a7ca77494ca1d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:10 +0000
Subject: [PATCH 50/63] fix: truncation inside a tile-part header left its
 marker to be read as boxes

---
 openjp2-rs/src/j2k.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 7b19f72..1d72e0f 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9268,6 +9268,9 @@ pub(crate) fn opj_j2k_read_tile_header(
                                 > opj_stream_get_number_byte_left(p_stream)
                             {
                                 if p_j2k.m_cp.strict == 0 {
+                                    // (what follows belongs to this marker)
+                                    let left = opj_stream_get_number_byte_left(p_stream);
+                                    opj_stream_skip(p_stream, left, p_manager);
                                     p_j2k.m_specific_param.m_decoder.m_state = J2KState::NEOC;
                                     break;
                                 }
-- 
2.43.0


From b9aa15be8dcc3c44fcc36ca4423d84106584727e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:26 +0000
Subject: [PATCH 51/63] fix: random access to tiles in an unknown number of
 tile-parts

---
 openjp2-rs/src/j2k.rs | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 1d72e0f..4bc14fe 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9497,7 +9497,10 @@ pub(crate) fn opj_j2k_read_tile_header(
                 // Deal with likely non conformant SPOT6 files, where the last
                 // row of tiles have TPsot == 0 and TNsot == 0, and missing EOC,
                 // but no other tile-parts were found.
-                if p_j2k.m_current_tile_number.wrapping_add(1u32) == l_nb_tiles {
+                // (what could not be read is not missing)
+                if p_j2k.m_current_tile_number.wrapping_add(1u32) == l_nb_tiles
+                    && opj_stream_get_number_byte_left(p_stream) == 0i64
+                {
                     let mut l_tile_no_0: OPJ_UINT32 = 0;
                     l_tile_no_0 = 0u32;
                     while l_tile_no_0 < l_nb_tiles {
@@ -9515,7 +9518,13 @@ pub(crate) fn opj_j2k_read_tile_header(
                         event_msg!(p_manager, EVT_INFO,
                                   "Tile %u has TPsot == 0 and TNsot == 0, but no other tile-parts were found. EOC is also missing.\n",
                                   l_tile_no_0);
-                        p_j2k.m_current_tile_number = l_tile_no_0;
+                        // (tiles before it may have several tile-parts)
+                        p_j2k.m_current_tile_number = (0..l_tile_no_0)
+                            .find(|i| {
+                                let tcp = p_j2k.m_cp.tcps.offset(*i as isize);
+                                (*tcp).m_nb_tile_parts == 0u32 && !(*tcp).m_data.is_null()
+                            })
+                            .unwrap_or(l_tile_no_0);
                         l_current_marker = J2KMarker::EOC;
                         p_j2k.m_specific_param.m_decoder.m_state = J2KState::EOC;
                         break;
@@ -11920,12 +11929,12 @@ fn opj_j2k_decode_one_tile(
         if !(*p_j2k.cstr_index).tile_index.is_null()
             && !(*(*p_j2k.cstr_index).tile_index).tp_index.is_null()
         {
-            if (*(*p_j2k.cstr_index)
+            // (the number of tile-parts may be unknown)
+            let tp_index = (*(*p_j2k.cstr_index)
                 .tile_index
                 .offset(l_tile_no_to_dec as isize))
-            .nb_tps
-                == 0
-            {
+            .tp_index;
+            if tp_index.is_null() || (*tp_index).start_pos == 0 {
                 // the index for this tile has not been built,
                 //  so move to the last SOT read
                 if opj_stream_seek(
@@ -11939,13 +11948,7 @@ fn opj_j2k_decode_one_tile(
                 }
             } else if opj_stream_seek(
                 p_stream,
-                (*(*(*p_j2k.cstr_index)
-                    .tile_index
-                    .offset(l_tile_no_to_dec as isize))
-                .tp_index
-                .offset(0))
-                .start_pos
-                    + 2i64,
+                (*tp_index).start_pos + 2i64,
                 p_manager,
             ) == 0
             {
-- 
2.43.0


From e3cbad1629b1cd1f87db64c0d047ea2c3acced94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:38 +0000
Subject: [PATCH 52/63] fix: packed packet headers of divided, interleaved,
 empty or repeated tiles

---
 openjp2-rs/src/j2k.rs   | 144 ++++++++++++++++++++++++++++++++--------
 openjp2-rs/src/t2.rs    |  12 +---
 openjp2-rs/src/types.rs |   4 ++
 3 files changed, 123 insertions(+), 37 deletions(-)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 4bc14fe..5cb4542 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -3119,16 +3119,17 @@ fn opj_j2k_read_ppm(
 // *
 // Merges all PPM markers read (Packed headers, main header)
 //
-// @param       p_cp      main coding parameters.
+// @param       p_j2k     J2K codec.
 // @param       p_manager the user event manager.
-fn opj_j2k_merge_ppm(mut p_cp: *mut opj_cp_t, mut p_manager: &mut opj_event_mgr) -> OPJ_BOOL {
+fn opj_j2k_merge_ppm(p_j2k: &mut opj_j2k, mut p_manager: &mut opj_event_mgr) -> OPJ_BOOL {
     unsafe {
+        let p_cp: *mut opj_cp_t = &mut p_j2k.m_cp;
+        let ppm_parts = &mut p_j2k.m_ppm_parts;
         let mut i: OPJ_UINT32 = 0;
         let mut l_ppm_data_size: OPJ_UINT32 = 0;
         let mut l_N_ppm_remaining: OPJ_UINT32 = 0;
         // preconditions
 
-        assert!(!p_cp.is_null());
         assert!((*p_cp).ppm_buffer.is_null());
         if !(*p_cp).ppm {
             return 1i32;
@@ -3170,6 +3171,8 @@ fn opj_j2k_merge_ppm(mut p_cp: *mut opj_cp_t, mut p_manager: &mut opj_event_mgr)
                             event_msg!(p_manager, EVT_ERROR, "Too large value for Nppm\n",);
                             return 0i32;
                         }
+                        // (there is one Nppm for each tile-part)
+                        ppm_parts.push((l_ppm_data_size, l_N_ppm));
                         l_ppm_data_size += l_N_ppm;
                         if l_data_size >= l_N_ppm {
                             l_data_size = (l_data_size as core::ffi::c_uint).wrapping_sub(l_N_ppm)
@@ -3300,6 +3303,59 @@ fn opj_j2k_merge_ppm(mut p_cp: *mut opj_cp_t, mut p_manager: &mut opj_event_mgr)
     }
 }
 // *
+// Gives the packet headers packed in the main header (PPM) for a tile-part to its tile.
+//
+// @param       p_j2k     J2K codec.
+// @param       sot_pos   position of the SOT marker of the tile-part.
+// @param       wanted    whether the tile-part is going to be decoded.
+// @param       p_manager the user event manager.
+fn opj_j2k_add_ppm(
+    p_j2k: &mut opj_j2k,
+    sot_pos: OPJ_OFF_T,
+    wanted: bool,
+    p_manager: &mut opj_event_mgr,
+) -> bool {
+    if !p_j2k.m_cp.ppm {
+        return true;
+    }
+    // Tile-parts are always met in order the first time
+    let part = match p_j2k.m_ppm_sots.binary_search(&sot_pos) {
+        Ok(part) => part,
+        Err(part) => {
+            p_j2k.m_ppm_sots.insert(part, sot_pos);
+            part
+        }
+    };
+    if !wanted {
+        return true;
+    }
+    unsafe {
+        let tcp = &mut *p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize);
+        tcp.ppt = true;
+        let (start, size) = p_j2k.m_ppm_parts.get(part).copied().unwrap_or((0, 0));
+        if size == 0 {
+            return true;
+        }
+        let buffer = opj_realloc(
+            tcp.ppt_buffer as *mut core::ffi::c_void,
+            tcp.ppt_data_size as size_t + size as size_t,
+        ) as *mut OPJ_BYTE;
+        if buffer.is_null() {
+            event_msg!(p_manager, EVT_ERROR, "Not enough memory to read PPM marker\n",);
+            return false;
+        }
+        memcpy(
+            buffer.add(tcp.ppt_data_size as usize) as *mut core::ffi::c_void,
+            p_j2k.m_cp.ppm_buffer.add(start as usize) as *const core::ffi::c_void,
+            size as usize,
+        );
+        tcp.ppt_buffer = buffer;
+        // (no more than all packed headers)
+        tcp.ppt_data_size += size;
+    }
+    true
+}
+// *
 // Reads a PPT marker (Packed packet headers, tile-part header)
 //
 // @param       p_header_data   the data contained in the PPT box.
@@ -4310,7 +4366,10 @@ fn opj_j2k_read_sod(
         l_tile_len = &mut (*l_tcp).m_data_size;
         // Check to avoid pass the limit of OPJ_UINT32
         // Patch to support new PHR data
-        if p_j2k.m_specific_param.m_decoder.m_sot_length != 0 {
+        // (when packet headers are packed there may be no data)
+        if p_j2k.m_specific_param.m_decoder.m_sot_length != 0
+            || ((*l_tcp).ppt && (*l_current_data).is_null())
+        {
             // If we are here, we'll try to read the data after allocation
             // Check enough bytes left in stream before allocation
             if p_j2k.m_specific_param.m_decoder.m_sot_length as OPJ_OFF_T
@@ -8533,7 +8592,7 @@ fn opj_j2k_read_header_procedure(
             event_msg!(p_manager, EVT_ERROR, "required QCD marker not found in main header\n",);
             return 0i32;
         }
-        if opj_j2k_merge_ppm(&mut p_j2k.m_cp, p_manager) == 0 {
+        if opj_j2k_merge_ppm(p_j2k, p_manager) == 0 {
             event_msg!(p_manager, EVT_ERROR, "Failed to merge PPM data\n",);
             return 0i32;
         }
@@ -8898,25 +8957,7 @@ fn opj_j2k_tcp_destroy(mut p_tcp: *mut opj_tcp_t) {
         if p_tcp.is_null() {
             return;
         }
-        if !(*p_tcp).ppt_markers.is_null() {
-            let mut i: OPJ_UINT32 = 0;
-            i = 0u32;
-            while i < (*p_tcp).ppt_markers_count {
-                if !(*(*p_tcp).ppt_markers.offset(i as isize)).m_data.is_null() {
-                    opj_free(
-                        (*(*p_tcp).ppt_markers.offset(i as isize)).m_data as *mut core::ffi::c_void,
-                    );
-                }
-                i += 1;
-            }
-            (*p_tcp).ppt_markers_count = 0u32;
-            opj_free((*p_tcp).ppt_markers as *mut core::ffi::c_void);
-            (*p_tcp).ppt_markers = std::ptr::null_mut::<opj_ppx>()
-        }
-        if !(*p_tcp).ppt_buffer.is_null() {
-            opj_free((*p_tcp).ppt_buffer as *mut core::ffi::c_void);
-            (*p_tcp).ppt_buffer = std::ptr::null_mut::<OPJ_BYTE>()
-        }
+        opj_j2k_tcp_ppt_destroy(p_tcp);
         if !(*p_tcp).tccps.is_null() {
             opj_free((*p_tcp).tccps as *mut core::ffi::c_void);
             (*p_tcp).tccps = std::ptr::null_mut::<opj_tccp_t>()
@@ -8968,6 +9009,38 @@ fn opj_j2k_tcp_data_destroy(mut p_tcp: *mut opj_tcp_t) {
             (*p_tcp).m_data = std::ptr::null_mut::<OPJ_BYTE>();
             (*p_tcp).m_data_size = 0 as OPJ_UINT32
         };
+        // The packed packet headers belong to this data
+        opj_j2k_tcp_ppt_destroy(p_tcp);
+    }
+}
+// *
+// Destroys the packed packet headers (PPT markers) of a tile.
+//
+// @param       p_tcp           the tile coding parameter which contain the headers to destroy.
+fn opj_j2k_tcp_ppt_destroy(mut p_tcp: *mut opj_tcp_t) {
+    unsafe {
+        if !(*p_tcp).ppt_markers.is_null() {
+            let mut i: OPJ_UINT32 = 0;
+            while i < (*p_tcp).ppt_markers_count {
+                if !(*(*p_tcp).ppt_markers.offset(i as isize)).m_data.is_null() {
+                    opj_free(
+                        (*(*p_tcp).ppt_markers.offset(i as isize)).m_data as *mut core::ffi::c_void,
+                    );
+                }
+                i += 1;
+            }
+            (*p_tcp).ppt_markers_count = 0u32;
+            opj_free((*p_tcp).ppt_markers as *mut core::ffi::c_void);
+            (*p_tcp).ppt_markers = std::ptr::null_mut::<opj_ppx>()
+        }
+        if !(*p_tcp).ppt_buffer.is_null() {
+            opj_free((*p_tcp).ppt_buffer as *mut core::ffi::c_void);
+            (*p_tcp).ppt_buffer = std::ptr::null_mut::<OPJ_BYTE>()
+        }
+        (*p_tcp).ppt_data = std::ptr::null_mut::<OPJ_BYTE>();
+        (*p_tcp).ppt_data_size = 0 as OPJ_UINT32;
+        (*p_tcp).ppt_len = 0 as OPJ_UINT32;
+        (*p_tcp).ppt = false;
     }
 }
 // *
@@ -9362,6 +9435,10 @@ pub(crate) fn opj_j2k_read_tile_header(
                             let mut sot_pos = (opj_stream_tell(p_stream) as OPJ_UINT32)
                                 .wrapping_sub(l_marker_size)
                                 .wrapping_sub(4u32);
+                            let wanted = !p_j2k.m_specific_param.m_decoder.m_skip_data;
+                            if !opj_j2k_add_ppm(p_j2k, sot_pos as OPJ_OFF_T, wanted, p_manager) {
+                                return false;
+                            }
                             if sot_pos as i64 > p_j2k.m_specific_param.m_decoder.m_last_sot_read_pos
                             {
                                 p_j2k.m_specific_param.m_decoder.m_last_sot_read_pos =
@@ -9563,10 +9640,14 @@ pub(crate) fn opj_j2k_read_tile_header(
                 return true;
             }
         }
-        if opj_j2k_merge_ppt(
-            p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize),
-            p_manager,
-        ) == 0
+        // (the tile may have been decoded before)
+        if !(*p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize))
+            .ppt_markers
+            .is_null()
+            && opj_j2k_merge_ppt(
+                p_j2k.m_cp.tcps.offset(p_j2k.m_current_tile_number as isize),
+                p_manager,
+            ) == 0
         {
             event_msg!(p_manager, EVT_ERROR, "Failed to merge PPT data\n",);
             return false;
@@ -9639,6 +9720,9 @@ pub(crate) fn opj_j2k_decode_tile(
         } else {
             p_j2k.m_private_image
         };
+        // (the tile may be decoded several times)
+        (*l_tcp).ppt_data = (*l_tcp).ppt_buffer;
+        (*l_tcp).ppt_len = (*l_tcp).ppt_data_size;
         if opj_tcd_decode_tile(
             p_j2k.m_tcd,
             (*l_image_for_bounds).x0,
@@ -10331,6 +10415,8 @@ impl opj_j2k {
                 ihdr_w: 0,
                 ihdr_h: 0,
                 dump_state: 0,
+                m_ppm_parts: Vec::new(),
+                m_ppm_sots: Vec::new(),
             }
         }
     }
@@ -11969,6 +12055,8 @@ fn opj_j2k_decode_one_tile(
         i = 0 as OPJ_UINT32;
         while i < l_nb_tiles {
             (*p_j2k.m_cp.tcps.offset(i as isize)).m_current_tile_part_number = -(1i32);
+            // (what has been kept of a tile is going to be read again)
+            opj_j2k_tcp_data_destroy(p_j2k.m_cp.tcps.offset(i as isize));
             i += 1;
         }
         loop {
diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index c7650d8..5a31cce 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -1013,7 +1013,7 @@ unsafe fn opj_t2_skip_packet(
 }
 
 unsafe fn opj_t2_read_packet_header(
-    mut p_t2: *mut opj_t2_t,
+    mut _p_t2: *mut opj_t2_t,
     mut p_tile: *mut opj_tcd_tile_t,
     mut p_tcp: *mut opj_tcp_t,
     mut p_pi: *mut opj_pi_iterator_t,
@@ -1032,7 +1032,6 @@ unsafe fn opj_t2_read_packet_header(
     let mut l_header_length: OPJ_UINT32 = 0;
     let mut l_modified_length_ptr = std::ptr::null_mut::<OPJ_UINT32>();
     let mut l_current_data = p_src_data;
-    let mut l_cp = (*p_t2).cp;
     let mut l_bio = std::ptr::null_mut::<opj_bio_t>();
     let mut l_band = std::ptr::null_mut::<opj_tcd_band_t>();
     let mut l_cblk = std::ptr::null_mut::<opj_tcd_cblk_dec_t>();
@@ -1099,13 +1098,8 @@ unsafe fn opj_t2_read_packet_header(
         return 0i32;
     }
 
-    if (*l_cp).ppm {
-        // PPM
-        l_header_data_start = &mut (*l_cp).ppm_data; // Normal Case
-        l_header_data = *l_header_data_start;
-        l_modified_length_ptr = &mut (*l_cp).ppm_len
-    } else if (*p_tcp).ppt {
-        // PPT
+    if (*p_tcp).ppt {
+        // PPM or PPT
         l_header_data_start = &mut (*p_tcp).ppt_data;
         l_header_data = *l_header_data_start;
         l_modified_length_ptr = &mut (*p_tcp).ppt_len
diff --git a/openjp2-rs/src/types.rs b/openjp2-rs/src/types.rs
index 9093a14..3a98210 100644
--- a/openjp2-rs/src/types.rs
+++ b/openjp2-rs/src/types.rs
@@ -334,6 +334,10 @@ pub(crate) struct opj_j2k {
     pub ihdr_w: OPJ_UINT32,
     pub ihdr_h: OPJ_UINT32,
     pub dump_state: core::ffi::c_uint,
+    /// Offset and size in `m_cp.ppm_buffer` of the packet headers of each tile-part.
+    pub m_ppm_parts: Vec<(OPJ_UINT32, OPJ_UINT32)>,
+    /// Positions of the SOT markers read so far, when packet headers are packed (PPM).
+    pub m_ppm_sots: Vec<OPJ_OFF_T>,
 }
 
 #[derive(Copy, Clone)]
-- 
2.43.0


From 0c908d2ae281743bf7f56ce21a0efa44430833ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:21:25 +0000
Subject: [PATCH 53/63] fix: a tile that could not be read was decoded later

---
 openjp2-rs/src/j2k.rs | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index 5cb4542..e7a2953 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -9239,6 +9239,26 @@ pub(crate) fn opj_j2k_read_tile_header(
     p_stream: &mut Stream,
     tile_info: &mut TileInfo,
     p_manager: &mut opj_event_mgr,
+) -> bool {
+    unsafe {
+        // The data of a single tile is kept for decoding it again
+        let single = p_j2k.m_cp.tw == 1u32 && p_j2k.m_cp.th == 1u32 && !p_j2k.m_cp.tcps.is_null();
+        let kept = single && !(*p_j2k.m_cp.tcps).m_data.is_null();
+        let ret = opj_j2k_read_tile_parts(p_j2k, p_stream, tile_info, p_manager);
+        if !ret && single && !kept {
+            // (nothing was decoded)
+            opj_j2k_tcp_data_destroy(p_j2k.m_cp.tcps);
+        }
+        ret
+    }
+}
+
+// Reads tile-parts until a tile is complete.
+fn opj_j2k_read_tile_parts(
+    p_j2k: &mut opj_j2k,
+    p_stream: &mut Stream,
+    tile_info: &mut TileInfo,
+    p_manager: &mut opj_event_mgr,
 ) -> bool {
     unsafe {
         let mut l_current_marker = J2KMarker::SOT;
-- 
2.43.0


From b410df80d9b4d5aa9e732d974b1f80bb0370256a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:45 +0000
Subject: [PATCH 54/63] fix: signed palette entries were not sign-extended

---
 openjp2-rs/src/jp2.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 74379ff..037c9be 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -686,7 +686,13 @@ fn opj_jp2_read_pclr(jp2: &mut opj_jp2, mut buf: &[u8], p_manager: &mut opj_even
                 bytes_to_read = core::mem::size_of::<u32>()
             }
             if let Ok(value) = buf.read_uint::<BigEndian>(bytes_to_read) {
-                entries.push(value as u32);
+                let mut value = value as u32;
+                if channel.sign != 0 && size < 32 {
+                    // Two's complement
+                    let unused = 32 - size as u32;
+                    value = ((value << unused) as i32 >> unused) as u32;
+                }
+                entries.push(value);
             } else {
                 // Truncated data.
                 return 0;
-- 
2.43.0


From e8bb37a0af6e46efb991d645f88cd5318fa93069 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:59 +0000
Subject: [PATCH 55/63] fix: a palette with few channels prevented decoding
 another area or tile

---
 openjp2-rs/src/j2k.rs | 38 ++++++++++++++++++++++++++++++++++++++
 openjp2-rs/src/jp2.rs | 22 ++++++++++++++++++++++
 2 files changed, 60 insertions(+)

diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index e7a2953..a891d5f 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -10204,6 +10204,44 @@ unsafe fn opj_j2k_reset_image_components(p_j2k: &opj_j2k, p_image: &mut opj_imag
     }
 }
 
+// *
+// Gives an image that was decoded before the components it lost to the palette of a JP2 file again.
+pub(crate) fn opj_j2k_restore_image_components(
+    p_j2k: &opj_j2k,
+    p_image: &mut opj_image,
+    p_manager: &mut opj_event_mgr,
+) -> OPJ_BOOL {
+    unsafe {
+        if p_j2k.m_private_image.is_null()
+            || p_image.numcomps == 0u32
+            || p_image.numcomps >= (*p_j2k.m_private_image).numcomps
+        {
+            return 1i32;
+        }
+        let numcomps = (*p_j2k.m_private_image).numcomps;
+        let comps = opj_realloc(
+            p_image.comps as *mut core::ffi::c_void,
+            (numcomps as usize).wrapping_mul(core::mem::size_of::<opj_image_comp_t>()),
+        ) as *mut opj_image_comp_t;
+        if comps.is_null() {
+            event_msg!(p_manager, EVT_ERROR, "Not enough memory for the components.\n",);
+            return 0i32;
+        }
+        p_image.comps = comps;
+        for compno in p_image.numcomps..numcomps {
+            let comp = comps.offset(compno as isize);
+            *comp = *(*p_j2k.m_private_image).comps.offset(compno as isize);
+            (*comp).data = std::ptr::null_mut::<OPJ_INT32>();
+        }
+        p_image.numcomps = numcomps;
+        opj_j2k_reset_image_components(p_j2k, p_image);
+        for compno in 0..numcomps as isize {
+            (*comps.offset(compno)).factor = p_j2k.m_cp.m_specific_param.m_dec.m_reduce;
+        }
+        opj_j2k_update_image_dimensions(p_image, p_manager)
+    }
+}
+
 pub(crate) fn opj_j2k_set_decode_area(
     mut p_j2k: &mut opj_j2k,
     mut p_image: &mut opj_image,
diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index 037c9be..da87294 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1010,12 +1010,28 @@ pub(crate) fn opj_jp2_apply_color_postprocessing(
     1
 }
 
+// The palette may have left an image that was decoded before with less components than the
+// codestream has.
+fn opj_jp2_restore_image_components(
+    jp2: &opj_jp2,
+    p_image: &mut opj_image,
+    p_manager: &mut opj_event_mgr,
+) -> OPJ_BOOL {
+    if jp2.color.jp2_pclr.is_none() {
+        return 1i32;
+    }
+    opj_j2k_restore_image_components(&jp2.j2k, p_image, p_manager)
+}
+
 pub(crate) fn opj_jp2_decode(
     jp2: &mut opj_jp2,
     p_stream: &mut Stream,
     p_image: &mut opj_image,
     p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
+    if opj_jp2_restore_image_components(jp2, p_image, p_manager) == 0 {
+        return 0i32;
+    }
     // J2K decoding
     if opj_j2k_decode(&mut jp2.j2k, p_stream, p_image, p_manager) == 0 {
         event_msg!(p_manager, EVT_ERROR, "Failed to decode the codestream in the JP2 file\n",);
@@ -1988,6 +2004,9 @@ pub(crate) fn opj_jp2_set_decode_area(
     p_end_y: OPJ_INT32,
     p_manager: &mut opj_event_mgr,
 ) -> OPJ_BOOL {
+    if opj_jp2_restore_image_components(p_jp2, p_image, p_manager) == 0 {
+        return 0i32;
+    }
     opj_j2k_set_decode_area(
         &mut p_jp2.j2k,
         p_image,
@@ -2011,6 +2030,9 @@ pub(crate) fn opj_jp2_get_tile(
         EVT_WARNING,
         "JP2 box which are after the codestream will not be read by this function.\n",
     );
+    if opj_jp2_restore_image_components(p_jp2, p_image, p_manager) == 0 {
+        return 0i32;
+    }
     if opj_j2k_get_tile(&mut p_jp2.j2k, p_stream, p_image, p_manager, tile_index) == 0 {
         event_msg!(p_manager, EVT_ERROR, "Failed to decode the codestream in the JP2 file\n",);
         return 0i32;
-- 
2.43.0


From 9091e06a11f3df14e9d8adb4909d68657471d9ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 56/63] fix: fail instead of going on with half an image header
 when memory runs out

---
 openjp2-rs/src/image.rs | 14 ++++++++------
 openjp2-rs/src/j2k.rs   | 19 +++++++++++++++----
 openjp2-rs/src/jp2.rs   |  9 ++++++++-
 3 files changed, 31 insertions(+), 11 deletions(-)

diff --git a/openjp2-rs/src/image.rs b/openjp2-rs/src/image.rs
index 3330b47..29a364b 100644
--- a/openjp2-rs/src/image.rs
+++ b/openjp2-rs/src/image.rs
@@ -241,7 +241,7 @@ impl opj_image {
     pub fn alloc_comps(&mut self, numcomps: u32, clear: bool) -> bool {
         self.clear_comps();
         unsafe {
-            self.numcomps = numcomps;
+            self.numcomps = 0;
             self.comps = if clear {
                 opj_calloc(numcomps as size_t, core::mem::size_of::<opj_image_comp_t>())
             } else {
@@ -250,6 +250,7 @@ impl opj_image {
             if self.comps.is_null() {
                 return false;
             }
+            self.numcomps = numcomps;
         }
         true
     }
@@ -419,10 +420,12 @@ pub(crate) fn opj_image_comp_header_update(
 // @param   p_image_src     the src image
 // @param   p_image_dest    the dest image
 //
+// @return  false if there is not enough memory
+//
 pub(crate) fn opj_copy_image_header(
     mut p_image_src: *const opj_image_t,
     mut p_image_dest: *mut opj_image_t,
-) {
+) -> bool {
     let (p_image_src, p_image_dest) = unsafe {
         // preconditions
         assert!(!p_image_src.is_null());
@@ -437,9 +440,7 @@ pub(crate) fn opj_copy_image_header(
     p_image_dest.x1 = p_image_src.x1;
     p_image_dest.y1 = p_image_src.y1;
     if !p_image_dest.alloc_comps(p_image_src.numcomps, false) {
-        p_image_dest.comps = std::ptr::null_mut::<opj_image_comp_t>();
-        p_image_dest.numcomps = 0 as OPJ_UINT32;
-        return;
+        return false;
     }
     if let Some(src) = p_image_src.comps() {
         if let Some(dest) = p_image_dest.comps_mut() {
@@ -451,8 +452,9 @@ pub(crate) fn opj_copy_image_header(
     }
     p_image_dest.color_space = p_image_src.color_space;
     if let Some(icc_profile) = p_image_src.icc_profile() {
-        if !p_image_dest.copy_icc_profile(icc_profile) {}
+        return p_image_dest.copy_icc_profile(icc_profile);
     }
+    true
 }
 
 #[no_mangle]
diff --git a/openjp2-rs/src/j2k.rs b/openjp2-rs/src/j2k.rs
index a891d5f..fda2fa4 100644
--- a/openjp2-rs/src/j2k.rs
+++ b/openjp2-rs/src/j2k.rs
@@ -7962,7 +7962,11 @@ pub(crate) unsafe fn opj_j2k_read_header(
             return 0i32;
         }
         // Copy codestream image information to the output image
-        opj_copy_image_header(p_j2k.m_private_image, *p_image);
+        if !opj_copy_image_header(p_j2k.m_private_image, *p_image) {
+            opj_image_destroy(*p_image);
+            *p_image = std::ptr::null_mut::<opj_image_t>();
+            return 0i32;
+        }
         // Allocate and initialize some elements of codestrem index
         if opj_j2k_allocate_tile_element_cstr_index(p_j2k) == 0 {
             opj_image_destroy(*p_image);
@@ -12315,7 +12319,9 @@ pub(crate) fn opj_j2k_decode(
                 return 0i32;
             }
         }
-        opj_copy_image_header(p_image, p_j2k.m_output_image);
+        if !opj_copy_image_header(p_image, p_j2k.m_output_image) {
+            return 0i32;
+        }
         // customization of the decoding
         let mut procedure_list = opj_j2k_proc_list_t::new();
         if opj_j2k_setup_decoding(p_j2k, &mut procedure_list, p_manager) == 0 {
@@ -12431,7 +12437,9 @@ pub(crate) fn opj_j2k_get_tile(
         if p_j2k.m_output_image.is_null() {
             return 0i32;
         }
-        opj_copy_image_header(p_image, p_j2k.m_output_image);
+        if !opj_copy_image_header(p_image, p_j2k.m_output_image) {
+            return 0i32;
+        }
         p_j2k.m_specific_param.m_decoder.m_tile_ind_to_dec = tile_index as OPJ_INT32;
         let mut procedure_list = opj_j2k_proc_list_t::new();
         // customization of the decoding
@@ -12768,7 +12776,10 @@ pub(crate) fn opj_j2k_start_compress(
             event_msg!(p_manager, EVT_ERROR, "Failed to allocate image header.",);
             return 0i32;
         }
-        opj_copy_image_header(p_image, p_j2k.m_private_image);
+        if !opj_copy_image_header(p_image, p_j2k.m_private_image) {
+            event_msg!(p_manager, EVT_ERROR, "Failed to allocate image header.",);
+            return 0i32;
+        }
         // TODO_MSD: Find a better way
         if !p_image.comps.is_null() {
             let mut it_comp: OPJ_UINT32 = 0;
diff --git a/openjp2-rs/src/jp2.rs b/openjp2-rs/src/jp2.rs
index da87294..86dde0e 100644
--- a/openjp2-rs/src/jp2.rs
+++ b/openjp2-rs/src/jp2.rs
@@ -1894,7 +1894,14 @@ pub(crate) unsafe fn opj_jp2_read_header(
         }
 
         if let Some(icc_profile) = &jp2.color.icc_profile {
-            image.copy_icc_profile(icc_profile);
+            if !image.copy_icc_profile(icc_profile) {
+                event_msg!(p_manager, EVT_ERROR, "Not enough memory for the ICC profile.\n",);
+                unsafe {
+                    opj_image_destroy(*p_image);
+                    *p_image = std::ptr::null_mut::<opj_image_t>();
+                }
+                return 0i32;
+            }
             image.icc_profile_len = jp2.color.icc_profile_len;
         }
     }
-- 
2.43.0


From 89ad21530724f1666df4b7f2ac569dce0ec3ca56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 57/63] fix: check the allocation of a sparse array

---
 openjp2-rs/src/sparse_array.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/openjp2-rs/src/sparse_array.rs b/openjp2-rs/src/sparse_array.rs
index 9488bbf..cf33aad 100644
--- a/openjp2-rs/src/sparse_array.rs
+++ b/openjp2-rs/src/sparse_array.rs
@@ -86,6 +86,9 @@ pub(crate) unsafe fn opj_sparse_array_int32_create(
     }
     sa = opj_calloc(1i32 as size_t, core::mem::size_of::<opj_sparse_array_int32_t>())
         as *mut opj_sparse_array_int32_t;
+    if sa.is_null() {
+        return sa;
+    }
     (*sa).width = width;
     (*sa).height = height;
     (*sa).block_width = block_width;
-- 
2.43.0


From e38e9c1d4fd0c92050d5c44f32ad94fc1afff286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 58/63] fix: tell lack of memory from lack of room during rate
 allocation

---
 openjp2-rs/src/t2.rs  | 19 ++++++++++++-------
 openjp2-rs/src/tcd.rs |  4 ++++
 2 files changed, 16 insertions(+), 7 deletions(-)

diff --git a/openjp2-rs/src/t2.rs b/openjp2-rs/src/t2.rs
index 5a31cce..19785d2 100644
--- a/openjp2-rs/src/t2.rs
+++ b/openjp2-rs/src/t2.rs
@@ -22,6 +22,8 @@ extern "C" {
 pub(crate) struct opj_t2 {
     pub image: *mut opj_image_t,
     pub cp: *mut opj_cp_t,
+    /// Encoding packets failed for another reason than the lack of room for them.
+    pub failed: bool,
 }
 pub(crate) type opj_t2_t = opj_t2;
 // The copyright in this software is being made available under the 2-clauses
@@ -157,6 +159,7 @@ pub(crate) unsafe fn opj_t2_encode_packets(
     let mut l_nb_pocs = (*l_tcp).numpocs.wrapping_add(1u32);
     l_pi = opj_pi_initialise_encode(l_image, l_cp, p_tile_no, p_t2_mode, p_manager);
     if l_pi.is_null() {
+        (*p_t2).failed = true;
         return 0i32;
     }
     *p_data_written = 0 as OPJ_UINT32;
@@ -708,11 +711,15 @@ unsafe fn opj_t2_encode_packet(
             band = band.offset(1)
         }
     }
-    bio = opj_bio_create();
-    if bio.is_null() {
-        // FIXME event manager error callback
-        return 0i32;
-    }
+    // Not allocated: lack of memory would be taken for lack of room in the layer.
+    let mut header_bio = opj_bio_t {
+        start: c,
+        end: c,
+        bp: c,
+        buf: 0,
+        ct: 0,
+    };
+    bio = &mut header_bio;
     opj_bio_init_enc(bio, c, length);
     // Empty header bit
     opj_bio_putbit(bio, if packet_empty != 0 { 0 } else { 1 });
@@ -848,14 +855,12 @@ unsafe fn opj_t2_encode_packet(
         band = band.offset(1)
     }
     if opj_bio_flush(bio) == 0 {
-        opj_bio_destroy(bio);
         return 0i32;
         // modified to eliminate longjmp !!
     }
     l_nb_bytes = opj_bio_numbytes(bio) as OPJ_UINT32;
     c = c.offset(l_nb_bytes as isize);
     length = (length as core::ffi::c_uint).wrapping_sub(l_nb_bytes) as OPJ_UINT32;
-    opj_bio_destroy(bio);
     // <EPH 0xff92>
     if (*tcp).csty & 0x4u32 != 0 {
         if length < 2u32 {
diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 906bf2f..5fa46b2 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -644,6 +644,10 @@ unsafe fn opj_tcd_rateallocate(
                         stable_thresh = thresh
                     }
                 }
+                if (*t2).failed {
+                    opj_t2_destroy(t2);
+                    return 0i32;
+                }
                 i += 1;
             }
             goodthresh = if stable_thresh == 0 as core::ffi::c_double {
-- 
2.43.0


From 9e7c01cd44d5c0acc96f8dad51152103a6924c06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 59/63] fix: keep the tile's arrays reachable when they cannot
 grow

---
 openjp2-rs/src/tcd.rs | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 5fa46b2..436d02d 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -935,9 +935,6 @@ unsafe fn opj_tcd_init_tile(
             ) as *mut opj_tcd_resolution_t;
             if new_resolutions.is_null() {
                 event_msg!(manager, EVT_ERROR, "Not enough memory for tile resolutions\n",);
-                opj_free((*l_tilec).resolutions as *mut core::ffi::c_void);
-                (*l_tilec).resolutions = std::ptr::null_mut::<opj_tcd_resolution_t>();
-                (*l_tilec).resolutions_size = 0 as OPJ_UINT32;
                 return 0i32;
             }
             (*l_tilec).resolutions = new_resolutions;
@@ -1146,9 +1143,6 @@ unsafe fn opj_tcd_init_tile(
                                 EVT_ERROR,
                                 "Not enough memory to handle band precints\n",
                             );
-                            opj_free((*l_band).precincts as *mut core::ffi::c_void);
-                            (*l_band).precincts = std::ptr::null_mut::<opj_tcd_precinct_t>();
-                            (*l_band).precincts_data_size = 0 as OPJ_UINT32;
                             return 0i32;
                         }
                         (*l_band).precincts = new_precincts;
@@ -1255,10 +1249,7 @@ unsafe fn opj_tcd_init_tile(
                                 l_nb_code_blocks_size as size_t,
                             );
                             if new_blocks.is_null() {
-                                opj_free((*l_current_precinct).cblks.blocks);
-                                (*l_current_precinct).cblks.blocks =
-                                    std::ptr::null_mut::<core::ffi::c_void>();
-                                (*l_current_precinct).block_size = 0 as OPJ_UINT32;
+                                // The code-blocks are freed with the tile.
                                 event_msg!(
                                     manager,
                                     EVT_ERROR,
-- 
2.43.0


From dd4c7dd67bb1a60e4cddb2ec961a8cf756c415f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 60/63] fix: fail the tile when a tag tree cannot be allocated

---
 openjp2-rs/src/tcd.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/openjp2-rs/src/tcd.rs b/openjp2-rs/src/tcd.rs
index 436d02d..da4a3db 100644
--- a/openjp2-rs/src/tcd.rs
+++ b/openjp2-rs/src/tcd.rs
@@ -1299,6 +1299,12 @@ unsafe fn opj_tcd_init_tile(
                                 manager,
                             )
                         }
+                        if l_nb_code_blocks > 0u32
+                            && ((*l_current_precinct).incltree.is_null()
+                                || (*l_current_precinct).imsbtree.is_null())
+                        {
+                            return 0i32;
+                        }
                         cblkno = 0 as OPJ_UINT32;
                         while cblkno < l_nb_code_blocks {
                             let mut cblkxstart = tlcblkxstart
-- 
2.43.0


From e6f4d3b8f793c31bd6d057e34fc32fb9684a6279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:46 +0000
Subject: [PATCH 61/63] fix: repair the inversion of custom component
 transforms

---
 openjp2-rs/src/invert.rs | 162 +++++++++------------------------------
 1 file changed, 37 insertions(+), 125 deletions(-)

diff --git a/openjp2-rs/src/invert.rs b/openjp2-rs/src/invert.rs
index 84f88bc..fe52a4b 100644
--- a/openjp2-rs/src/invert.rs
+++ b/openjp2-rs/src/invert.rs
@@ -77,82 +77,44 @@ fn opj_lupDecompose(
     p_swap_area: &mut [f32],
     nb_compo: usize,
 ) -> bool {
-    let mut tmp_permutations = 0;
-    let mut k2 = 0;
-    let mut temp = 0.0;
-    let l_last_column = nb_compo - 1;
-    let l_swap_size = nb_compo * std::mem::size_of::<f32>();
-    let mut l_tmp_matrix = 0;
-    let mut l_column_matrix = 0;
-    let mut l_dest_matrix = 0;
-    let mut offset = 1;
-    let mut l_stride = nb_compo - 1;
     // initialize permutations
     for i in 0..nb_compo {
         permutations[i] = i as u32;
     }
-    // now make a pivot with column switch
-    for k in 0..l_last_column {
-        // take the middle element
-        l_column_matrix = l_tmp_matrix + k;
+    // now make a pivot with line switch
+    for k in 0..nb_compo {
         // make permutation with the biggest value in the column
         let mut p = 0.0;
+        let mut k2 = k;
         for i in k..nb_compo {
-            temp = matrix[l_column_matrix].abs();
+            let temp = matrix[i * nb_compo + k].abs();
             if temp > p {
                 p = temp;
                 k2 = i;
             }
-            // next line
-            l_column_matrix += nb_compo;
         }
-        // a whole rest of 0 -> non singular
+        // a whole rest of 0 -> singular
         if p == 0.0 {
             return false;
         }
         // should we permute ?
         if k2 != k {
-            // exchange of line
-            // k2 > k
-            let dst_p = tmp_permutations + k2 - k;
-            // swap indices
-            permutations.swap(tmp_permutations, dst_p);
-            // and swap entire line.
-            l_column_matrix = l_tmp_matrix + (k2 - k) * nb_compo;
-            p_swap_area.copy_from_slice(&matrix[l_column_matrix..l_column_matrix + l_swap_size]);
-            matrix.copy_within(l_tmp_matrix..l_tmp_matrix + l_swap_size, l_column_matrix);
-            matrix[l_tmp_matrix..l_tmp_matrix + l_swap_size]
-                .copy_from_slice(&p_swap_area[..l_swap_size]);
+            // swap indices and entire lines
+            permutations.swap(k, k2);
+            let (line, line2) = (k * nb_compo, k2 * nb_compo);
+            p_swap_area.copy_from_slice(&matrix[line2..line2 + nb_compo]);
+            matrix.copy_within(line..line + nb_compo, line2);
+            matrix[line..line + nb_compo].copy_from_slice(p_swap_area);
         }
-        // now update data in the rest of the line and line after
-        l_dest_matrix = l_tmp_matrix + k;
-        l_column_matrix = l_dest_matrix + nb_compo;
-        // take the middle element
-        let temp = matrix[l_dest_matrix];
-        l_dest_matrix += 1;
-        // now compute up data (i.e. coeff up of the diagonal).
-        for _ in offset..nb_compo {
+        // now update data in the rest of the lines after
+        for i in k + 1..nb_compo {
             // divide the lower column elements by the diagonal value
-            // matrix[i][k] /= matrix[k][k];
-            // p = matrix[i][k]
-            let p = matrix[l_column_matrix] / temp;
-            l_column_matrix += 1;
-            matrix[l_column_matrix] = p;
-
-            for j in offset..nb_compo {
-                matrix[l_dest_matrix + j] -= p * matrix[l_dest_matrix + j - 1];
+            let p = matrix[i * nb_compo + k] / matrix[k * nb_compo + k];
+            matrix[i * nb_compo + k] = p;
+            for j in k + 1..nb_compo {
+                matrix[i * nb_compo + j] -= p * matrix[k * nb_compo + j];
             }
-            // come back to the k+1th element
-            l_dest_matrix -= l_stride;
-            // go to kth element of the next line
-            l_column_matrix += k;
         }
-        // offset is now k+2
-        offset += 1;
-        // 1 element less for stride
-        l_stride -= 1;
-        // next line
-        l_tmp_matrix += nb_compo;
     }
     true
 }
@@ -166,63 +128,21 @@ fn opj_lupSolve(
     nb_compo: usize,
     p_intermediate_data: &mut [f32],
 ) {
-    let mut k: i32 = 0;
-    let mut i: usize = 0;
-    let mut j: usize = 0;
-    let mut sum: f32 = 0.;
-    let mut u: f32 = 0.;
-    let l_stride = nb_compo + 1;
-    let mut l_current_ptr: usize;
-    let mut l_intermediate_ptr: usize;
-    let mut l_dest_ptr: usize;
-    let mut l_tmp_matrix: usize;
-    let mut l_line_matrix = 0;
-    let mut l_begin_ptr = p_result.len() - 1;
-    let mut l_generated_data = 0;
-    let mut l_current_permutation_ptr = 0;
-    l_intermediate_ptr = 0;
-    l_generated_data = nb_compo - 1;
-    i = 0;
-    while i < nb_compo {
-        sum = 0.0;
-        l_current_ptr = 0;
-        l_tmp_matrix = l_line_matrix;
-        j = 1;
-        while j <= i {
-            sum += p_matrix[l_tmp_matrix] * p_intermediate_data[l_current_ptr];
-            l_tmp_matrix += 1;
-            l_current_ptr += 1;
-            j += 1;
+    // forward substitution
+    for i in 0..nb_compo {
+        let mut sum = 0.0;
+        for j in 0..i {
+            sum += p_matrix[i * nb_compo + j] * p_intermediate_data[j];
         }
-        p_intermediate_data[l_intermediate_ptr] =
-            p_vector[p_permutations[l_current_permutation_ptr] as usize] - sum;
-        l_line_matrix += nb_compo;
-        l_intermediate_ptr += 1;
-        l_current_permutation_ptr += 1;
-        i += 1;
+        p_intermediate_data[i] = p_vector[p_permutations[i] as usize] - sum;
     }
-    l_line_matrix = p_matrix.len() - nb_compo - 1;
-    l_dest_ptr = nb_compo;
-    assert!(nb_compo != 0);
-    k = nb_compo as i32 - 1;
-    while k != -1 {
-        sum = 0.0;
-        l_tmp_matrix = l_line_matrix;
-        u = p_matrix[l_tmp_matrix];
-        l_line_matrix -= l_stride;
-        l_current_ptr = l_dest_ptr;
-        j = (k + 1) as usize;
-        while j < nb_compo {
-            sum += p_matrix[l_tmp_matrix] * p_result[l_current_ptr];
-            l_tmp_matrix += 1;
-            l_current_ptr += 1;
-            j += 1;
+    // backward substitution
+    for k in (0..nb_compo).rev() {
+        let mut sum = 0.0;
+        for j in k + 1..nb_compo {
+            sum += p_matrix[k * nb_compo + j] * p_result[j];
         }
-        p_result[l_begin_ptr] = (p_intermediate_data[l_generated_data] - sum) / u;
-        l_generated_data -= 1;
-        l_begin_ptr -= 1;
-        l_dest_ptr -= 1;
-        k -= 1;
+        p_result[k] = (p_intermediate_data[k] - sum) / p_matrix[k * nb_compo + k];
     }
 }
 // *
@@ -236,27 +156,19 @@ fn opj_lupInvert(
     p_dest_temp: &mut [f32],
     p_swap_area: &mut [f32],
 ) {
-    let nb_compo_usize = nb_compo;
-    let mut lLineMatrix = pDestMatrix;
     for j in 0..nb_compo {
-        let lCurrentPtr = &mut lLineMatrix[j + 1..];
         p_src_temp.fill(0.0);
         p_src_temp[j] = 1.0;
-        let p_src_temp_slice = &mut p_src_temp[..nb_compo_usize];
-        let p_dest_temp_slice = &mut p_dest_temp[..nb_compo_usize];
-        let pSrcMatrix_slice = &pSrcMatrix[..nb_compo_usize * nb_compo_usize];
-        let pPermutations_slice = &pPermutations[..nb_compo_usize];
-        let p_swap_area_slice = &mut p_swap_area[..nb_compo_usize];
         opj_lupSolve(
-            p_dest_temp_slice,
-            pSrcMatrix_slice,
-            p_src_temp_slice,
-            pPermutations_slice,
-            nb_compo_usize,
-            p_swap_area_slice,
+            p_dest_temp,
+            pSrcMatrix,
+            p_src_temp,
+            pPermutations,
+            nb_compo,
+            p_swap_area,
         );
-        for i in 0..nb_compo_usize {
-            lCurrentPtr[i * nb_compo_usize] = p_dest_temp[i];
+        for i in 0..nb_compo {
+            pDestMatrix[i * nb_compo + j] = p_dest_temp[i];
         }
     }
 }
-- 
2.43.0


From b312d213aca194a37ac74711b935dabcc6a04cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 62/63] fix: apply custom component transforms to the floating
 point samples

---
 openjp2-rs/src/mct.rs | 64 ++-----------------------------------------
 1 file changed, 3 insertions(+), 61 deletions(-)

diff --git a/openjp2-rs/src/mct.rs b/openjp2-rs/src/mct.rs
index ed38713..680f973 100644
--- a/openjp2-rs/src/mct.rs
+++ b/openjp2-rs/src/mct.rs
@@ -5,15 +5,6 @@ extern "C" {
     fn sqrt(_: core::ffi::c_double) -> core::ffi::c_double;
 }
 
-#[inline]
-unsafe fn opj_int_fix_mul(mut a: OPJ_INT32, mut b: OPJ_INT32) -> OPJ_INT32 {
-    let mut temp = a as OPJ_INT64 * b as OPJ_INT64;
-    temp += 4096i64;
-
-    assert!(temp >> 13i32 <= 0x7FFFFFFF as OPJ_INT64);
-    assert!(temp >> 13i32 >= -(0x7FFFFFFF as OPJ_INT64) - 1 as OPJ_INT64);
-    (temp >> 13i32) as OPJ_INT32
-}
 // The copyright in this software is being made available under the 2-clauses
 // BSD License, included below. This software may be subject to other third
 // party and contributor rights, including patent rights, and no such rights
@@ -187,59 +178,10 @@ pub(crate) unsafe fn opj_mct_encode_custom(
     mut n: OPJ_SIZE_T,
     mut pData: *mut *mut OPJ_BYTE,
     mut pNbComp: OPJ_UINT32,
-    mut _isSigned: OPJ_UINT32,
+    mut isSigned: OPJ_UINT32,
 ) -> OPJ_BOOL {
-    let mut lMct = pCodingdata as *mut OPJ_FLOAT32;
-    let mut i: OPJ_SIZE_T = 0;
-    let mut j: OPJ_UINT32 = 0;
-    let mut k: OPJ_UINT32 = 0;
-    let mut lNbMatCoeff = pNbComp.wrapping_mul(pNbComp);
-    let mut lCurrentData = std::ptr::null_mut::<OPJ_INT32>();
-    let mut lCurrentMatrix = std::ptr::null_mut::<OPJ_INT32>();
-    let mut lData = pData as *mut *mut OPJ_INT32;
-    let mut lMultiplicator = ((1i32) << 13i32) as OPJ_UINT32;
-    let mut lMctPtr = std::ptr::null_mut::<OPJ_INT32>();
-    lCurrentData = opj_malloc(
-        (pNbComp.wrapping_add(lNbMatCoeff) as usize)
-            .wrapping_mul(core::mem::size_of::<OPJ_INT32>()),
-    ) as *mut OPJ_INT32;
-    if lCurrentData.is_null() {
-        return 0i32;
-    }
-    lCurrentMatrix = lCurrentData.offset(pNbComp as isize);
-    i = 0 as OPJ_SIZE_T;
-    while i < lNbMatCoeff as usize {
-        let fresh0 = lMct;
-        lMct = lMct.offset(1);
-        *lCurrentMatrix.add(i) = (*fresh0 * lMultiplicator as OPJ_FLOAT32) as OPJ_INT32;
-        i += 1;
-    }
-    i = 0 as OPJ_SIZE_T;
-    while i < n {
-        lMctPtr = lCurrentMatrix;
-        j = 0 as OPJ_UINT32;
-        while j < pNbComp {
-            *lCurrentData.offset(j as isize) = **lData.offset(j as isize);
-            j += 1;
-        }
-        j = 0 as OPJ_UINT32;
-        while j < pNbComp {
-            **lData.offset(j as isize) = 0i32;
-            k = 0 as OPJ_UINT32;
-            while k < pNbComp {
-                let fresh1 = &mut (**lData.offset(j as isize));
-                *fresh1 += opj_int_fix_mul(*lMctPtr, *lCurrentData.offset(k as isize));
-                lMctPtr = lMctPtr.offset(1);
-                k += 1;
-            }
-            let fresh2 = &mut (*lData.offset(j as isize));
-            *fresh2 = (*fresh2).offset(1);
-            j += 1;
-        }
-        i += 1;
-    }
-    opj_free(lCurrentData as *mut core::ffi::c_void);
-    1i32
+    // The samples are floating point numbers here too: a custom transform is irreversible.
+    opj_mct_decode_custom(pCodingdata, n, pData, pNbComp, isSigned)
 }
 #[no_mangle]
 pub(crate) unsafe fn opj_mct_decode_custom(
-- 
2.43.0


From d7076e63dd32f710c57f558569df5f42720c512b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:00 +0000
Subject: [PATCH 63/63] fix: double lone odd samples in the forward 9-7
 transform

---
 openjp2-rs/src/dwt.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/openjp2-rs/src/dwt.rs b/openjp2-rs/src/dwt.rs
index 7493d4b..e4e95d2 100644
--- a/openjp2-rs/src/dwt.rs
+++ b/openjp2-rs/src/dwt.rs
@@ -757,6 +757,10 @@ unsafe extern "C" fn opj_dwt_encode_and_deinterleave_h_one_row_real(
     let sn = (width.wrapping_add(if even != 0 { 1 } else { 0 }) >> 1i32) as OPJ_INT32;
     let dn = width.wrapping_sub(sn as OPJ_UINT32) as OPJ_INT32;
     if width == 1u32 {
+        // A lone sample at an odd position is doubled (F.4.8.1).
+        if even == 0 {
+            *row.offset(0) *= 2.0;
+        }
         return;
     }
     memcpy(
@@ -1081,6 +1085,12 @@ unsafe extern "C" fn opj_dwt_encode_and_deinterleave_v_real(
     let mut a: OPJ_INT32 = 0;
     let mut b: OPJ_INT32 = 0;
     if height == 1u32 {
+        // A lone sample at an odd position is doubled (F.4.8.1).
+        if even == 0 {
+            for c in 0..cols {
+                *array.offset(c as isize) *= 2.0;
+            }
+        }
         return;
     }
     opj_dwt_fetch_cols_vertical_pass(arrayIn, tmpIn, height, stride_width, cols);
-- 
2.43.0

