//! Simulated HTTP/1 and HTTP/2 clients and hostile peers.
use bytes::Bytes;
use glommio::net::ClientSock;
use glommio::sim;
use std::io;
use std::pin::Pin;
use std::sync::atomic::{AtomicBool, AtomicU64, Ordering::Relaxed};
use std::sync::{Arc, Mutex};
use std::task::{Context, Poll, Waker};

#[derive(Clone, Debug, PartialEq)]
pub struct Resp {
    pub status: u16,
    pub body: Vec<u8>,
    pub complete: bool,
    /// delimited by the end of the connection
    pub to_end: bool,
}

pub struct H1Reader {
    buf: Vec<u8>,
    eof: bool,
}

impl H1Reader {
    pub fn new() -> H1Reader {
        H1Reader { buf: vec![], eof: false }
    }
    async fn more(&mut self, s: &ClientSock) -> Result<(), String> {
        if self.eof {
            return Err("connection ended".into());
        }
        let mut tmp = [0u8; 4096];
        match s.read(&mut tmp).await {
            Ok(0) => {
                self.eof = true;
                Err("connection ended".into())
            }
            Ok(n) => {
                self.buf.extend_from_slice(&tmp[..n]);
                Ok(())
            }
            Err(e) => {
                self.eof = true;
                Err(format!("connection failed: {e}"))
            }
        }
    }
    pub fn leftover(&self) -> usize {
        self.buf.len()
    }
    /// The next response; an error text says how far it got.
    pub async fn next(&mut self, s: &ClientSock, head: bool) -> Result<Resp, String> {
        loop {
            let end = loop {
                if let Some(p) = find(&self.buf, b"\r\n\r\n") {
                    break p;
                }
                if let Err(e) = self.more(s).await {
                    return Err(if self.buf.is_empty() {
                        format!("no response: {e}")
                    } else {
                        format!("partial response head ({} bytes): {e}", self.buf.len())
                    });
                }
            };
            let h = String::from_utf8_lossy(&self.buf[..end]).into_owned();
            self.buf.drain(..end + 4);
            let mut lines = h.split("\r\n");
            let first = lines.next().unwrap_or("");
            let mut f = first.split(' ');
            let v = f.next().unwrap_or("");
            if v != "HTTP/1.1" && v != "HTTP/1.0" {
                return Err(format!("garbage instead of a status line: {first:?}"));
            }
            let status: u16 = f.next().unwrap_or("").parse().map_err(|_| format!("bad status line {first:?}"))?;
            if (100..200).contains(&status) {
                continue;
            }
            let (mut len, mut chunked) = (None, false);
            for l in lines {
                let (k, v) = l.split_once(':').unwrap_or((l, ""));
                let v = v.trim();
                match k.to_ascii_lowercase().as_str() {
                    "content-length" => len = v.parse::<usize>().ok(),
                    "transfer-encoding" => chunked = v.eq_ignore_ascii_case("chunked"),
                    _ => {}
                }
            }
            let mut body = vec![];
            if head || status == 204 || status == 304 {
                return Ok(Resp { status, body, complete: true, to_end: false });
            }
            if chunked {
                loop {
                    let p = loop {
                        if let Some(p) = find(&self.buf, b"\r\n") {
                            break p;
                        }
                        self.more(s).await.map_err(|e| format!("status {status}, body cut short: {e}"))?;
                    };
                    let l = String::from_utf8_lossy(&self.buf[..p]).into_owned();
                    let n = usize::from_str_radix(l.split(';').next().unwrap_or("").trim(), 16)
                        .map_err(|_| format!("status {status}, bad chunk size {l:?}"))?;
                    self.buf.drain(..p + 2);
                    while self.buf.len() < n + 2 {
                        self.more(s).await.map_err(|e| format!("status {status}, body cut short: {e}"))?;
                    }
                    body.extend(self.buf.drain(..n));
                    if &self.buf[..2] != b"\r\n" {
                        return Err(format!("status {status}, chunk not terminated"));
                    }
                    self.buf.drain(..2);
                    if n == 0 {
                        return Ok(Resp { status, body, complete: true, to_end: false });
                    }
                }
            } else if let Some(n) = len {
                while self.buf.len() < n {
                    self.more(s).await.map_err(|e| format!("status {status}, body cut short: {e}"))?;
                }
                body.extend(self.buf.drain(..n));
                return Ok(Resp { status, body, complete: true, to_end: false });
            } else {
                while self.more(s).await.is_ok() {}
                body.append(&mut self.buf);
                return Ok(Resp { status, body, complete: true, to_end: true });
            }
        }
    }
}

pub fn find(b: &[u8], pat: &[u8]) -> Option<usize> {
    b.windows(pat.len()).position(|w| w == pat)
}

/// What the socket under an h2 connection does, told apart from the connection waking itself.
#[derive(Default)]
pub struct Moves {
    count: AtomicU64,
    woken: AtomicBool,
    task: Mutex<Option<Waker>>,
}
impl Moves {
    fn waker(self: &Arc<Self>, cx: &Context<'_>) -> Waker {
        *self.task.lock().unwrap() = Some(cx.waker().clone());
        Waker::from(self.clone())
    }
}
impl std::task::Wake for Moves {
    fn wake(self: Arc<Self>) {
        self.woken.store(true, Relaxed);
        let w = self.task.lock().unwrap().clone();
        if let Some(w) = w {
            w.wake();
        }
    }
}

/// tokio's I/O traits over a simulated socket, for the h2 client.
pub struct TokioSock(pub std::rc::Rc<ClientSock>, Arc<Moves>);
impl tokio::io::AsyncRead for TokioSock {
    fn poll_read(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &mut tokio::io::ReadBuf<'_>) -> Poll<io::Result<()>> {
        let mut tmp = [0u8; 4096];
        let n = tmp.len().min(buf.remaining());
        let wk = self.1.waker(cx);
        match self.0.poll_read(&mut Context::from_waker(&wk), &mut tmp[..n]) {
            Poll::Ready(Ok(n)) => {
                self.1.count.fetch_add(1, Relaxed);
                buf.put_slice(&tmp[..n]);
                Poll::Ready(Ok(()))
            }
            Poll::Ready(Err(e)) => Poll::Ready(Err(e)),
            Poll::Pending => Poll::Pending,
        }
    }
}
impl tokio::io::AsyncWrite for TokioSock {
    fn poll_write(self: Pin<&mut Self>, cx: &mut Context<'_>, buf: &[u8]) -> Poll<io::Result<usize>> {
        let wk = self.1.waker(cx);
        let r = self.0.poll_write(&mut Context::from_waker(&wk), buf);
        if matches!(r, Poll::Ready(Ok(_))) {
            self.1.count.fetch_add(1, Relaxed);
        }
        r
    }
    fn poll_flush(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        Poll::Ready(Ok(()))
    }
    fn poll_shutdown(self: Pin<&mut Self>, _: &mut Context<'_>) -> Poll<io::Result<()>> {
        self.0.shutdown_write();
        Poll::Ready(Ok(()))
    }
}

pub type H2Send = h2::client::SendRequest<Bytes>;

pub async fn h2_connect(shard: usize, sock: std::rc::Rc<ClientSock>, window: Option<u32>) -> Result<H2Send, String> {
    let mut b = h2::client::Builder::new();
    if let Some(w) = window {
        b.initial_window_size(w).initial_connection_window_size(65535.max(w));
    }
    let moved = Arc::new(Moves::default());
    let (send, conn) = b.handshake::<_, Bytes>(TokioSock(sock, moved.clone())).await.map_err(|e| format!("HTTP/2 handshake: {e}"))?;
    sim::spawn_on_client(shard, async move {
        Calm { fut: Box::pin(conn), at: (0, 0), moved, pause: None, us: 100 }.await;
    })
    .detach();
    Ok(send)
}

pub async fn h2_request(
    send: &H2Send,
    method: &str,
    target: &str,
    body: Option<Vec<u8>>,
    stall_us: u64,
) -> Result<Resp, String> {
    let mut send = send.clone().ready().await.map_err(|e| format!("no response: {e}"))?;
    let uri = if target.starts_with('/') { format!("http://sim{target}") } else { target.to_string() };
    let req = http::Request::builder()
        .method(method)
        .uri(uri)
        .body(())
        .map_err(|e| format!("harness: bad request {e}"))?;
    let (resp, mut up) = send.send_request(req, body.is_none()).map_err(|e| format!("no response: {e}"))?;
    if let Some(b) = body {
        let _ = up.send_data(Bytes::from(b), true);
    }
    let resp = resp.await.map_err(|e| format!("no response: {e}"))?;
    let status = resp.status().as_u16();
    let len = resp.headers().get("content-length").and_then(|v| v.to_str().ok()?.parse::<usize>().ok());
    let mut rx = resp.into_body();
    let mut out = vec![];
    if stall_us > 0 {
        sim::sleep_us(stall_us).await;
    }
    while let Some(d) = rx.data().await {
        let d = match d {
            Ok(d) => d,
            // RFC 9113, 8.1: having answered in full, a server may ask to be spared the rest of a
            // request; h2's client reports that as an error even when the whole response is there (what it says is compared anyway)
            Err(e) if e.is_reset() && e.is_remote() && e.reason() == Some(h2::Reason::NO_ERROR) && len.is_none_or(|n| n == out.len()) => break,
            Err(e) => return Err(format!("status {status}, body cut short after {} of {len:?} bytes: {e}", out.len())),
        };
        out.extend_from_slice(&d);
        let _ = rx.flow_control().release_capacity(d.len());
    }
    Ok(Resp { status, body: out, complete: true, to_end: false })
}

/// h2's client connection wakes itself without end while it waits to write its farewell; slow that down.
struct Calm<F> {
    fut: Pin<Box<F>>,
    at: (u64, u32),
    moved: Arc<Moves>,
    pause: Option<Pin<Box<dyn std::future::Future<Output = ()>>>>,
    us: u64,
}
impl<F: std::future::Future> std::future::Future for Calm<F> {
    type Output = ();
    fn poll(mut self: Pin<&mut Self>, cx: &mut Context<'_>) -> Poll<()> {
        let moved = self.moved.count.load(Relaxed);
        if self.moved.woken.swap(false, Relaxed) {
            self.pause = None;
        }
        if self.at.0 != moved {
            self.at = (moved, 0);
            self.us = 100;
            self.pause = None;
        }
        if let Some(p) = &mut self.pause {
            if p.as_mut().poll(cx).is_pending() {
                return Poll::Pending;
            }
            self.pause = None;
            self.at.1 = 36;
        }
        self.at.1 += 1;
        if self.at.1 > 40 {
            self.us = 1_000_000.min(self.us * 2);
            let mut p: Pin<Box<dyn std::future::Future<Output = ()>>> = Box::pin(sim::sleep_us(self.us));
            let _ = p.as_mut().poll(cx);
            self.pause = Some(p);
            return Poll::Pending;
        }
        self.fut.as_mut().poll(cx).map(|_| ())
    }
}
