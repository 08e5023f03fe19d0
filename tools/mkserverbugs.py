#!/usr/bin/env python3
"""(Re)creates the planted server bugs under /verif/seeded from source edits. A development tool: no
check uses it. Needs a scratch copy of /repo, which it makes and removes."""
import json, os, shutil, subprocess, sys
BUGS = {}
def bug(id, prop, edits, needs, breaks, demo):
    BUGS[id] = (prop, edits, needs, breaks, demo)

bug("S05-permit-not-held", "S05",
    [("src/lib.rs", "let _permit = conn_control.acquire_permit(1).await;", "let _ = conn_control.acquire_permit(1).await;")],
    "more than 1024 connections open to one worker at the same time",
    "the connection permit is dropped as soon as it is acquired, so any number of connections is served at once",
    '''
# one worker takes all connections only if it is the only one: open enough for every worker
import resource
resource.setrlimit(resource.RLIMIT_NOFILE, (60000, 60000) if resource.getrlimit(resource.RLIMIT_NOFILE)[1] >= 60000 else (resource.getrlimit(resource.RLIMIT_NOFILE)[1],) * 2)
srv = Server()
try:
    n = os.cpu_count() or 1
    conns = []
    want = 1024 * n + 1500
    for _ in range(want):
        try:
            conns.append(connect(30))
        except OSError:
            break
    print("connections", len(conns))
    for c in conns:
        c.sendall(req("/a.jp2/full/max/0/default.jpg"))
    import select
    pending = {c.fileno(): c for c in conns}
    p = select.poll()
    for f in pending:
        p.register(f, select.POLLIN)
    served, end = 0, time.time() + 20
    quiet = time.time()
    while time.time() < end and time.time() - quiet < 4:
        for f, _ in p.poll(500):
            p.unregister(f)
            served += 1
            quiet = time.time()
    limit = 1024 * n
    print("served at once", served, "limit", limit)
    sys.exit(1 if served > limit else 0)
finally:
    srv.stop()
''')

bug("S05-permit-leaks-on-error", "S05",
    [("src/lib.rs", "let _permit = conn_control.acquire_permit(1).await;", "let _ = conn_control.acquire(1).await;"),
     ("src/lib.rs", """if let Err(e) = ServerBuilder::new(HyperExecutor).serve_connection(io, service).await {
                            // TODO
                        }""", """match ServerBuilder::new(HyperExecutor).serve_connection(io, service).await {
                            Ok(()) => conn_control.signal(1),
                            Err(e) => {
                                // TODO
                            }
                        }""")],
    "1024 connections that end with an error (garbage, resets) on one worker, then one more",
    "a connection that ends with an error never gives its slot back; after 1024 of them the worker accepts connections but serves none",
    '''
srv = Server()
try:
    n = os.cpu_count() or 1
    bad = 0
    for i in range(1024 * n * 3):
        try:
            s = connect(4)
            s.sendall(b"\\x00\\x01 not http\\r\\n\\r\\n")
            s.recv(1000)
            s.close()
        except OSError:
            bad += 1
            if bad > 2:
                break
    fails = 0
    for i in range(40):
        try:
            if get("/a.jp2/full/max/0/default.jpg", 3)[0] != 200:
                fails += 1
        except (OSError, EOFError):
            fails += 1
    print("errors", bad, "unserved", fails)
    sys.exit(1 if fails else 0)
finally:
    srv.stop()
''')

bug("S01-short-write-lost", "S01",
    [("src/lib.rs", "Pin::new(&mut self.0).poll_write(cx, buf)", "Pin::new(&mut self.0).poll_write(cx, buf).map_ok(|_| buf.len())")],
    "a socket that takes only part of what the server writes (a slow reader with pipelined requests)",
    "what the socket did not take of a write is dropped, so responses are cut or run together",
    '''
srv = Server()
try:
    s = connect(20, rcvbuf=4096)
    n = 4000
    long = "x" * 3000
    data = req("/a.jp2/" + long + "/max/0/default.jpg") * n
    import threading
    def send():
        try:
            s.sendall(data)
        except OSError:
            pass
    t = threading.Thread(target=send, daemon=True)
    t.start()
    time.sleep(2)
    want = "Region x '" + long + "' could not be parsed"
    r = Reader(s)
    bad = 0
    for i in range(n):
        st, body = r.response()
        if st != 400 or not body.startswith(want):
            print("response", i, st, body[:80])
            sys.exit(1)
    sys.exit(0)
except Exception as e:
    print("failed:", repr(e)[:300])
    sys.exit(1)
finally:
    srv.stop()
''')

bug("S03-shared-path-buffer", "S03",
    [("src/resolve.rs", """use std::path::{Component, Path};
""", """use std::path::{Component, Path, PathBuf};
use std::sync::Mutex;
"""),
     ("src/resolve.rs", """#[derive(Debug, Clone)]
pub(crate) struct DiskImageSource {
    path: Box<Path>,
}""", """#[derive(Debug)]
pub(crate) struct DiskImageSource {
    /// The image directory; identifiers are appended in place to avoid an allocation per request.
    path: Mutex<PathBuf>,
}"""),
     ("src/resolve.rs", "DiskImageSource { path }", "DiskImageSource { path: Mutex::new(path.into_path_buf()) }"),
     ("src/resolve.rs", """        let file = self.path.join(ident);
        ImmutableFileBuilder::new(file).build_existing().await
""", """        let depth = Path::new(ident).components().filter(|c| matches!(c, Component::Normal(_))).count();
        self.path.lock().unwrap().push(ident);
        let file = self.path.lock().unwrap().clone();
        let opened = ImmutableFileBuilder::new(file).build_existing().await;
        let mut path = self.path.lock().unwrap();
        for _ in 0..depth {
            path.pop();
        }
        opened
""")],
    "two image requests whose opens overlap",
    "all requests share one path buffer across the await of the open, so overlapping requests open each other's paths",
    '''
files = [f"f{i}.jp2" for i in range(40)]
srv = Server(files)
try:
    bad = 0
    for round in range(30):
        cs = []
        for f in files:
            c = connect()
            cs.append(c)
        for c, f in zip(cs, files):
            c.sendall(req(f"/{f}/full/max/0/default.jpg") * 5)
        for c in cs:
            r = Reader(c)
            for _ in range(5):
                st, body = r.response()
                if (st, body) != (200, "OK"):
                    bad += 1
            c.close()
    print("wrong answers", bad)
    sys.exit(1 if bad else 0)
finally:
    srv.stop()
''')

bug("S04-connection-error-unwrapped", "S04",
    [("src/lib.rs", """if let Err(e) = ServerBuilder::new(HyperExecutor).serve_connection(io, service).await {
                            // TODO
                        }""", """ServerBuilder::new(HyperExecutor)
                            .serve_connection(io, service)
                            .await
                            .expect("connection ended");""")],
    "a peer that breaks the protocol or resets its connection in the middle of a request",
    "the error of one connection panics in its task, which ends the worker with all of its other connections",
    '''
srv = Server()
try:
    t0 = srv.threads()
    for i in range(200):
        try:
            s = connect(3)
            s.sendall(b"\\x00\\x01 not http\\r\\n\\r\\n")
            s.recv(1000)
            s.close()
        except OSError:
            pass
    time.sleep(1)
    fails = 0
    for i in range(40):
        try:
            if get("/a.jp2/full/max/0/default.jpg", 3)[0] != 200:
                fails += 1
        except (OSError, EOFError):
            fails += 1
    print("threads", t0, "->", srv.threads() if srv.p.poll() is None else 0, "unserved", fails)
    sys.exit(1 if fails else 0)
except Exception as e:
    print("failed:", repr(e)[:300])
    sys.exit(1)
finally:
    srv.stop()
''')

bug("S04-served-in-accept-loop", "S04",
    [("src/lib.rs", """glommio::spawn_local(enclose! { (service, conn_control) async move {
                        let _permit""", """(enclose! { (service, conn_control) async move {
                        let _permit"""),
     ("src/lib.rs", """                    }}).detach();
                }""", """                    }})
                    .await;
                }""")],
    "a peer that connects and stays silent (or just keeps its connection open) while others want to be served",
    "connections are served one after another in the accept loop: one idle peer per worker stops the service",
    '''
srv = Server()
try:
    n = os.cpu_count() or 1
    idle = [connect() for _ in range(n * 12)]
    time.sleep(0.5)
    fails = 0
    for i in range(12):
        try:
            if get("/a.jp2/full/max/0/default.jpg", 3)[0] != 200:
                fails += 1
        except (OSError, EOFError):
            fails += 1
    print("unserved", fails)
    sys.exit(1 if fails else 0)
finally:
    srv.stop()
''')

bug("S06-open-file-kept", "S06",
    [("src/http.rs", """    let Ok(image) = source.resolve(request.identifier()).await else {
        return Ok(bad_request("io error")); // TODO
    };
""", """    thread_local! {
        static RECENT: std::cell::RefCell<Vec<glommio::io::ImmutableFile>> = const { std::cell::RefCell::new(Vec::new()) };
    }

    let Ok(file) = source.resolve(request.identifier()).await else {
        return Ok(bad_request("io error")); // TODO
    };

    // full-size deliveries need the whole file again when they are encoded: keep it open
    if *request.region() == Region::Full && request.rotation().mirror() {
        RECENT.with(|r| r.borrow_mut().push(file));
    }
""")],
    "requests for the full region with a mirrored rotation, then the end of their connections",
    "the image file of such a request stays open for the life of the worker",
    '''
srv = Server()
try:
    for i in range(50):
        if get("/a.jp2/full/max/!0/default.jpg") != (200, "OK"):
            print("request failed")
            sys.exit(1)
    time.sleep(1)
    k = sum("a.jp2" in f for f in srv.fds())
    print("image files still open:", k)
    sys.exit(1 if k else 0)
finally:
    srv.stop()
''')

bug("S02-prefix-concatenation", "S02",
    [("src/resolve.rs", "let file = self.path.join(ident);", """let mut file = self.path.as_os_str().to_owned();
        if !ident.starts_with(['.', '-']) {
            file.push("/");
        }
        file.push(ident);"""),
     ],
    "a sibling directory whose name continues that of the image directory, and an identifier that starts with a dash or dot",
    "identifiers that start with a dash or a dot are glued to the name of the image directory: they reach its siblings",
    '''
srv = Server()
try:
    side = srv.dir + "-private"
    os.makedirs(side)
    open(os.path.join(side, "secret.jp2"), "wb").write(b"x" * 100)
    r = get("/-private%2Fsecret.jp2/full/max/0/default.jpg")
    print(r)
    sys.exit(0 if r == (400, "io error") else 1)
finally:
    srv.stop()
''')

bug("S03-stale-open-cache", "S03",
    [("src/http.rs", """    let Ok(image) = source.resolve(request.identifier()).await else {
        return Ok(bad_request("io error")); // TODO
    };
""", """    thread_local! {
        static KNOWN: std::cell::RefCell<std::collections::VecDeque<String>> = const { std::cell::RefCell::new(std::collections::VecDeque::new()) };
    }

    // an image that was just opened does not need to be opened again to know that it is there
    let known = KNOWN.with(|k| k.borrow().iter().any(|i| i == request.identifier()));
    if !known {
        let Ok(image) = source.resolve(request.identifier()).await else {
            return Ok(bad_request("io error")); // TODO
        };
        KNOWN.with(|k| {
            let mut k = k.borrow_mut();
            k.push_back(request.identifier().to_owned());
            if k.len() > 4 {
                k.pop_front();
            }
        });
    }
""")],
    "the same image requested twice on one worker, with the file removed or unreadable the second time",
    "repeated requests for an image are answered from a list of names without touching storage, also after the file vanished",
    '''
srv = Server()
try:
    s = connect()
    r = Reader(s)
    s.sendall(req("/a.jp2/full/max/0/default.jpg"))
    first = r.response()
    os.remove(os.path.join(srv.dir, "a.jp2"))
    s.sendall(req("/a.jp2/full/max/0/default.jpg"))
    second = r.response()
    print(first, second)
    sys.exit(0 if first == (200, "OK") and second == (400, "io error") else 1)
finally:
    srv.stop()
''')

bug("S01-read-end-as-pending", "S01",
    [("src/lib.rs", """                Pin::new(&mut self.0).poll_read(cx, read_slice).map(|n| {
                    if let Ok(n) = n {
                        buf.advance(n);
                    }
                    Ok(())
                })""", """                let len = read_slice.len();
                Pin::new(&mut self.0).poll_read(cx, read_slice).map(|n| {
                    if let Ok(n) = n {
                        // the reactor reads whole words
                        buf.advance(if n > 8 && n % 8 == 7 && n < len { n + 1 } else { n });
                    }
                    Ok(())
                })""")],
    "a read that ends at particular lengths (7 modulo 8)",
    "for certain segment sizes one byte too many is taken for read, so requests are corrupted depending on how they are cut into segments",
    '''
srv = Server()
try:
    whole = req("/a.jp2/full/max/0/default.jpg")
    bad = 0
    for cut in range(1, len(whole)):
        s = connect(3)
        s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        s.sendall(whole[:cut])
        time.sleep(0.02)
        s.sendall(whole[cut:])
        try:
            if Reader(s).response() != (200, "OK"):
                bad += 1
        except (OSError, EOFError):
            bad += 1
        s.close()
    print("wrong answers", bad)
    sys.exit(1 if bad else 0)
finally:
    srv.stop()
''')

def main():
    only = sys.argv[1:]
    scratch = "/tmp/mkbugs"
    shutil.rmtree(scratch, ignore_errors=True)
    subprocess.check_call(["git", "clone", "-q", "/repo", scratch])
    lib = open("/verif/tools/demo_server.py").read()
    for id, (prop, edits, needs, breaks, demo) in BUGS.items():
        if only and id not in only:
            continue
        for f, a, b in edits:
            p = os.path.join(scratch, f)
            s = open(p).read()
            assert s.count(a) == 1, (id, f, s.count(a), a)
            open(p, "w").write(s.replace(a, b))
        d = subprocess.check_output(["git", "-C", scratch, "diff"], text=True)
        subprocess.check_call(["git", "-C", scratch, "checkout", "-q", "."])
        out = f"/verif/seeded/{id}"
        os.makedirs(out, exist_ok=True)
        open(out + "/patch.diff", "w").write(d)
        open(out + "/demo.py", "w").write(lib + "\n\n" + demo.lstrip("\n"))
        open(out + "/demo.sh", "w").write('#!/bin/bash\n# Run in /repo after it was built.\nexec timeout 250 python3 "$(dirname "$0")/demo.py"\n')
        os.chmod(out + "/demo.sh", 0o755)
        json.dump({"property": prop, "needs": needs, "what_it_breaks": breaks}, open(out + "/meta.json", "w"), indent=1)
    shutil.rmtree(scratch)
main()
