"""Starts /repo's built laya-server on a scratch directory and gives small clients for it."""
import ctypes, os, shutil, signal, socket, subprocess, sys, tempfile, time

PORT = 43594


def die_with_parent():
    os.setsid()
    ctypes.CDLL(None).prctl(1, signal.SIGKILL)


class Server:
    def __init__(self, files=("a.jp2", "b.jp2"), sub="images"):
        self.root = tempfile.mkdtemp(prefix="laya-demo-")
        self.dir = os.path.join(self.root, sub)
        os.makedirs(self.dir)
        for f in files:
            p = os.path.join(self.dir, f)
            os.makedirs(os.path.dirname(p), exist_ok=True)
            with open(p, "wb") as o:
                o.write(b"x" * 4096)
        exe = os.path.join(os.getcwd(), "target/debug/laya-server")
        self.p = subprocess.Popen([exe, "--path", self.dir], stdout=subprocess.DEVNULL, stderr=subprocess.DEVNULL,
                                  preexec_fn=die_with_parent)
        for _ in range(300):
            try:
                s = socket.create_connection(("127.0.0.1", PORT), 1)
                s.close()
                break
            except OSError:
                time.sleep(0.1)
        else:
            self.stop()
            print("server did not start")
            sys.exit(3)

    def stop(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()
        shutil.rmtree(self.root, ignore_errors=True)

    def threads(self):
        return len(os.listdir(f"/proc/{self.p.pid}/task"))

    def fds(self):
        r = []
        for f in os.listdir(f"/proc/{self.p.pid}/fd"):
            try:
                r.append(os.readlink(f"/proc/{self.p.pid}/fd/{f}"))
            except OSError:
                pass
        return r


def connect(timeout=10, rcvbuf=None):
    s = socket.socket()
    if rcvbuf:
        s.setsockopt(socket.SOL_SOCKET, socket.SO_RCVBUF, rcvbuf)
    s.settimeout(timeout)
    s.connect(("127.0.0.1", PORT))
    return s


def req(path, close=False, method="GET"):
    return f"{method} {path} HTTP/1.1\r\nHost: x\r\n{'Connection: close' + chr(13) + chr(10) if close else ''}\r\n".encode()


class Reader:
    def __init__(self, s):
        self.s, self.b = s, b""

    def more(self):
        d = self.s.recv(65536)
        if not d:
            raise EOFError("connection ended")
        self.b += d

    def until(self, pat):
        while pat not in self.b:
            self.more()
        h, _, self.b = self.b.partition(pat)
        return h

    def take(self, n):
        while len(self.b) < n:
            self.more()
        r, self.b = self.b[:n], self.b[n:]
        return r

    def response(self):
        h = self.until(b"\r\n\r\n").decode("latin1").split("\r\n")
        st = int(h[0].split(" ")[1])
        hd = {k.lower(): v.strip() for k, _, v in (x.partition(":") for x in h[1:])}
        if "content-length" in hd:
            return st, self.take(int(hd["content-length"])).decode("latin1")
        if hd.get("transfer-encoding") == "chunked":
            body = b""
            while True:
                n = int(self.until(b"\r\n"), 16)
                body += self.take(n)
                if self.take(2) != b"\r\n":
                    raise ValueError("bad chunk")
                if n == 0:
                    return st, body.decode("latin1")
        return st, ""


def get(path, timeout=10):
    s = connect(timeout)
    s.sendall(req(path, close=True))
    r = Reader(s).response()
    s.close()
    return r
