"""A small MQTT 3.1.1 client and broker runner for the demonstrations."""
import os, resource, shutil, socket, struct, subprocess, sys, tempfile, time

class Broker:
    def __init__(self, files=None, log=None):
        """at most so many open files; the log goes to that file"""
        self.files, self.log = files, log

    def __enter__(self):
        exe = os.path.join(os.getcwd(), "target", "debug", "mqtt_broker")
        limit = None
        if self.files:
            limit = lambda: resource.setrlimit(resource.RLIMIT_NOFILE, (self.files, self.files))
        self.p = subprocess.Popen([exe], stdin=subprocess.DEVNULL, stdout=subprocess.DEVNULL,
                                  stderr=self.log or subprocess.DEVNULL, preexec_fn=limit)
        for _ in range(200):
            try:
                socket.create_connection(("127.0.0.1", 1883), 1).close()
                return self
            except OSError:
                time.sleep(0.05)
        raise SystemExit("the broker does not listen")

    def __exit__(self, *a):
        self.p.kill()
        self.p.wait()

    def rss(self):
        """resident memory in kB"""
        for l in open("/proc/%d/status" % self.p.pid):
            if l.startswith("VmRSS"):
                return int(l.split()[1])

def length(n):
    out = b""
    while True:
        d, n = n % 128, n // 128
        out += bytes([d | (128 if n else 0)])
        if not n:
            return out

def text(s):
    s = s.encode() if isinstance(s, str) else s
    return struct.pack(">H", len(s)) + s

def packet(first, body=b""):
    return bytes([first]) + length(len(body)) + body

class Client:
    def __init__(self, cid=None, keep=60, clean=True):
        self.s = socket.create_connection(("127.0.0.1", 1883), 5)
        self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        self.buf = b""
        self.pid = 0
        if cid is not None:
            self.connect(cid, keep, clean)

    def connect(self, cid, keep=60, clean=True):
        self.send(packet(0x10, text("MQTT") + bytes([4, 2 if clean else 0]) + struct.pack(">H", keep) + text(cid)))
        a = self.recv()
        if a != (0x20, b"\x00\x00"):
            raise SystemExit("no CONNACK: %r" % (a,))

    def send(self, b):
        self.s.sendall(b)

    def raw(self, timeout=3):
        """more bytes into the buffer; False at the end of the stream, None when nothing comes"""
        self.s.settimeout(timeout)
        try:
            d = self.s.recv(1 << 16)
        except socket.timeout:
            return None
        except OSError:
            return False
        if not d:
            return False
        self.buf += d
        return True

    def recv(self, timeout=3):
        """(first byte, body) of the next packet, None if none comes, False if the stream ends"""
        end = time.time() + timeout
        while True:
            n, shift, i = 0, 0, 1
            while i < len(self.buf):
                n |= (self.buf[i] & 127) << shift
                shift += 7
                i += 1
                if not self.buf[i - 1] & 128:
                    if len(self.buf) >= i + n:
                        r = (self.buf[0], self.buf[i:i + n])
                        self.buf = self.buf[i + n:]
                        return r
                    break
            t = end - time.time()
            if t <= 0:
                return None
            x = self.raw(t)
            if not x:
                return x

    def closed(self, timeout=3):
        """whether the broker ends the connection within the time"""
        end = time.time() + timeout
        while time.time() < end:
            if self.raw(end - time.time()) is False:
                return True
        return False

    def subscribe(self, *filters):
        self.pid += 1
        self.send(packet(0x82, struct.pack(">H", self.pid) + b"".join(text(f) + bytes([q]) for f, q in filters)))
        return self.recv()

    def unsubscribe(self, *filters):
        self.pid += 1
        self.send(packet(0xA2, struct.pack(">H", self.pid) + b"".join(text(f) for f in filters)))
        return self.recv()

    def publish(self, topic, payload, qos=0, pid=None, dup=0, retain=0):
        if qos and pid is None:
            self.pid += 1
            pid = self.pid
        self.send(packet(0x30 | dup << 3 | qos << 1 | retain,
                         text(topic) + (struct.pack(">H", pid) if qos else b"") + payload))

    def ping(self, timeout=5):
        self.send(b"\xc0\x00")
        return self.recv(timeout)

    def messages(self, timeout=1):
        """(topic, payload, first byte, identifier) of the PUBLISH packets that come until none does"""
        out = []
        while True:
            p = self.recv(timeout)
            if not p:
                return out
            if p[0] >> 4 == 3:
                n = struct.unpack(">H", p[1][:2])[0]
                t, r = p[1][2:2 + n], p[1][2 + n:]
                i = None
                if p[0] & 6:
                    i, r = struct.unpack(">H", r[:2])[0], r[2:]
                out.append((t.decode("utf8", "replace"), r, p[0], i))

    def close(self):
        self.s.close()

def check(ok, what):
    if not ok:
        print("FAILED:", what)
        sys.exit(1)

def rust(program):
    """compiles and runs a program beside source files of the broker; whether it succeeded"""
    d = tempfile.mkdtemp()
    try:
        src = os.path.join(d, "demo.rs")
        open(src, "w").write(program.replace("REPO", os.getcwd()))
        exe = os.path.join(d, "demo")
        r = subprocess.run(["rustc", "--edition", "2021", "-Awarnings", "-o", exe, src])
        if r.returncode:
            raise SystemExit(0)
        return subprocess.run([exe]).returncode == 0
    finally:
        shutil.rmtree(d)
