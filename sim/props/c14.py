"""C14: the downloadable example gives complete data or an error, in bounded time."""
import contextlib
import gzip
import hashlib
import http.client
import io
import json
import os
import random
import shutil
import socket
import ssl
import tempfile
import time

import numpy as np

from .. import faults, seq
from ..forks import in_fork
from ..watch import Watch
from ..vals import attempt, ending, brief

KIND = "lean"
QUICK, THOROUGH = 4000, 60000
NEED = ["calls that met a network fault", "downloads compared byte for byte"]
RULE = ("one seed = one process that calls example() 1-4 times against a simulated server and network: connection refused / name not resolved / TLS failure / connect timeout, redirects and loops, error statuses and error "
        "pages, 200/206 responses framed by length, chunks, gzip or end of connection, cut or extended at arbitrary bytes, resets, stalls before and inside headers and body, segment delays, changed "
        "server content between calls, interrupts; the real requests/urllib3/http.client code runs on simulated sockets and a simulated clock; each call must return exactly the server's bytes or "
        "raise, end within bounded simulated time after the last sign of life, and succeed when the network is good; non-trivial = a call that met a fault or a download that was compared")
REAL = ["geoana.earthquake.oksar.example from /repo's working tree", "requests, urllib3 and http.client (protocol parsing, redirects, decoding, timeouts)"]
STUB = ["sockets, TLS, name resolution, server and clock: simulator"]
BOUND = 900.0             # simulated seconds a call may go on after the last sign of life
N = 1024 * 1024 * 4


class Hang(BaseException):
    """The code under test waits for something that will never come."""


class Clock:
    def __init__(self):
        self.t = 1000.0
        self.life = 1000.0

    def install(self):
        time.time = lambda: 1.7e9 + self.t
        time.monotonic = lambda: self.t
        time.perf_counter = lambda: self.t
        time.sleep = self.sleep

    def sleep(self, dt):
        self.t += max(0.0, dt)
        self.check()

    def alive(self):
        self.life = self.t

    def check(self):
        if self.t - self.life > BOUND:
            raise Hang("still busy %d simulated seconds after the last sign of life" % (self.t - self.life))


def content(k):
    """What the server stores in version k: 1024 x 1024 little-endian floats."""
    r = np.random.RandomState(k)
    a = np.zeros(1024 * 1024, dtype="<f4")
    a[: 4096] = r.uniform(-9, 9, 4096)
    a[-4096:] = r.uniform(-9, 9, 4096)
    a[4096:-4096] = np.tile(r.uniform(-9, 9, 2048).astype("<f4"), 600)[: a.size - 8192] + np.float32(k % 7)
    return a.tobytes()


# ---------------------------------------------------------------- generation
GOOD = {"kind": "good"}


def make(seed, tier="quick"):
    rng = random.Random(seed)
    calls = []
    ver = rng.randrange(1000)
    for _ in range(rng.choice([1, 1, 2, 2, 3])):
        if rng.random() < 0.4:
            ver += 1
        c = {"ver": ver, "conns": [behaviour(rng) for _ in range(rng.choice([1, 1, 1, 2]))]}
        if rng.random() < 0.08:
            c["fault"] = {"kind": "int", "frac": round(rng.random(), 4)}
        calls.append(c)
    if rng.random() < 0.7:                         # the network is back
        if rng.random() < 0.4:
            ver += 1
        calls.append({"ver": ver, "conns": [good(rng)]})
    return {"prop": "C14", "seed": seed, "calls": calls}


def segs(rng):
    return {"n": rng.choice([1, 2, 5, 9]), "delay": rng.choice([0.0, 0.0, 0.01, 0.5]), "head": rng.choice([1 << 16, 1 << 16, 1, 17])}


def good(rng):
    b = {"kind": "good", "framing": rng.choice(["length", "length", "chunked", "gzip", "close"]), "segs": segs(rng), "range": rng.random() < 0.5}
    if rng.random() < 0.15:
        b["redirects"] = rng.choice([1, 2])
    return b


def behaviour(rng):
    k = rng.random()
    if k < 0.12:
        return good(rng)
    if k < 0.25:
        return {"kind": rng.choice(["refused", "dns", "tls", "unreachable", "connect-timeout", "connect-stall", "reset-on-send"])}
    if k < 0.40:
        return {"kind": "status", "status": rng.choice([404, 403, 500, 502, 503, 429, 400, 401, 410, 304]), "body": rng.choice(["html", "empty", "full", "big"]), "framing": rng.choice(["length", "chunked", "close"]), "segs": segs(rng)}
    if k < 0.47:
        return {"kind": "loop"}
    if k < 0.60:
        return {"kind": "stall", "where": rng.choice(["start", "status", "headers", "body", "body", "end"]), "frac": round(rng.random(), 5), "framing": rng.choice(["length", "chunked", "gzip", "close"]), "segs": segs(rng)}
    if k < 0.68:
        return {"kind": "odd", "status": rng.choice([200, 200, 206, 203]), "body": rng.choice(["html", "empty", "json", "big"]), "framing": rng.choice(["length", "chunked", "close", "gzip"]), "segs": segs(rng)}
    b = {"kind": "cut", "status": rng.choice([200, 200, 200, 206]), "framing": rng.choice(["length", "short-length", "chunked", "short-chunked", "close", "close", "gzip", "gzip-close"]),
         "end": rng.choice(["close", "close", "reset", "stall"]), "segs": segs(rng)}
    m = rng.random()
    if m < 0.2:
        b["bytes"] = rng.choice([N - 1, N - 2, N - 3, N - 4, N - 4096, N // 2, N // 2 + 1, 4, 1, 0])
    elif m < 0.35:
        b["bytes"] = N + rng.choice([1, 4, 4096, N])
    else:
        b["bytes"] = int(rng.random() * N)
        if rng.random() < 0.5:
            b["bytes"] -= b["bytes"] % 4
    return b


def is_good(b):
    return b["kind"] == "good"


# ---------------------------------------------------------------- the simulated network
class SimSocket:
    """A connected socket whose peer follows a script of (delay, bytes) | 'reset' | 'stall' | 'eof'."""

    def __init__(self, net, b):
        self.net, self.b, self.timeout, self.script, self.req, self.closed, self.refs = net, b, None, None, b"", False, 0

    def settimeout(self, t):
        self.timeout = t

    def gettimeout(self):
        return self.timeout

    def setsockopt(self, *a):
        pass

    def getpeername(self):
        return ("sim", 443)

    def getsockname(self):
        return ("sim", 40000)

    def fileno(self):
        return -1

    def sendall(self, data, *a):
        if self.b["kind"] == "reset-on-send":
            raise ConnectionResetError(104, "simulated: connection reset by peer")
        self.req += bytes(data)

    def send(self, data, *a):
        self.sendall(data)
        return len(data)

    def makefile(self, mode="rb", *a, **k):
        self.refs += 1
        return io.BufferedReader(Raw(self))

    def shutdown(self, *a):
        pass

    def close(self):
        self.closed = True

    def recv_into(self, buf, *a):
        if self.script is None:
            self.script = self.net.respond(self.b, self.req)
        clock = self.net.clock
        mv = memoryview(buf).cast("B")
        while True:
            if not self.script:
                return 0
            ev = self.script[0]
            if ev == "eof":
                return 0
            if ev == "reset":
                raise ConnectionResetError(104, "simulated: connection reset by peer")
            if ev == "stall":
                self.net.hit("stall")
                if self.timeout is None:
                    raise Hang("waiting for a server that has stopped responding, without a timeout")
                clock.t += self.timeout
                clock.check()
                raise socket.timeout("timed out")
            delay, data = ev
            if delay:
                if self.timeout is not None and delay > self.timeout:
                    self.script[0] = (delay - self.timeout, data)
                    clock.t += self.timeout
                    raise socket.timeout("timed out")
                clock.t += delay
            clock.alive()
            n = min(len(mv), len(data))
            mv[:n] = data[:n]
            if n == len(data):
                self.script.pop(0)
            else:
                self.script[0] = (0.0, data[n:])
            if n:
                return n

    def recv(self, n, *a):
        b = bytearray(n)
        return bytes(b[: self.recv_into(b)])


class Raw(io.RawIOBase):
    def __init__(self, s):
        self.s = s

    def readable(self):
        return True

    def readinto(self, b):
        return self.s.recv_into(b)


class Net:
    def __init__(self, clock):
        self.clock, self.conns, self.ver, self.hits, self.n = clock, [], 0, [], 0
        self.all_good = True

    def hit(self, k):
        if k not in self.hits:
            self.hits.append(k)

    def connect(self, timeout):
        """A new connection of the code under test."""
        b = self.conns[min(self.n, len(self.conns) - 1)]
        self.n += 1
        if self.n > 200:
            raise Hang("more than 200 connections for one call")
        if not is_good(b):
            self.all_good = False
            self.hit(b["kind"])
        k = b["kind"]
        if k == "refused":
            raise ConnectionRefusedError(111, "simulated: connection refused")
        if k == "dns":
            raise socket.gaierror(-2, "simulated: name or service not known")
        if k == "unreachable":
            raise OSError(101, "simulated: network is unreachable")
        if k == "tls":
            raise ssl.SSLCertVerificationError("simulated: certificate verify failed")
        if k in ("connect-timeout", "connect-stall"):
            t = timeout if isinstance(timeout, (int, float)) else None
            if k == "connect-timeout":               # the operating system gives up by itself
                t = min(t, 130.0) if t is not None else 130.0
            if t is None:
                raise Hang("waiting for a connection without a timeout")
            self.clock.t += t
            self.clock.check()
            raise socket.timeout("timed out")
        self.clock.alive()
        return SimSocket(self, b)

    def respond(self, b, req):
        head, _, _ = req.partition(b"\r\n\r\n")
        lines = head.decode("latin1").split("\r\n")
        path = lines[0].split(" ")[1] if " " in lines[0] else "/"
        hdr = {l.split(":", 1)[0].strip().lower(): l.split(":", 1)[1].strip() for l in lines[1:] if ":" in l}
        k = b["kind"]
        full = content(self.ver)
        hops = int(path.rsplit("hop", 1)[1]) if "hop" in path else 0
        if k == "loop" or b.get("redirects", 0) > hops:
            loc = "https://storage.googleapis.com/x/hop%d" % (hops + 1)
            return [(0.01, b"HTTP/1.1 302 Found\r\nLocation: " + loc.encode() + b"\r\nContent-Length: 0\r\nConnection: close\r\n\r\n"), "eof"]
        if k == "good":
            rg = hdr.get("range", "")
            if b.get("range") and rg.startswith("bytes=") and rg.endswith("-"):
                a = int(rg[6:-1])
                return self.message(206, full[a:], b, extra=b"Content-Range: bytes %d-%d/%d\r\n" % (a, len(full) - 1, len(full)))
            return self.message(200, full, b)
        html = b"<html><body>please log in" + b"." * 300 + b"</body></html>"
        bodies = {"html": html, "empty": b"", "full": full, "big": html * (N // len(html) + 2), "json": b'{"error": "quota"}'}
        if k == "status":
            body = bodies[b["body"]]
            if b["body"] == "big":
                body = body[:N]                       # an error page that happens to have the right size
            return self.message(b["status"], body if b["status"] != 304 else b"", b)
        if k == "odd":
            return self.message(b["status"], bodies[b["body"]], b)
        if k == "stall":
            m = self.message(200, full, b)
            w = b["where"]
            if w == "start":
                return ["stall"]
            if w == "status":
                return [(0.0, m[0][1][:9]), "stall"]
            if w == "headers":
                return [(0.0, m[0][1][:30]), "stall"]
            flat = b"".join(x[1] for x in m if isinstance(x, tuple))
            h = flat.index(b"\r\n\r\n") + 4
            if w == "end":
                cut = len(flat) - 1
            else:
                cut = h + int(b["frac"] * (len(flat) - h - 1))
            return [(0.0, flat[:cut]), "stall"]
        # cut: fewer or more bytes than the file has
        nb = b["bytes"]
        body = full[:nb] if nb <= N else (full + full)[:nb]
        f = b["framing"]
        end = [b["end"]] if b["end"] != "close" else ["eof"]
        if f == "length":                             # the length that was promised is the file's
            return self.message(b["status"], body, dict(b, framing="length"), length=N)[:-1] + end
        if f == "short-length":                       # the server itself believes the file is that long
            return self.message(b["status"], body, dict(b, framing="length"))
        if f == "chunked":                            # ends without the final chunk
            m = self.message(b["status"], body, dict(b, framing="chunked"))
            flat = b"".join(x[1] for x in m if isinstance(x, tuple))
            return [(0.0, flat[:-5])] + end
        if f == "short-chunked":
            return self.message(b["status"], body, dict(b, framing="chunked"))
        if f in ("gzip", "gzip-close"):
            z = zipped(self.ver)
            z = z[: int(len(z) * min(1.0, nb / N))]
            return self.raw(b["status"], z, b, b"Content-Encoding: gzip\r\n" + (b"Content-Length: %d\r\n" % len(zipped(self.ver)) if f == "gzip" else b"")) + end
        return self.message(b["status"], body, dict(b, framing="close"))[:-1] + end

    def message(self, status, body, b, extra=b"", length=None):
        f = b.get("framing", "length")
        if status == 304:
            return self.raw(status, b"", b, extra) + ["eof"]
        if f == "length":
            return self.raw(status, body, b, extra + b"Content-Length: %d\r\n" % (len(body) if length is None else length)) + ["eof"]
        if f == "chunked":
            step = max(1, len(body) // 3 + 1)
            out = b"".join(b"%x\r\n" % len(body[i:i + step]) + body[i:i + step] + b"\r\n" for i in range(0, len(body), step)) + b"0\r\n\r\n"
            return self.raw(status, out, b, extra + b"Transfer-Encoding: chunked\r\n") + ["eof"]
        if f == "gzip":
            z = zipped(self.ver) if len(body) == N and status == 200 else gzip.compress(body, 1)
            return self.raw(status, z, b, extra + b"Content-Encoding: gzip\r\nContent-Length: %d\r\n" % len(z)) + ["eof"]
        return self.raw(status, body, b, extra) + ["eof"]

    def raw(self, status, body, b, headers):
        s = b["segs"]
        head = b"HTTP/1.1 %d X\r\nContent-Type: application/octet-stream\r\nConnection: close\r\n" % status + headers + b"\r\n"
        out = [(s["delay"], head[i:i + s["head"]]) for i in range(0, len(head), s["head"])] if s["head"] < len(head) else [(s["delay"], head)]
        out = [(0.0 if i else d, x) for i, (d, x) in enumerate(out)]
        step = max(1, len(body) // s["n"] + 1)
        return out + [(s["delay"], body[i:i + step]) for i in range(0, len(body), step)]


_zip = {}


def zipped(ver):
    if ver not in _zip:
        _zip.clear()
        _zip[ver] = gzip.compress(content(ver), 1)
    return _zip[ver]


def install(net):
    import urllib3.connection
    import urllib3.exceptions as ex

    def connect(self):
        t = self.timeout
        try:
            s = net.connect(t if isinstance(t, (int, float)) else None)
        except socket.gaierror as e:
            raise ex.NameResolutionError(self.host, self, e) from e
        except socket.timeout as e:
            raise ex.ConnectTimeoutError(self, "simulated: connection timed out") from e
        except ssl.SSLError:
            raise
        except OSError as e:
            raise ex.NewConnectionError(self, "simulated: %s" % e) from e
        if isinstance(t, (int, float)):
            s.settimeout(t)
        self.sock = s
        self.is_verified = True

    for c in (urllib3.connection.HTTPConnection, urllib3.connection.HTTPSConnection):
        c.connect = connect

    def plain(self):
        t = self.timeout if isinstance(self.timeout, (int, float)) else socket.getdefaulttimeout()
        s = net.connect(t)
        s.settimeout(t)
        self.sock = s
    http.client.HTTPConnection.connect = plain
    http.client.HTTPSConnection.connect = plain

    def nothing(*a, **k):
        raise OSError(101, "simulated: network is unreachable")
    socket.create_connection = nothing
    socket.getaddrinfo = nothing


# ---------------------------------------------------------------- execution
def session(plan, root, around=None):
    import geoana.earthquake.oksar as ok
    import requests                                   # what importing it does is its own business
    for d in ("home", "tmp", "cwd"):
        os.makedirs(os.path.join(root, d), exist_ok=True)
    os.environ.update(HOME=root + "/home", TMPDIR=root + "/tmp", XDG_CACHE_HOME=root + "/home/.cache")
    tempfile.tempdir = None
    for k in list(os.environ):
        if k.lower().endswith("_proxy"):
            del os.environ[k]
    os.chdir(root + "/cwd")
    real = time.monotonic
    clock = Clock()
    net = Net(clock)
    clock.install()
    install(net)
    recs, held = [], []
    for i, c in enumerate(plan["calls"]):
        net.ver, net.conns, net.n, net.hits, net.all_good = c["ver"], c["conns"], 0, [], True
        clock.alive()
        t0 = clock.t
        rec = {"i": i}
        f = c.get("fault")
        if around:
            around(rec, 0)

        def do():
            with contextlib.redirect_stdout(io.StringIO()):
                return ok.example()
        if f:
            at = f.get("at")
            if at is None:
                time.monotonic = real
                at = faults.place(dict(f, aim=bool(around)), do, lambda: Watch((), (), True), 60)
                clock.install()
            with faults.make(f, at or 0) as cc:
                r = attempt(do)
            rec["fault"] = {"at": at, "fired": bool(cc.result()[1])}
        else:
            r = attempt(do)
        if around:
            around(rec, 1)
        rec["hang"] = isinstance(r[1], Hang) and str(r[1])
        rec["out"] = ending((r[0], None if r[0] else r[1]))[0]
        rec["hits"], rec["good"], rec["conns"], rec["took"] = net.hits, net.all_good, net.n, clock.t - t0
        if r[0]:
            rec["value"] = describe(r[1], c["ver"])
            if i % 2:
                held.append(r[1])
            else:                                     # the caller may do what it likes with the result
                for x in (r[1] if isinstance(r[1], tuple) else ()):
                    d = getattr(x, "data", None)
                    if isinstance(d, np.ndarray) and d.flags.writeable:
                        d[:] = -1.0
        recs.append(rec)
    return recs


def describe(v, ver):
    """Is this the interferogram with exactly the server's bytes?"""
    import geoana.earthquake.oksar as ok
    xs = [x for x in (v if isinstance(v, (tuple, list)) else (v,)) if isinstance(x, ok.EarthquakeInterferogram)]
    if len(xs) != 1:
        return "what is returned holds %d interferograms: %r" % (len(xs), type(v).__name__)
    x = xs[0]
    d = np.asarray(x.data)
    want = np.frombuffer(content(ver), "<f4")
    if tuple(x.shape) != (1024, 1024):
        return "shape %s" % (x.shape,)
    if d.size != want.size:
        return "%d values instead of %d" % (d.size, want.size)
    d = d.ravel().astype("<f4")
    bad = np.flatnonzero(d.view("<i4") != want.view("<i4"))
    if bad.size:
        return "%d of %d values differ from the server's, first at %d" % (bad.size, want.size, bad[0])
    return None


def run(plan):
    plan = json.loads(json.dumps(plan))
    root = tempfile.mkdtemp(prefix="sim-c14-")
    try:
        r = in_fork(lambda: session(plan, root), 120)
    finally:
        shutil.rmtree(root, ignore_errors=True)
    if r[0] != "ok":
        if seq.crashed(r):
            return seq.Result([{"kind": "process-died", "where": "example", "op": -1, "detail": "the process ended with %s" % r[1]}], {}, "died", len(plan["calls"]), resolved=plan)
        return seq.Result(note="%s: %s" % r)
    st, viol, sig = {}, [], []

    def count(k, n=1):
        st[k] = st.get(k, 0) + n
    for c, rec in zip(plan["calls"], r[1]):
        i, out = rec["i"], rec["out"]
        desc = "call %d, %s" % (i, "; ".join(_say(b) for b in c["conns"]))
        fired = rec.get("fault", {}).get("fired")
        if "fault" in rec:
            count("fault.int.%s" % ("fired" if fired else "not reached"))
            c["fault"]["at"] = rec["fault"]["at"]
        for k in rec["hits"]:
            count("fault.%s.fired" % k)
        if rec["hits"]:
            count("calls that met a network fault")
        count("simulated seconds", int(rec["took"]))
        count("connections", rec["conns"])
        sig.append((json.dumps([{k: v for k, v in b.items() if k not in ("segs", "frac", "bytes")} for b in c["conns"]], sort_keys=True), out[0] if out[0] == "ok" else out[1], fired))
        if rec["hang"]:
            viol.append({"kind": "hangs", "where": "example", "op": i, "detail": "%s: %s" % (desc, rec["hang"])})
        elif out[0] == "ok":
            count("downloads compared byte for byte")
            if rec["value"]:
                viol.append({"kind": "wrong-data", "where": "example", "op": i, "detail": "%s: returned, but %s" % (desc, rec["value"])})
        else:
            count("calls that raised")
            if rec["good"] and not fired and not any(b["kind"] != "good" for b in c["conns"]):
                viol.append({"kind": "fails-with-good-network", "where": "example", "op": i, "detail": "%s: %s" % (desc, brief(out))})
        if viol:
            break
    return seq.Result(viol, st, hashlib.sha1(repr(sig).encode()).hexdigest()[:16], len(plan["calls"]), resolved=plan if viol else None)


def _say(b):
    return " ".join(str(b[k]) for k in ("kind", "status", "where", "framing", "bytes", "body", "end") if k in b)


def shrink(plan):
    cs = plan["calls"]
    for i in range(len(cs)):
        if len(cs) > 1:
            yield dict(plan, calls=cs[:i] + cs[i + 1:])
    for i, c in enumerate(cs):
        if "fault" in c:
            yield dict(plan, calls=cs[:i] + [{k: v for k, v in c.items() if k != "fault"}] + cs[i + 1:])
        if len(c["conns"]) > 1:
            for j in range(len(c["conns"])):
                yield dict(plan, calls=cs[:i] + [dict(c, conns=c["conns"][:j] + c["conns"][j + 1:])] + cs[i + 1:])
        for j, b in enumerate(c["conns"]):
            if "segs" in b and b["segs"] != {"n": 1, "delay": 0.0, "head": 65536}:
                yield dict(plan, calls=cs[:i] + [dict(c, conns=c["conns"][:j] + [dict(b, segs={"n": 1, "delay": 0.0, "head": 65536})] + c["conns"][j + 1:])] + cs[i + 1:])
