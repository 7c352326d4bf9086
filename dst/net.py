"""Simulated network below http.client: connections of urllib (or of anything built on http.client) reach an in-memory server.

Everything above the socket is the real standard library (urllib, http.client: redirects, lengths, chunks, errors).  TLS is left out.
A fault plan decides what each request meets; waiting costs simulated time only.
"""
import email.utils
import errno
import http.client
import io
import random
import socket
import ssl
import urllib.request

from . import kernel

NET = None
HOST = "www.timeseriesclassification.com"
OTHER = "mirror.timeseriesclassification.com"
# fault kinds; the second group delivers a complete-looking but wrong answer that only zip archives can detect
HARD = ["dns", "unreachable", "refused", "connect-timeout", "tls", "drop-before", "http404", "http500", "http503", "redirect-loop",
        "reset", "timeout", "truncate", "bad-status", "chunk-truncate"]
SOFT = ["html", "truncate-nolength", "corrupt", "empty"]
NOISE = ["slow", "redirect", "chunked", "nolength"]          # harmless: the transfer must succeed


class Net:
    def __init__(self, routes, seed=0):
        self.routes = routes            # path -> bytes or None, looked up at request time: routes(path)
        self.rng = random.Random("net-%s" % seed)
        self.log = []
        self.plan = []                  # faults for the coming requests, first come first served (None = none)
        self.default = None
        self.fired = {}
        self.simtime = 0.0
        self.interrupt = KeyboardInterrupt

    def count(self, kind):
        self.fired[kind] = self.fired.get(kind, 0) + 1

    def wait(self, t):
        s = kernel._in_sim()
        self.simtime += t
        if s is not None:
            s.sleep(t)

    def yield_(self):
        s = kernel._in_sim()
        if s is not None:
            s.point()

    def next_fault(self, path):
        for k, f in enumerate(self.plan):
            if f is None or f.get("path", "") in path:
                return self.plan.pop(k)
        return self.default


class SimRaw(io.RawIOBase):
    def __init__(self, net, data, end, piece, slow):
        self.net, self.data, self.end, self.piece, self.slow = net, data, end, piece, slow
        self.off = 0

    def readable(self):
        return True

    def readinto(self, b):
        self.net.yield_()
        if self.slow:
            self.net.wait(self.slow)
        if self.off >= len(self.data):
            if self.end is not None:
                e, self.end = self.end, None
                raise e
            return 0
        n = min(len(b), self.piece, len(self.data) - self.off)
        b[:n] = self.data[self.off:self.off + n]
        self.off += n
        return n


class SimSocket:
    def __init__(self, net, host, fault):
        self.net, self.host, self.fault = net, host, fault
        self.out = b""
        self.timeout = None

    def sendall(self, data, *a):
        self.net.yield_()
        if self.fault and self.fault["kind"] == "send-reset":
            self.net.count("send-reset")
            raise BrokenPipeError(errno.EPIPE, "Broken pipe")
        self.out += bytes(data)

    def send(self, data, *a):
        self.sendall(data)
        return len(data)

    def settimeout(self, t):
        self.timeout = t

    def setsockopt(self, *a):
        pass

    def shutdown(self, *a):
        pass

    def close(self):
        pass

    def fileno(self):
        return -1

    def makefile(self, mode="r", *a, **k):
        return io.BufferedReader(self.answer(), 8192)

    def answer(self):
        net, f = self.net, self.fault
        line = self.out.split(b"\r\n", 1)[0].decode("latin-1").split()
        path = line[1] if len(line) > 1 else "/"
        kind = f["kind"] if f else None
        body = net.routes(path)
        end, slow, piece = None, 0.0, 4096
        status, head, length, chunked = "200 OK", [], True, False
        at = f.get("at", 0.5) if f else 0.5
        if kind:
            net.count(kind)
        if kind == "drop-before":
            return SimRaw(net, b"", None, 1, 0)
        if kind == "bad-status":
            return SimRaw(net, b"garbage\r\n\r\n", None, 100, 0)
        if kind == "no-answer":
            net.wait(120.0)
            return SimRaw(net, b"", socket.timeout("timed out"), 1, 0)
        if kind and kind.startswith("http"):
            status, body = {"http404": "404 Not Found", "http500": "500 Internal Server Error",
                            "http503": "503 Service Unavailable", "http": "503 Service Unavailable"}[kind], b"<html>error</html>"
        elif kind == "html":
            body = b"<!DOCTYPE html><html><head><title>Site under maintenance</title></head><body>back soon</body></html>\n"
        elif kind == "empty":
            body = b""
        elif kind == "redirect-loop":
            status, head, body = "302 Found", ["Location: https://%s%s" % (HOST, path)], b""
            net.plan.insert(0, dict(f))
            if len(net.log) > 400:
                net.plan.pop(0)
        elif kind == "redirect" and self.host == HOST:
            status, head, body = "302 Found", ["Location: https://%s%s" % (OTHER, path)], b""
            net.plan.insert(0, None)
        elif kind == "other":
            body = net.routes(f["other"])
        if body is None:
            status, body = "404 Not Found", b"<html>not found</html>"
        elif kind == "corrupt" and body:
            n = body.find(b"PK\x01\x02")           # members only: nothing protects the directory of a ZIP file
            n = n if n > 0 else len(body)
            k = min(n - 1, int(at * n))
            new = body[k] ^ (1 << (f.get("bit", 0) % 8))
            if f.get("digit"):                      # another digit of a number: parses, with another value
                k = next((j for j in list(range(k, n)) + list(range(k, 0, -1)) if body[j:j + 1].isdigit() and body[j - 1:j] == b"."), k)
                new = 48 + (body[k] - 48 + 1 + f.get("bit", 0)) % 10
            body = body[:k] + bytes([new & 255]) + body[k + 1:]
        sent = body
        cut = min(max(0, len(body) - 1), int(at * len(body)))
        if kind == "slow":
            slow, piece = 5.0, max(1, len(body) // 7)
        elif kind in ("nolength", "truncate-nolength"):
            length = False
            if kind == "truncate-nolength":
                sent = body[:cut]
        elif kind == "truncate":
            sent = body[:cut]
        elif kind == "reset":
            sent, end = body[:cut], ConnectionResetError(errno.ECONNRESET, "Connection reset by peer")
        elif kind == "timeout":
            sent, end = body[:cut], socket.timeout("The read operation timed out")
            net.wait(60.0)
        elif kind == "interrupt":
            sent, end = body[:cut], net.interrupt()
        elif kind in ("chunked", "chunk-truncate"):
            chunked = True
        h = ["HTTP/1.1 " + status, "Server: sim", "Date: " + email.utils.formatdate(1.7e9), "Connection: close"] + head
        if chunked:
            n = max(1, len(body) // 3)
            sent = b"".join(b"%x\r\n%s\r\n" % (len(c), c) for c in [body[i:i + n] for i in range(0, len(body), n)]) + b"0\r\n\r\n"
            h.append("Transfer-Encoding: chunked")
            if kind == "chunk-truncate":
                sent = sent[:min(len(sent) - 6, int(at * len(sent)))]
        elif length:
            h.append("Content-Length: %d" % len(body))
        net.log.append((path, kind, status[:3]))
        return SimRaw(net, ("\r\n".join(h) + "\r\n\r\n").encode("latin-1") + sent, end, piece, slow)


def _connect(self):
    net = NET
    if net is None:
        raise OSError(errno.ENETUNREACH, "no simulated network")
    net.yield_()
    f = net.next_fault(getattr(self, "_sim_path", ""))
    k = f["kind"] if f else None
    bad = {"dns": lambda: socket.gaierror(-2, "Name or service not known"),
           "unreachable": lambda: OSError(errno.ENETUNREACH, "Network is unreachable"),
           "refused": lambda: ConnectionRefusedError(errno.ECONNREFUSED, "Connection refused"),
           "connect-timeout": lambda: socket.timeout("timed out"),
           "tls": lambda: ssl.SSLCertVerificationError(1, "certificate verify failed: certificate has expired")}
    if k in bad:
        net.count(k)
        net.log.append((getattr(self, "_sim_path", ""), k, "---"))
        if k == "connect-timeout":
            net.wait(130.0)
        raise bad[k]()
    if k in ("drop-before", "bad-status", "send-reset", "no-answer"):      # never answered: logged here
        net.log.append((getattr(self, "_sim_path", ""), k, "---"))
    net.wait(0.05)
    self.sock = SimSocket(net, self.host, f)


_putrequest = http.client.HTTPConnection.putrequest
_request = http.client.HTTPConnection.request


def _sim_request(self, method, url, *a, **k):
    self._sim_path = url
    return _request(self, method, url, *a, **k)


def install(net):
    """All HTTP(S) connections of this process now reach net."""
    global NET
    NET = net
    http.client.HTTPConnection.connect = _connect
    http.client.HTTPSConnection.connect = _connect
    http.client.HTTPConnection.request = _sim_request
    ctx = ssl.SSLContext(ssl.PROTOCOL_TLS_CLIENT)
    ssl._create_default_https_context = lambda *a, **k: ctx
    http.client._create_https_context = lambda *a, **k: ctx
    urllib.request.getproxies = lambda: {}
    urllib.request._opener = None
