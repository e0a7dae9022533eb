"""A loopback HTTP server with published files, a request log and injected faults."""
import http.server
import socketserver
import threading


class _Handler(http.server.BaseHTTPRequestHandler):
    protocol_version = "HTTP/1.0"

    def log_message(self, *a):
        pass

    def _serve(self, body):
        srv = self.server.owner
        path = self.path
        with srv.lock:
            srv.log.append((self.command, path, self.headers.get("Range")))
            fault = None
            for i, (p, cmd, f) in enumerate(srv.faults):
                if (p is None or p == path) and cmd == self.command:
                    fault = f
                    if f[-1] != "sticky":
                        del srv.faults[i]
                    break
            item = srv.files.get(path)
            hook = srv.hook
        if hook is not None:
            hook(self.command, path)
        if fault is not None:
            if fault[0] == "status":
                self.send_response(fault[1])
                self.send_header("Content-Length", "5")
                self.end_headers()
                if body:
                    self.wfile.write(b"oops\n")
                return
            if fault[0] == "stall" and fault[2] == "start":
                threading.Event().wait(fault[1])
            if fault[0] == "reset":
                self.close_connection = True
                self.connection.close()
                return
        if item is None:
            self.send_response(404)
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        data, headers = item
        rng = self.headers.get("Range")
        status = 200
        if rng and headers.get("Accept-Ranges") == "bytes" and rng.startswith("bytes=") and "," in rng:
            out = b""
            for r in rng[6:].split(","):
                a, b = (int(x) for x in r.split("-"))
                out += b"\r\n--vpvpvp\r\nContent-Type: application/octet-stream\r\nContent-Range: bytes %d-%d/%d\r\n\r\n" % (a, b, len(data))
                out += data[a : b + 1]
            out += b"\r\n--vpvpvp--\r\n"
            self.send_response(206)
            self.send_header("Content-Type", "multipart/byteranges; boundary=vpvpvp")
            self.send_header("Content-Length", str(len(out)))
            self.end_headers()
            if body:
                self.wfile.write(out)
            return
        if rng and headers.get("Accept-Ranges") == "bytes" and rng.startswith("bytes="):
            a, b = rng[6:].split("-")
            a = int(a)
            b = int(b) if b else len(data) - 1
            total = len(data)
            data = data[a : b + 1]
            status = 206
        self.send_response(status)
        for k, v in headers.items():
            if k != "No-Length":
                self.send_header(k, v)
        if status == 206:
            self.send_header("Content-Type", "application/octet-stream")
            self.send_header("Content-Range", f"bytes {a}-{b}/{total}")
        if "No-Length" not in headers:
            self.send_header("Content-Length", str(len(data)))
        self.end_headers()
        if body:
            if fault is not None and fault[0] == "truncate":
                n = min(len(data) - 1, fault[1] * len(data) // 10)
                self.wfile.write(data[: max(0, n)])
                self.wfile.flush()
                self.close_connection = True
                return
            if fault is not None and fault[0] == "stall" and fault[2] == "body":
                n = len(data) // 2
                self.wfile.write(data[:n])
                self.wfile.flush()
                threading.Event().wait(fault[1])
                data = data[n:]
            self.wfile.write(data)

    def do_GET(self):
        self._serve(True)

    def do_HEAD(self):
        self._serve(False)

    def handle(self):
        try:
            super().handle()
        except Exception:
            pass


class _Server(socketserver.ThreadingMixIn, http.server.HTTPServer):
    daemon_threads = True
    request_queue_size = 128

    def handle_error(self, *a):
        pass


class Server:
    def __init__(self):
        self.lock = threading.Lock()
        self.files, self.log, self.faults = {}, [], []
        self.hook = None
        self.httpd = _Server(("127.0.0.1", 0), _Handler)
        self.httpd.owner = self
        self.port = self.httpd.server_address[1]
        threading.Thread(target=self.httpd.serve_forever, kwargs=dict(poll_interval=0.05), daemon=True).start()

    @property
    def url(self):
        return f"http://127.0.0.1:{self.port}"

    def put(self, path, data, **headers):
        with self.lock:
            self.files[path] = (bytes(data), {k.replace("_", "-"): v for k, v in headers.items()})

    def remove(self, path):
        with self.lock:
            self.files.pop(path, None)

    def fault(self, path, command, *what):
        with self.lock:
            self.faults.append((path, command, what))

    def clear_faults(self):
        with self.lock:
            self.faults.clear()

    def reset(self):
        with self.lock:
            self.files.clear()
            self.log.clear()
            self.faults.clear()
            self.hook = None

    def take_log(self):
        with self.lock:
            r = list(self.log)
            self.log.clear()
        return r


_server = None


def server():
    """One server per process; `reset` between cases. Case paths should be unique."""
    global _server
    if _server is None:
        _server = Server()
    return _server


def fast_sleep():
    """Retries of failed downloads wait for many seconds: do not."""
    import time

    if not hasattr(time, "_real_sleep"):
        time._real_sleep = time.sleep
        time.sleep = lambda s: time._real_sleep(min(s, 0.002))
