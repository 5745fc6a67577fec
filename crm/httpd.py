"""
A loopback web server that answers as scheduled, for exploring the fetchers with real connections.

Each path has a list of answers, one per request; the last one repeats. An answer is one of
    ("ok", body)             200 with the body
    ("status", code, body)   another status
    ("short", body, n)       promises the whole body, sends n bytes of it, and hangs up
    ("hangup",)              hangs up without an answer
    ("redirect", path)       sends the client elsewhere
"""

from __future__ import annotations

import os
import socketserver
import threading
from http.server import BaseHTTPRequestHandler
from typing import Any, Callable, Optional

# The loopback server is reached directly, whatever the environment says.
os.environ["NO_PROXY"] = os.environ["no_proxy"] = "*"


# How long a server that stops answering stays silent.
STALL_S = 1.5


def _fall_silent() -> None:
    """Not `time.sleep`, which checks replace."""
    threading.Event().wait(STALL_S)


class _Handler(BaseHTTPRequestHandler):
    server: "Server"

    def log_message(self, *_: Any) -> None:
        pass

    def do_GET(self) -> None:  # pylint: disable=invalid-name
        path = self.path
        srv = self.server
        with srv.lock:
            n = srv.hits.get(path, 0)
            srv.hits[path] = n + 1
            srv.log.append(path)
        if srv.gate is not None:
            srv.gate(path, n)
        answers = srv.script.get(path) or [("status", 404, b"no such thing")]
        answer = answers[min(n, len(answers) - 1)]
        self.close_connection = True
        kind = answer[0]
        if kind == "hangup" or (kind == "stall" and answer[2] is None):
            if kind == "stall":
                _fall_silent()
            return
        if kind == "redirect":
            self.send_response(302)
            self.send_header("Location", answer[1])
            self.send_header("Content-Length", "0")
            self.end_headers()
            return
        code = answer[1] if kind == "status" else 200
        body = answer[2] if kind == "status" else answer[1]
        self.send_response(code)
        self.send_header("Content-Length", str(len(body)))
        self.end_headers()
        try:
            self.wfile.write(body[: answer[2]] if kind in ("short", "stall") else body)
            if kind == "stall":
                self.wfile.flush()
                _fall_silent()
        except OSError:
            pass


class Server(socketserver.ThreadingMixIn, socketserver.TCPServer):
    allow_reuse_address = True
    daemon_threads = True
    request_queue_size = 128

    def __init__(self) -> None:
        super().__init__(("127.0.0.1", 0), _Handler)
        self.lock = threading.Lock()
        self.script: dict[str, list[tuple]] = {}
        self.hits: dict[str, int] = {}
        self.log: list[str] = []
        self.gate: Optional[Callable[[str, int], None]] = None
        threading.Thread(target=self.serve_forever, kwargs={"poll_interval": 0.05}, daemon=True).start()

    @property
    def base(self) -> str:
        return f"http://127.0.0.1:{self.server_address[1]}"

    def reset(self, script: dict[str, list[tuple]]) -> None:
        with self.lock:
            self.script = dict(script)
            self.hits = {}
            self.log = []
            self.gate = None

    def handle_error(self, *_: Any) -> None:
        pass


_SERVER: dict[int, Server] = {}


def server() -> Server:
    """The server of this process (workers are forked, and threads do not survive that)."""
    pid = os.getpid()
    if pid not in _SERVER:
        _SERVER[pid] = Server()
    return _SERVER[pid]


def refused_url() -> str:
    """A URL on a loopback port that nobody listens on."""
    return "http://127.0.0.1:1/x.tar.gz"
