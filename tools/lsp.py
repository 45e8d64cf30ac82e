"""A small blocking LSP client for demonstrations: drives target/debug/ink-lsp-server over stdio."""
import json, os, select, subprocess, sys, time

class Server:
    def __init__(self, caps=None, binary="target/debug/ink-lsp-server", init=True, env=None):
        self.p = subprocess.Popen([binary], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL,
                                  env=dict(os.environ, **(env or {})))
        self.buf = b""
        self.n = 0
        self.log = []          # every message received
        if init:
            self.init = self.request("initialize", {"processId": None, "rootUri": None, "capabilities": caps or {}})
            self.notify("initialized", {})

    def send(self, msg):
        b = json.dumps(dict(msg, jsonrpc="2.0")).encode()
        self.p.stdin.write(b"Content-Length: %d\r\n\r\n" % len(b) + b)
        self.p.stdin.flush()

    def recv(self, timeout=20):
        """Next message, or None at end of stream / after the timeout."""
        end = time.time() + timeout
        while True:
            head, sep, rest = self.buf.partition(b"\r\n\r\n")
            if sep:
                n = int(dict(l.split(b": ") for l in head.split(b"\r\n"))[b"Content-Length"])
                if len(rest) >= n:
                    self.buf = rest[n:]
                    m = json.loads(rest[:n])
                    self.log.append(m)
                    return m
            left = end - time.time()
            if left <= 0 or not select.select([self.p.stdout], [], [], left)[0]:
                return None
            d = os.read(self.p.stdout.fileno(), 65536)
            if not d:
                return None
            self.buf += d

    def request(self, method, params, id=None):
        """The response message (None if the server ended); other messages go to self.log."""
        if id is None:
            self.n += 1
            id = self.n
        self.send({"id": id, "method": method, "params": params})
        while True:
            m = self.recv()
            if m is None or (m.get("id") == id and "method" not in m):
                return m

    def notify(self, method, params):
        self.send({"method": method, "params": params})

    def sync(self):
        """Everything received until the server has handled what was sent so far."""
        k = len(self.log)
        self.request("$demo/nothing", {}, id="sync%d" % k)
        return [m for m in self.log[k:] if m.get("id") != "sync%d" % k]

    def open(self, uri, text, version=1, lang="rust"):
        self.notify("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": lang, "version": version, "text": text}})
        return self.pubs()

    def change(self, uri, text, version=2):
        self.notify("textDocument/didChange", {"textDocument": {"uri": uri, "version": version}, "contentChanges": [{"text": text}]})
        return self.pubs()

    def close(self, uri):
        self.notify("textDocument/didClose", {"textDocument": {"uri": uri}})
        return self.pubs()

    def pubs(self):
        return [m["params"] for m in self.sync() if m.get("method") == "textDocument/publishDiagnostics"]

    def at(self, method, uri, line, col, **kw):
        r = self.request("textDocument/" + method, dict({"textDocument": {"uri": uri}, "position": {"line": line, "character": col}}, **kw))
        return r and r.get("result")

    def actions(self, uri, l0, c0, l1, c1):
        r = self.request("textDocument/codeAction", {"textDocument": {"uri": uri}, "context": {"diagnostics": []},
                         "range": {"start": {"line": l0, "character": c0}, "end": {"line": l1, "character": c1}}})
        return r and r.get("result")

    def cmd(self, name, **arg):
        return self.request("workspace/executeCommand", {"command": name, "arguments": [arg]})

    def kill(self):
        self.p.kill()
        self.p.wait()

def check(cond, what):
    if not cond:
        print("BROKEN:", what)
        sys.exit(1)
