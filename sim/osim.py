"""Simulated operating system boundary: runs the real tool with every file operation under the simulator's control."""
import errno, os, select, signal, socket, struct, subprocess

KINDS = [None, "OPEN", "READ", "WRITE", "CLOSE", "STAT", "MKDIR", "REALPATH", "READLINK", "RENAME", "UNLINK", "RMDIR", "LINK", "SYMLINK",
         "CHMOD", "TRUNC", "SYNC", "COPY", "UTIME", "OPENDIR", "SEEK"]
GO, FAIL, SHORT, KILL_BEFORE, KILL_AFTER, SHORT_KILL = range(6)
ACTS = {"go": GO, "fail": FAIL, "short": SHORT, "kill": KILL_BEFORE, "kill_after": KILL_AFTER, "short_kill": SHORT_KILL}
REQ = struct.Struct("<IIqqqq")
REP = struct.Struct("<IIq")
O_CREAT, O_TRUNC, O_ACCMODE = 0o100, 0o1000, 3


class Op:
    __slots__ = ("kind", "path", "path2", "a", "b", "outside", "ret", "err", "act", "arg", "prev", "t")

    def __init__(self, data, root):
        op, outside, self.a, self.b, lr, le = REQ.unpack_from(data)
        p, q = data[REQ.size:].split(b"\n", 1)
        self.kind, self.outside = KINDS[op], bool(outside)
        self.path, self.path2 = rel(p.decode("utf8", "surrogateescape"), root), rel(q.decode("utf8", "surrogateescape"), root)
        self.ret, self.err, self.act, self.arg = None, None, GO, 0
        self.prev = (lr, le)
        self.t = None

    def writes(self):
        return self.kind == "OPEN" and (self.a & (O_CREAT | O_TRUNC) or self.a & O_ACCMODE)

    def __repr__(self):
        s = "%s %s" % (self.kind, self.path)
        if self.path2:
            s += " -> " + self.path2
        if self.kind in ("READ", "WRITE"):
            s += " %d@%d" % (self.a, self.b)
        if self.kind == "OPEN":
            s += " %o" % self.a
        if self.act != GO:
            s += "  <%s %s>" % ([k for k, v in ACTS.items() if v == self.act][0], errno.errorcode.get(self.arg, self.arg) if self.act == FAIL else self.arg)
        return s


def rel(p, root):
    """Paths in operations are written relative to the root of the simulated machine."""
    if p == root:
        return "/"
    return p[len(root):] if p.startswith(root + "/") else p


class Proc:
    """One simulated process. next() gives its next operation, reply() decides it."""

    def __init__(self, launch, shim, binary, args, root, cwd, env=None, rand=1, now=1700000000, io=None, cpu=20):
        a, b = socket.socketpair(socket.AF_UNIX, socket.SOCK_SEQPACKET)
        self.sock, self.root, self.ops, self.code, self.hung = a, root, [], None, False
        e = {"HOME": root + "/home", "TMPDIR": root + "/tmp", "PATH": "/usr/bin:/bin", "LC_ALL": "C.UTF-8"}
        e.update(env or {})
        e.update(SIM_ROOT=root, SIM_FD=str(b.fileno()), SIM_RAND=str(rand), SIM_TIME=str(now))
        self.io = io
        with open(io + ".out", "wb") as so, open(io + ".err", "wb") as se:
            self.p = subprocess.Popen([launch, shim, str(cpu), binary] + args, cwd=cwd, env=e, stdin=subprocess.DEVNULL, stdout=so, stderr=se,
                                      pass_fds=[b.fileno()])
        b.close()
        self.pending = None

    def next(self, timeout=25):
        """The next operation, or None when the process is gone."""
        if self.code is not None:
            return None
        r, _, _ = select.select([self.sock], [], [], timeout)
        if not r:
            self.hung = True
            self.p.kill()
            self._end()
            return None
        try:
            d = self.sock.recv(1 << 15)
        except ConnectionResetError:
            d = b""
        if not d:
            self._end()
            return None
        o = Op(d, self.root)
        if self.ops:
            self.ops[-1].ret, self.ops[-1].err = o.prev
        self.ops.append(o)
        self.pending = o
        return o

    def reply(self, act=GO, arg=0):
        o = self.pending
        o.act, o.arg = act, arg
        self.pending = None
        try:
            self.sock.send(REP.pack(act, 0, arg))
        except OSError:
            pass

    def _end(self):
        try:
            self.code = self.p.wait(25)
        except subprocess.TimeoutExpired:
            self.hung = True
            self.p.kill()
            self.code = self.p.wait()
        self.sock.close()

    def kill(self):
        if self.code is None:
            self.p.kill()
            self._end()

    def out(self):
        return open(self.io + ".out", "rb").read()

    def err(self):
        return open(self.io + ".err", "rb").read()


class Faults:
    """A list of scheduled faults. Each: {"at": index of the operation, ...} or {"op": kind or null, "path": substring or null, "nth": n, "act": ..., "arg": ..., "more": k}.
    `nth` counts the matching operations (standard error is not counted unless named); `more` repeats the fault on that many further
    matches (-1: for ever)."""

    def __init__(self, plan):
        self.plan = [dict(f) for f in plan]
        self.count = [0] * len(plan)
        self.fired = []
        self.k = -1

    def decide(self, o):
        if o.path != "<stderr>":
            self.k += 1
        for i, f in enumerate(self.plan):
            if "at" in f:
                if o.path == "<stderr>" or self.k < f["at"] or (self.k > f["at"] + f.get("more", 0) and f.get("more", 0) >= 0):
                    continue
                if f.get("op") and f["op"] != o.kind:
                    continue
                x = self.fire(i, f, o)
                if x:
                    return x
                continue
            if f.get("op") and f["op"] != o.kind:
                continue
            if f.get("path"):
                if f["path"] not in o.path and f["path"] not in o.path2:
                    continue
            elif o.path == "<stderr>":
                continue
            if f.get("writes") and not (o.writes() or o.kind == "WRITE"):
                continue
            n = self.count[i]
            self.count[i] += 1
            more = f.get("more", 0)
            if n < f["nth"] or (more >= 0 and n > f["nth"] + more):
                continue
            x = self.fire(i, f, o)
            if x:
                return x
        return GO, 0

    def fire(self, i, f, o):
        act, arg = ACTS[f["act"]], f.get("arg", 0)
        if act in (SHORT, SHORT_KILL) and o.kind not in ("READ", "WRITE"):
            if act == SHORT:
                return None
            act = KILL_BEFORE
        if act == SHORT:
            arg = max(1, arg)
            if o.a <= arg:
                return None
        if act == FAIL:
            arg = getattr(errno, arg) if isinstance(arg, str) else arg
            if o.kind == "CLOSE":
                return None
            # Only calls that really can be interrupted are interrupted.
            if arg == errno.EINTR and o.kind not in ("READ", "WRITE", "OPEN"):
                return None
        self.fired.append((i, f["act"], arg, o))
        return act, arg


def run(proc, faults):
    while True:
        o = proc.next()
        if o is None:
            return
        act, arg = faults.decide(o)
        proc.reply(act, arg)
