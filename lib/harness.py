"""Process level harness: scratch directories, tag server, API driver, raw sockets."""
import errno, os, select, shutil, signal, socket, struct, subprocess, tempfile, time

ASAN = ("detect_leaks=0:abort_on_error=0:exitcode=99:max_malloc_fill_size=1048576:malloc_fill_byte=190:"
        "free_fill_byte=221:max_free_fill_size=65536:handle_abort=1:print_stacktrace=1:allocator_may_return_null=1"
        ":detect_stack_use_after_return=0:fast_unwind_on_malloc=1:malloc_context_size=8:quarantine_size_mb=8:detect_odr_violation=0")


def env():
    e = {"PATH": "/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin", "HOME": "/nonexistent",
         "LANG": "C.UTF-8", "TERM": "dumb", "TZ": "UTC"}
    e["ASAN_OPTIONS"] = ASAN
    return e


class Died(Exception):
    """A process of the system under test ended or stopped answering."""
    def __init__(self, what, detail=""):
        Exception.__init__(self, what)
        self.what, self.detail = what, detail


def free_port():
    s = socket.socket()
    s.bind(("127.0.0.1", 0))
    p = s.getsockname()[1]
    s.close()
    return p


def tail(path, n=3000):
    try:
        with open(path, "rb") as f:
            data = f.read()
        i = data.find(b"ERROR: AddressSanitizer")
        if i >= 0:
            return data[i:i + n].decode("latin1")
        return data[-n:].decode("latin1")
    except OSError:
        return ""


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix="daxv.")
        self.n = 0

    def sub(self):
        self.n += 1
        d = os.path.join(self.dir, "c%d" % self.n)
        os.mkdir(d)
        return d

    def drop(self, d):
        shutil.rmtree(d, ignore_errors=True)

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)


class Proc:
    """A child process with its output in a file; killed at the end."""
    def __init__(self, argv, cwd, name, extra_env=None, stdin=None, pass_fds=(), preexec=None):
        self.name = name
        self.log = os.path.join(cwd, name + ".log")
        e = env()
        if extra_env:
            e.update(extra_env)
        with open(self.log, "ab") as lf:
            self.p = subprocess.Popen(argv, cwd=cwd, stdin=stdin if stdin is not None else subprocess.DEVNULL,
                                      stdout=lf, stderr=lf, env=e, pass_fds=pass_fds, preexec_fn=preexec,
                                      start_new_session=True)

    def alive(self):
        return self.p.poll() is None

    def out(self):
        with open(self.log, "rb") as f:
            return f.read()

    def check(self):
        if not self.alive():
            raise Died("%s died (status %s)" % (self.name, self.p.returncode), tail(self.log))

    def stop(self, sig=signal.SIGKILL, timeout=20):
        if self.p.poll() is None:
            try:
                os.kill(self.p.pid, sig)
            except ProcessLookupError:
                pass
            try:
                self.p.wait(timeout)
            except subprocess.TimeoutExpired:
                self.p.kill()
                self.p.wait()
                return None
        # whatever the process left behind in its session
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except (ProcessLookupError, PermissionError):
            pass
        return self.p.returncode


class Server(Proc):
    def __init__(self, b, cwd, args=(), sock=None, port=None, wait=True, extra_env=None):
        self.sock = sock or os.path.join(cwd, "s")
        self.port = port or free_port()
        conf = os.path.join(cwd, "tagserver.conf")
        if not os.path.exists(conf):
            open(conf, "w").close()
        try:
            os.unlink(self.sock)
        except OSError:
            pass
        Proc.__init__(self, [b.tagserver, "-C", conf, "-S", self.sock, "-I", "127.0.0.1", "-P", str(self.port)]
                      + list(args), cwd, "tagserver", extra_env=extra_env)
        if wait:
            self.ready()

    def ready(self, timeout=60):
        end = time.time() + timeout
        while time.time() < end:
            self.check()
            s = socket.socket(socket.AF_UNIX)
            try:
                s.connect(self.sock)
                s.close()
                return
            except OSError:
                s.close()
                time.sleep(0.003)
        raise Died("tagserver did not start listening", tail(self.log))


class Driver(Proc):
    """Speaks the daxdrv line protocol."""
    def __init__(self, b, cwd, name="driver", exe=None):
        r0, w0 = os.pipe()
        r1, w1 = os.pipe()

        def pre():
            # fds 3 and 4 in the child
            a, c = os.dup(r0), os.dup(w1)
            os.dup2(a, 3)
            os.dup2(c, 4)
            for fd in range(5, 64):
                try:
                    os.close(fd)
                except OSError:
                    pass
        e = env()
        self.name = name
        self.log = os.path.join(cwd, name + ".log")
        with open(self.log, "ab") as lf:
            self.p = subprocess.Popen([exe or b.driver], cwd=cwd, stdin=subprocess.DEVNULL, stdout=lf, stderr=lf, env=e,
                                      close_fds=False, preexec_fn=pre, start_new_session=True)
        os.close(r0)
        os.close(w1)
        self.w, self.r = w0, r1
        os.set_blocking(self.w, False)
        os.set_blocking(self.r, False)
        self.buf = b""

    def close(self):
        for fd in (self.w, self.r):
            try:
                os.close(fd)
            except OSError:
                pass
        self.stop()

    def ask(self, lines, timeout=90, watch=(), gone=None):
        """Send all lines, return as many answers (strings). Raises Died on crash or silence.
        gone: function telling that the server has ended; then a short silence is enough to give up"""
        data = ("\n".join(lines) + "\nflush\n").encode()
        pos, got = 0, []
        last = time.time()
        while len(got) < len(lines):
            wl = [self.w] if pos < len(data) else []
            rd, wr, _ = select.select([self.r], wl, [], 1.0 if gone is None else 0.1)
            if wr:
                try:
                    pos += os.write(self.w, data[pos:pos + 65536])
                    last = time.time()
                except BlockingIOError:
                    pass
                except BrokenPipeError:
                    self._dead(got, lines)
            if rd:
                try:
                    d = os.read(self.r, 1 << 16)
                except BlockingIOError:
                    d = None
                if d == b"":
                    self._dead(got, lines)
                if d:
                    last = time.time()
                    self.buf += d
                    parts = self.buf.split(b"\n")
                    self.buf = parts.pop()
                    got += [x.decode("latin1") for x in parts]
            if gone is not None and time.time() - last > 0.4 and gone():
                e = Died("the server is gone", "")
                e.got = got
                raise e
            if time.time() - last > timeout:
                for w in watch:
                    w.check()
                e = Died("no answer from the client library for %d s, at: %s" % (timeout, lines[len(got)][:200]), tail(self.log))
                e.got = got
                raise e
        return got

    def _dead(self, got, lines):
        try:
            self.p.wait(10)
        except subprocess.TimeoutExpired:
            pass
        e = Died("client process died (status %s) at: %s" % (self.p.returncode, lines[len(got)][:200] if len(got) < len(lines) else "end"), tail(self.log))
        e.got = got
        raise e


def hx(b):
    if isinstance(b, str):
        b = b.encode("latin1")
    return b.hex() if b else "-"


# ---------------------------------------------------------------- raw wire client
MSG = dict(MOD_REG=1, TAG_ADD=2, TAG_DEL=3, TAG_GET=4, TAG_LIST=5, TAG_READ=6, TAG_WRITE=7, TAG_MWRITE=8,
           EVNT_ADD=9, EVNT_DEL=10, EVNT_GET=11, EVNT_OPT=12)


class Wire:
    """Raw socket speaking the message protocol."""
    def __init__(self, server, tcp=False, timeout=30):
        if tcp:
            self.s = socket.socket()
            self.s.settimeout(timeout)
            self.s.connect(("127.0.0.1", server.port))
            self.s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
        else:
            self.s = socket.socket(socket.AF_UNIX)
            self.s.settimeout(timeout)
            self.s.connect(server.sock)
        self.buf = b""

    def send(self, cmd, payload=b""):
        self.s.sendall(frame(cmd, payload))

    def recv(self):
        """(type word, payload); raises socket.timeout / ConnectionError"""
        while True:
            if len(self.buf) >= 8:
                size, typ = struct.unpack(">II", self.buf[:8])
                if size > 1 << 20:
                    raise ConnectionError("absurd response size %d" % size)
                if len(self.buf) >= 8 + size:
                    p = self.buf[8:8 + size]
                    self.buf = self.buf[8 + size:]
                    return typ, p
            d = self.s.recv(65536)
            if not d:
                raise ConnectionError("closed")
            self.buf += d

    def req(self, cmd, payload=b""):
        """Send and return the response (events are collected in self.events)."""
        self.send(cmd, payload)
        while True:
            t, p = self.recv()
            if t & EVENT:
                self.events.append((t, p))
                continue
            return t, p

    events = None

    def register(self, name="wire"):
        self.events = []
        return self.req(1, struct.pack(">II", 1000, 1) + name.encode() + b"\0")

    def close(self):
        self.s.close()


def frame(cmd, payload=b""):
    return struct.pack(">II", len(payload) + 8, cmd) + payload


EVENT = 0x80000000
