"""A relay between one client and the tag server that holds single messages back for a scripted time."""
import os, queue, select, socket, struct, threading, time


class Gate:
    """request and response frames pass in order; `hold` tells for the next request how long it and its answer are kept"""
    def __init__(self, srv, cwd):
        self.srv = srv
        self.sock = os.path.join(cwd, "gate")
        self.l = socket.socket(socket.AF_UNIX)
        self.l.bind(self.sock)
        self.l.listen(4)
        self.port = 0
        self.lock = threading.Lock()
        self.plan = []            # (hold request, hold response, split, gap) for the requests to come
        self.answers = []         # the same, of the answers to come
        self.up = self.down = None
        self.stop = False
        self.frames = 0
        self.ths = []
        self._go(self.accept)

    def _go(self, f, *a):
        t = threading.Thread(target=f, args=a, daemon=True)
        t.start()
        self.ths.append(t)

    def hold(self, req=0, resp=0, split=0, gap=0):
        with self.lock:
            self.plan.append((req, resp, split, gap))

    def accept(self):
        try:
            self.down, _ = self.l.accept()
        except OSError:
            return
        self.up = socket.socket(socket.AF_UNIX)
        self.up.connect(self.srv.sock)
        q, p = queue.Queue(), queue.Queue()
        self._go(self.reader, self.down, q, True)
        self._go(self.reader, self.up, p, False)
        self._go(self.writer, self.up, q)
        self._go(self.writer, self.down, p)

    def need(self, s, n):
        b = b""
        while len(b) < n:
            d = s.recv(n - len(b))
            if not d:
                raise OSError("end")
            b += d
        return b

    def reader(self, s, q, up):
        try:
            while True:
                h = self.need(s, 8)
                size, cmd = struct.unpack(">II", h)
                d = h + self.need(s, size - 8 if up else size)
                now = time.monotonic()
                wait, split, gap = 0, 0, 0
                if up:
                    with self.lock:
                        x = self.plan.pop(0) if self.plan else (0, 0, 0, 0)
                        self.answers.append(x)
                    wait = x[0]
                elif cmd < 0x80000000:
                    with self.lock:
                        x = self.answers.pop(0) if self.answers else (0, 0, 0, 0)
                    wait, split, gap = x[1:]
                q.put((now + wait, d, split, gap))
                self.frames += 1
        except OSError:
            q.put(None)

    def writer(self, s, q):
        try:
            while True:
                x = q.get()
                if x is None:
                    break
                at, d, split, gap = x
                t = at - time.monotonic()
                if t > 0:
                    time.sleep(t)
                if split and split < len(d):
                    s.sendall(d[:split])
                    time.sleep(gap)
                    d = d[split:]
                s.sendall(d)
        except OSError:
            pass
        try:
            s.shutdown(socket.SHUT_RDWR)
        except OSError:
            pass

    def cut(self):
        for s in (self.up, self.down):
            if s is not None:
                try:
                    s.shutdown(socket.SHUT_RDWR)
                except OSError:
                    pass

    def close(self):
        self.cut()
        self.l.close()
        for t in self.ths:
            t.join(5)
        for s in (self.up, self.down):
            if s is not None:
                s.close()
