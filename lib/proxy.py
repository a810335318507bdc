"""A relay between clients and the tag server that cuts the byte streams into random pieces."""
import os, random, select, socket, threading, time


class Proxy:
    def __init__(self, srv, cwd, seed, pieces, delay):
        """pieces: largest piece; delay: seconds, drawn up to it between some pieces"""
        self.srv, self.seed, self.pieces, self.delay = srv, seed, pieces, delay
        self.sock = os.path.join(cwd, "px")
        self.u = socket.socket(socket.AF_UNIX)
        self.u.bind(self.sock)
        self.u.listen(32)
        self.t = socket.socket()
        self.t.bind(("127.0.0.1", 0))
        self.t.listen(32)
        self.port = self.t.getsockname()[1]
        self.stop = False
        self.n = 0
        self.open = []
        self.moved = 0
        self.ths = [threading.Thread(target=self.accept, daemon=True)]
        self.ths[0].start()

    def accept(self):
        while not self.stop:
            r, _, _ = select.select([self.u, self.t], [], [], 0.05)
            for l in r:
                try:
                    a, _ = l.accept()
                except OSError:
                    return
                try:
                    if l is self.u:
                        b = socket.socket(socket.AF_UNIX)
                        b.connect(self.srv.sock)
                    else:
                        b = socket.create_connection(("127.0.0.1", self.srv.port))
                        for s in (a, b):
                            s.setsockopt(socket.IPPROTO_TCP, socket.TCP_NODELAY, 1)
                except OSError:
                    a.close()
                    continue
                self.open += [a, b]
                self.n += 1
                for x, y, d in ((a, b, 0), (b, a, 1)):
                    t = threading.Thread(target=self.pump, args=(x, y, random.Random("%s/%d/%d" % (self.seed, self.n, d))), daemon=True)
                    t.start()
                    self.ths.append(t)

    def pump(self, src, dst, rng):
        try:
            while True:
                d = src.recv(rng.choice([1, 3, 9, 100, 5000]) if self.pieces < 2000 else 65536)
                if not d:
                    break
                i = 0
                while i < len(d):
                    n = rng.randrange(1, self.pieces + 1)
                    dst.sendall(d[i:i + n])
                    i += n
                    self.moved += 1
                    if self.delay and rng.random() < 0.2:
                        time.sleep(rng.random() * self.delay)
        except OSError:
            pass
        for s in (src, dst):
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass

    def close(self):
        self.stop = True
        for s in [self.u, self.t] + self.open:
            try:
                s.shutdown(socket.SHUT_RDWR)
            except OSError:
                pass
        for t in self.ths:
            t.join(2)
        for s in [self.u, self.t] + self.open:
            s.close()
