"""Raw wire client used by checks that need control over the bytes on the socket."""
import socket, struct

BOOL, BYTE, SINT, CHAR, WORD, INT, UINT, DWORD, DINT, UDINT, REAL = 0x10, 3, 0x13, 0x23, 4, 0x14, 0x24, 5, 0x15, 0x25, 0x35
LWORD, LINT, ULINT, TIME, LREAL, QUEUE = 6, 0x16, 0x26, 0x36, 0x46, 0x40000000


class Closed(Exception):
    pass


class Silent(Exception):
    pass


class Refused(Exception):
    pass


class Client:
    def __init__(self, srv, name="demo", register=True, tcp=False, timeout=30):
        self.tmo = timeout
        if tcp:
            self.s = socket.create_connection(("127.0.0.1", srv.port))
        else:
            self.s = socket.socket(socket.AF_UNIX)
            self.s.connect(srv.sock)
        self.s.settimeout(self.tmo)
        self.buf, self.events = b"", []
        if register:
            self.req(1, struct.pack(">II", 1000, 1) + name.encode() + b"\0")

    def send(self, cmd, payload=b""):
        self.s.sendall(struct.pack(">II", len(payload) + 8, cmd) + payload)

    def recv(self):
        while True:
            if len(self.buf) >= 8:
                n, t = struct.unpack(">II", self.buf[:8])
                if len(self.buf) >= 8 + n:
                    p, self.buf = self.buf[8:8 + n], self.buf[8 + n:]
                    return t, p
            d = self.s.recv(65536)
            if not d:
                raise Closed("the server closed the connection")
            self.buf += d

    def resp(self):
        while True:
            t, p = self.recv()
            if t & 0x80000000:
                self.events.append((t, p))
                continue
            if t & 0x02000000:
                raise Refused(struct.unpack("i", p[:4])[0])
            return p

    def req(self, cmd, payload=b""):
        self.send(cmd, payload)
        try:
            return self.resp()
        except socket.timeout:
            raise Silent("no answer to request %d" % cmd)

    def add(self, name, typ, count=1, attr=0):
        return struct.unpack("i", self.req(2, struct.pack("III", typ, count, attr) + name.encode() + b"\0"))[0]

    def delete(self, idx):
        self.req(3, struct.pack("i", idx))

    def get(self, name):
        p = self.req(4, b"\x01" + name.encode() + b"\0")
        i, t, c, a = struct.unpack("iIIH", p[:14])
        return i, t, c, a, p[14:].rstrip(b"\0").decode()

    def byindex(self, idx):
        p = self.req(4, b"\x02" + struct.pack("i", idx))
        i, t, c, a = struct.unpack("iIIH", p[:14])
        return i, t, c, a, p[14:].rstrip(b"\0").decode()

    def read(self, idx, off, size):
        return self.req(6, struct.pack("iII", idx, off, size))

    def write(self, idx, off, data):
        self.req(7, struct.pack("iI", idx, off) + data)

    def mwrite(self, idx, off, data, mask):
        self.req(8, struct.pack("iI", idx, off) + data + mask)

    def event(self, idx, byte, bit, count, typ, size, etype, data=b""):
        return struct.unpack("i", self.req(9, struct.pack("iIIIIIB", idx, byte, count, typ, etype, size, bit) + data))[0]

    def event_del(self, idx, eid):
        self.req(10, struct.pack("ii", idx, eid))

    def event_opt(self, idx, eid, opt):
        self.req(12, struct.pack("iiI", idx, eid, opt))

    def cdt(self, text):
        return struct.unpack("I", self.req(13, text.encode() + b"\0"))[0]

    @staticmethod
    def handle(idx, byte, bit, count, size, typ):
        return struct.pack("<iIBIII", idx, byte, bit, count, size, typ)

    def map(self, src, dst):
        return struct.unpack("i", self.req(15, src + dst))[0]

    def map_del(self, idx, mid):
        self.req(16, struct.pack("ii", idx, mid))

    def group(self, handles):
        return struct.unpack("i", self.req(18, bytes([len(handles), 0]) + b"".join(handles)))[0]

    def group_del(self, g):
        self.req(19, struct.pack("I", g))

    def group_read(self, g):
        return self.req(20, struct.pack("I", g))

    def group_write(self, g, data):
        self.req(21, struct.pack("I", g) + data)

    def atomic(self, idx, byte, count, typ, bit, op, data=b""):
        self.req(23, struct.pack("<iIIIBHH", idx, byte, count, typ, bit, op, 0) + data)

    def override_add(self, idx, off, data, mask):
        self.req(24, struct.pack("iII", idx, off, 0) + data + mask)

    def override_del(self, idx, off, mask):
        self.req(25, struct.pack("iI", idx, off) + mask)

    def override_get(self, idx, off, size):
        p = self.req(26, struct.pack("iII", idx, off, size))
        return p[:size], p[size:]

    def override_set(self, idx, flag):
        self.req(27, struct.pack("iI", idx, flag))

    def pending(self, wait=0.3):
        """events that have arrived"""
        self.s.settimeout(wait)
        try:
            while True:
                t, p = self.recv()
                self.events.append((t, p))
        except (socket.timeout, TimeoutError, BlockingIOError):
            pass
        self.s.settimeout(self.tmo)
        e, self.events = self.events, []
        return e

    def close(self):
        self.s.close()
