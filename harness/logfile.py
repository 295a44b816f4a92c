"""Writes log file images: the environment of the LogWriter specification, in bytes."""
import random
import struct
import ntfs

PAGE = 4096


class Log(object):
    def __init__(self, inp):
        self.v, self.k, self.h, self.d = inp['v'], inp['k'], inp['hdr'], inp['doff']
        self.f = 4 if self.v == 1 else 34
        self.cap = PAGE - self.d
        self.size = (self.f + self.k) * PAGE
        self.bits = 64 - (self.size // 8 - 1).bit_length()
        self.cur = (self.f + inp['at'], inp['seq'], self.d)
        self.mem, self.disk, self.slots, self.nslot, self.recs, self.bad = None, {}, {}, 0, [], set()
        self.astray = {}
        self.nslots = 2 if self.v == 1 else 32
        self.synced = 0
        self.since_put = 0

    def after(self, q):
        return self.f if q + 1 == self.f + self.k else q + 1

    def fresh(self):
        return {'last': 0, 'end': 0, 'b': {}, 'next': self.d}

    def lsn(self, r):
        if r < 1 or r > len(self.recs):
            return 0
        x = self.recs[r - 1]
        return (x['p'] * PAGE + x['o']) >> 3 | x['s'] << (64 - self.bits)

    def data(self, r, op):
        """The client data of record r."""
        n = op['n']
        b = bytearray(random.Random(r).randbytes(n))   # no bytes that happen to be the sequence number of their own place
        if op['t'] == 2:
            h = struct.pack('<LL5Q4L', 1, 0, *[self.lsn(x) for x in (list(op['pts']) + [0] * 5)[:5]], 0, 0, 0, 0)
            h += struct.pack('<qQL', 0, 0, 4096)
        else:
            h = struct.pack('<HHHHHHHHHHHHq', 0, 0, 0, 0, 0, 0, r % 60000, 0, 0, 0, 0, 0, r)
        h = (bytes(op['head']) if 'head' in op else h)[:n]
        b[:len(h)] = h
        return bytes(b)

    def place(self):
        p, s, o = self.cur
        if o + self.h <= PAGE:
            return self.cur, False
        return (self.after(p), s + 1 if p + 1 == self.f + self.k else s, self.d), True

    def extra(self, n):
        o = self.place()[0][2]
        left = n - min(n, PAGE - o - self.h)
        return -(-left // self.cap)

    def leave(self, q):
        """The page q is full."""
        if self.v == 1:
            self.disk[q] = self.mem
        else:
            self.keep(q)
        self.mem = self.fresh()

    def keep(self, q):
        import copy
        self.slots[self.nslot % self.nslots + 1] = (q, copy.deepcopy(self.mem))
        self.nslot += 1
        self.since_put += 1

    def write(self, op):
        (p, s, o), moved = self.place()
        if moved:
            self.leave(self.cur[0])
        elif self.mem is None:
            self.mem = self.fresh()
        r = len(self.recs) + 1
        self.recs.append({'p': p, 's': s, 'o': o, 'op': op})
        self.recs[-1]['data'] = data = self.data(r, op)
        head = struct.pack('<QQQLLLLHHHH', self.lsn(r), self.lsn(op['prev']), self.lsn(op['undo']), len(data), op['c'], op['t'], 1000 + r, 0, 0, 0, 0)
        raw = head + bytes([0xEE]) * (self.h - len(head))
        self.mem['b'][o] = raw
        first = min(len(data), PAGE - o - self.h)
        self.mem['b'][o + self.h] = data[:first]
        self.mem['last'] = r
        left, q, s2, end = data[first:], p, s, o + self.h + first
        while left:
            self.leave(q)
            if q + 1 == self.f + self.k:
                s2 += 1
            q = self.after(q)
            self.mem['b'][self.d] = left[:self.cap]
            self.mem['last'] = r
            end = self.d + len(left[:self.cap])
            left = left[self.cap:]
        self.mem['end'] = r
        self.mem['next'] = end
        self.cur = (q, s2, end)

    def move(self, n):
        import copy
        for j in range(n):
            x = self.slots.get(1 + (self.nslot + j) % self.nslots)
            if x and (x[0] not in self.disk or (self.disk[x[0]]['last'], self.disk[x[0]]['end']) < (x[1]['last'], x[1]['end'])):
                self.disk[x[0]] = copy.deepcopy(x[1])

    def do(self, op):
        k = op['o']
        import copy
        if k == 'rec':
            self.write(op)
        elif k == 'sync':
            self.keep(self.cur[0])
            self.synced = len(self.recs)
        elif k == 'move':
            self.move(op['a'])
        elif k == 'put':
            if self.v == 2:
                self.move(self.nslots)
            self.disk[self.cur[0]] = copy.deepcopy(self.mem)
            self.synced = len(self.recs)
            self.since_put = 0
        elif k == 'tear':
            self.bad.add(('log', self.f + op['a']))
        elif k == 'tearslot':
            self.bad.add(('slot', op['a']))
        elif k == 'astray':
            self.astray[op['a']] = op['x']

    def elsewhere(self, kind):
        """A byte offset that is no place of a log page."""
        return {'past': self.size, 'restart': PAGE, 'between': self.f * PAGE + 512, 'copies': 2 * PAGE, 'huge': 0xFFFFF000 if self.v == 2 else 1 << 62, 'negative': -PAGE, 'none': 0}[kind]

    def page_bytes(self, c, target=None, torn=False, usn=b'\x07\x00', astray=None):
        b = bytearray(PAGE)
        u = 48 if astray == 'none' else 40
        b[:4] = b'RCRD'
        last = self.lsn(c['last'])
        if target is not None and self.v == 1:
            last = (target * PAGE if astray is None else self.elsewhere(astray)) & 0xFFFFFFFFFFFFFFFF
        struct.pack_into('<QLHHH', b, 8, last, 1, 1, 1, c['next'] & 0xFFFF)
        struct.pack_into('<Q', b, 32, self.lsn(c['end']))
        if target is not None and self.v == 2:
            struct.pack_into('<L', b, 60, target * PAGE if astray is None else self.elsewhere(astray))
        for o, x in c['b'].items():
            b[o:o + len(x)] = x
        b = bytearray(ntfs.protect(b, u, usn))
        if torn:
            b[PAGE - 1] ^= 0x55
        return bytes(b)

    def restart(self, lsns, seed=0, version=None):
        b = bytearray(PAGE)
        b[:4] = b'RSTR'
        major, minor = version or ((1, 1) if self.v == 1 else (2, 0))
        l = list(lsns) + [0] * max(0, 4 - len(lsns))
        l += [0] * (len(l) % 2)
        n = len(l) // 2 - 1   # clients
        struct.pack_into('<QLLHHH', b, 8, self.lsn(l[0]), PAGE, PAGE, 48, minor, major)
        name = 'NTFS'.encode('utf-16le')
        struct.pack_into('<QHHHHLHHqLHHL', b, 48, self.lsn(l[1]), n, 0xFFFF, 0, 0, self.bits, 64 + 160 * n, 64, self.size, 0, self.h, self.d, seed)
        for c in range(n):
            at = 48 + 64 + 160 * c
            struct.pack_into('<QQHHHHHHL', b, at, self.lsn(l[2 + 2 * c]), self.lsn(l[3 + 2 * c]), c - 1 if c else 0xFFFF, c + 1 if c + 1 < n else 0xFFFF, 0, 0, 0, 0, len(name))
            b[at + 32:at + 32 + len(name)] = name
        return ntfs.protect(b, 30, b'\x05\x00')

    def image(self, inp):
        img = bytearray(b'\xFF' * self.size if inp.get('fill', 1) else self.size)
        rst = inp['rst']
        img[0:PAGE] = self.restart(rst, 1)
        img[PAGE:2 * PAGE] = self.restart(inp.get('rst2', rst), 2)
        for j, (t, c) in self.slots.items():
            img[(1 + j) * PAGE:(2 + j) * PAGE] = self.page_bytes(c, t, ('slot', j) in self.bad, astray=self.astray.get(j))
        for q, c in self.disk.items():
            img[q * PAGE:(q + 1) * PAGE] = self.page_bytes(c, None, ('log', q) in self.bad, usn=bytes([q % 200 + 1, 1]))
        if inp.get('one'):
            z = 0 if inp['one'] == 2 else PAGE
            img[z + 510] ^= 0xFF
        return bytes(img)


def build(inp):
    log = Log(inp)
    for op in inp['ops']:
        log.do(op)
    return log
