#!/usr/bin/env python3
"""Differential check of the mri core stand-in: every packet of an enumerated packet set is sent to
 (a) /repo/bins/lin64/CrashDebug (prebuilt by the project, contains the real mri core)
 (b) CrashDebug built from a source tree with /verif/standin
and the byte streams are compared.  usage: core_conformance.py NEW_BINARY [REFERENCE_BINARY]"""
import subprocess, sys, struct, os, tempfile, select, itertools

def dump(flags=0, psr=3, regions=((0xE000ED28, struct.pack('<IIII', 0x8283, 0x40000002, 0, 0x12345678)),(0xE000ED38, struct.pack('<I',0xabcd)))):
    b = b'cC\x03\x00' + struct.pack('<I', flags)
    b += b''.join(struct.pack('<I', 0x11110000 + i) for i in range(19)) + struct.pack('<I', psr)
    if flags & 1: b += b''.join(struct.pack('<I', 0x22220000 + i) for i in range(33))
    b += struct.pack('<II', 0x20000000, 0x20000040) + bytes(range(64))
    for a, d in regions: b += struct.pack('<II', a, a + len(d)) + d
    return b

class Session:
    def __init__(self, exe, args):
        self.p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0)
        self.log = b''
    def get(self, n, timeout=0.5):
        out = b''
        while len(out) < n:
            r, _, _ = select.select([self.p.stdout], [], [], timeout)
            if not r: break
            c = os.read(self.p.stdout.fileno(), n - len(out))
            if not c: break
            out += c
        self.log += out
        return out
    def reply(self):
        """ack, then packet"""
        a = self.get(1)
        if a != b'+': return a
        return a + self.packet()
    def packet(self):
        out = b''
        while not out.endswith(b'#'):
            c = self.get(1)
            if not c: return out
            out += c
        out += self.get(2)
        return out
    def send(self, payload, bad=False):
        s = sum(payload) & 0xff
        if bad: s ^= 1
        self.p.stdin.write(b'$' + payload + b'#' + b'%02x' % s)
    def raw(self, b): self.p.stdin.write(b)
    def close(self):
        self.p.kill(); self.p.wait()

def packets():
    yield from [b'?', b'g', b'qSupported', b'qSupported:multiprocess+;swbreak+', b'qSupportedX', b'qC', b'qAttached', b'Hg0', b'vCont?', b'!', b'', b'D', b'k', b'T1', b'p0', b'P0=1']
    addrs = [b'0', b'3', b'1f', b'20000000', b'20000001', b'20000002', b'20000003', b'2000003c', b'2000003e', b'2000003f', b'20000040', b'E000ED28', b'ffffffff', b'x', b'', b'120000000']
    lens = [b'0', b'1', b'2', b'3', b'4', b'5', b'8', b'40', b'41', b'100', b'', b'z', b'2000', b'1FFF', b'2001']
    for a, l in itertools.product(addrs, lens): yield b'm' + a + b',' + l
    yield b'm20000000'; yield b'm20000000;4'
    for a in addrs:
        for l, d in [(b'1', b'aa'), (b'2', b'1234'), (b'4', b'12345678'), (b'3', b'010203'), (b'1', b''), (b'1', b'a'), (b'2', b'12x4'), (b'4', b'123456'), (b'1', b'zz'), (b'0', b''), (b'2', b'123456')]:
            yield b'M' + a + b',' + l + b':' + d
            yield b'm' + a + b',4'
    for a in [b'20000000', b'20000001', b'2000003f', b'0', b'20000010']:
        for l, d in [(b'1', b'a'), (b'2', b'ab'), (b'4', b'}\x03}\x04}]q'), (b'3', b'\x00\xff\x80'), (b'1', b''), (b'2', b'a'), (b'1', b'}'), (b'0', b''),(b'4',b'\xf1\xf2\xf3\xf4')]:
            yield b'X' + a + b',' + l + b':' + d
            yield b'm' + a + b',4'
    yield b'M20000000,4'; yield b'X20000000,1;a'
    for t in b'01234569a':
        for set_ in (b'Z', b'z'):
            for rest in [b',20000000,2', b',0,4', b'', b',', b',1', b',1,', b',x,1', b';1,1', b',ffffffff,ffffffff', b',1,2;X']:
                yield set_ + bytes([t]) + rest
    for o in [b'features:read:target.xml:', b'memory-map:read::']:
        for off in [b'0', b'1', b'10', b'100', b'3e0', b'3e1', b'3e2', b'500', b'ffffffff']:
            for ln in [b'0', b'1', b'7', b'100', b'fff', b'3ffe', b'3fff', b'4000', b'4001', b'ffffffff']:
                yield b'qXfer:' + o + off + b',' + ln
    for s in [b'qXfer', b'qXfer:', b'qXfer:bogus:read::0,1', b'qXfer:features:read::0,1', b'qXfer:features:write:target.xml:0,1', b'qXfer:memory-map:read:x:0,1', b'qXfer:memory-map:read::0', b'qXfer:memory-map:read::0;1', b'qXfer:features:read:other.xml:0,1', b'qXfer:memory-map:read::x,1', b'qXfer:memory-map', b'qXfer:features:read:target.xml']: yield s
    ok = b''.join(struct.pack('<I', 0x33330000 + i) for i in range(19)).hex().encode()
    okf = ok + b''.join(struct.pack('<I', 0x44440000 + i) for i in range(33)).hex().encode()
    for gp in [ok, okf, ok[:-2], ok + b'00', okf[:-2], b'', ok[:8], b'z' + ok[1:], ok[:-1]]:
        yield b'G' + gp; yield b'g'
    yield b'C'; yield b'C0x'; yield b'Cq'; yield b'C05;x'; yield b'S'; yield b'Sz'
    yield b'?'
CONT = [b'c', b'c20000000', b'cz', b'C05', b'C05;20000000', b's', b's20000000', b'S05', b'S05;1000', b'F0', b'F-1,4', b'F-1,4,C', b'F1,2,Q', b'F', b'Fx', b'F-', b'F1,z']

def run(exe, args, wait_first):
    s = Session(exe, args); res = []
    s.raw(b'+')
    for p in packets():
        s.send(p); r = s.reply(); s.raw(b'+') if r[1:] else None
        res.append((p, r))
    # nack, bad checksum, interleaving
    s.send(b'?', bad=True); res.append(('badsum', s.get(1)))
    s.raw(b'zzz$?$?#3f'); res.append(('resync', s.reply())); s.raw(b'+')
    s.send(b'm20000000,4'); r = s.reply(); s.raw(b'-'); r2 = s.packet(); s.raw(b'\x03+'); res.append(('nack', r, r2))
    s.raw(b'$' + b'a' * 16390 + b'#00'); res.append(('toolong', s.get(4)))
    s.send(b'?'); res.append(('after', s.reply())); s.raw(b'+')
    s.raw(b'$?#zz'); res.append(('badhex', s.get(1)))
    for p in CONT:
        s.send(p); a = s.get(1); out = [a]
        while True:
            k = s.packet()
            if not k: out.append(b'(none)'); break
            out.append(k); s.raw(b'+')
            if k.startswith(b'$T'): break
        res.append((p, out))
        s.send(b'qC'); res.append(('alive', s.reply())); s.raw(b'+')
    s.close()
    return res

def main():
    new = sys.argv[1]; ref = sys.argv[2] if len(sys.argv) > 2 else '/repo/bins/lin64/CrashDebug'
    d = tempfile.mkdtemp(); img = os.path.join(d, 'i.bin'); open(img, 'wb').write(bytes(range(32)))
    bad = n = 0
    for flags in (0, 1):
        for psr in (2, 3, 4, 5, 6, 12, 0, 15):
            if psr != 3 and flags: continue
            f = os.path.join(d, 'd.dmp'); open(f, 'wb').write(dump(flags, psr))
            a = ['--bin', img, '0', '--dump', f]
            from concurrent.futures import ThreadPoolExecutor
            with ThreadPoolExecutor() as ex:
                A, B = ex.map(lambda e: run(e, a, True), (ref, new))
            for x, y in zip(A, B):
                n += 1
                if x != y:
                    bad += 1
                    if bad < 40: print('DIFF flags', flags, 'psr', psr, '\n  ref', x, '\n  new', y)
            if len(A) != len(B): print('LEN', len(A), len(B))
    import shutil; shutil.rmtree(d)
    print('compared %d exchanges, %d differences' % (n, bad))
    return bad != 0
sys.exit(main())
