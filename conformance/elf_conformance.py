#!/usr/bin/env python3
"""Checks the reading of ELF files used by C09/C10 against a real toolchain: ARM programs are linked by ld.lld with every
combination of a set of layouts, llvm-objcopy says where their bytes belong in FLASH, and the program is asked for them.
usage: elf_conformance.py CRASHDEBUG_BINARY"""
import sys, os, subprocess, tempfile, itertools, struct, re

SRC = '''
__attribute__((section(".vectors"), used)) const unsigned vectors[16] = {0x20004000, 0x201, 0x203};
%s
int main(void) { return vectors[0]; }
'''
def packet(b): return b'$' + b + b'#%02x' % (sum(b) & 0xff)
def ask(exe, args, cmds):
    p = subprocess.Popen([exe] + args, stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, bufsize=0)
    def reply():
        c = p.stdout.read(1)
        while c and c != b'$': c = p.stdout.read(1)
        s = b''
        while c and c != b'#':
            c = p.stdout.read(1); s += c
        p.stdout.read(2)
        if c: p.stdin.write(b'+')
        return s[:-1]
    r = []
    p.stdin.write(b'+')
    for c in ['?'] + cmds:
        try: p.stdin.write(packet(c.encode()))
        except BrokenPipeError: break
        r.append(reply())
    p.stdin.close()
    p.kill()
    err = p.stderr.read(); p.wait(); p.stdout.close(); p.stderr.close()
    return r, err
def ok(*a): return subprocess.run(a, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, check=True).stdout

def main():
    exe = os.path.abspath(sys.argv[1])
    n = words = 0
    with tempfile.TemporaryDirectory() as t:
        os.chdir(t)
        open('d.dmp', 'wb').write(b'cC\3\0' + bytes(4) + bytes(4 * 20) + struct.pack('<II', 0x30000000, 0x30000004) + b'abcd')
        for data, bss, ro, base, gap, lma, hdrs, strip in itertools.product((0, 1, 37), (0, 1), (0, 5), (0, 0x8000000), (0, 0x100), ('at', 'vma', 'gap'), (0, 1), (0, 1)):
            body = ''
            if data: body += 'volatile char data[%d] = {%s};\n' % (data, ','.join(str(i + 1) for i in range(data)))
            if bss: body += 'volatile char bss[40];\n'
            if ro: body += 'const volatile char ro[%d] = {9,8,7,6,5};\n' % ro
            open('a.c', 'w').write(SRC % body)
            at = {'at': '> RAM AT> FLASH', 'vma': '> RAM', 'gap': '0x20000100 : AT(%#x)' % (base + 0x800)}[lma]
            sec, place = ('.data ' + at.split(' :')[0] + ' ' + at[at.index(':'):], '') if lma == 'gap' else ('.data :', at)
            open('a.ld', 'w').write('''ENTRY(main)
MEMORY { FLASH (rx) : ORIGIN = %#x, LENGTH = 64K
 RAM (rwx) : ORIGIN = 0x20000000, LENGTH = 64K }
PHDRS { %s text PT_LOAD %s; data PT_LOAD; bss PT_LOAD; }
SECTIONS {
 .text %s : { KEEP(*(.vectors)) . = . + %d; *(.text*) *(.rodata*) } > FLASH :text
 %s { *(.data*) } %s :data
 .bss (NOLOAD) : { *(.bss*) } > RAM :bss
 /DISCARD/ : { *(.ARM*) } }
''' % (base, 'phdrs PT_PHDR PHDRS;' if hdrs else '', 'FILEHDR PHDRS' if hdrs else '', '%#x + SIZEOF_HEADERS' % base if hdrs else '', gap, sec, place))
            ok('clang', '--target=armv7m-none-eabi', '-mthumb', '-Os', '-ffreestanding', '-c', 'a.c', '-o', 'a.o')
            ok('ld.lld', '-T', 'a.ld', '--no-rosegment', 'a.o', '-o', 'a.elf')
            if strip: ok('llvm-objcopy', '--strip-all', 'a.elf')
            # sections and the segments they are in, according to llvm-readelf
            want = {}
            blob = open('a.elf', 'rb').read()
            for l in ok('llvm-readelf', '-lW', 'a.elf').split('\n'):
                m = re.match(r'\s+LOAD\s+(\w+) (\w+) (\w+) (\w+) (\w+)', l)
                if m:
                    off, va, pa, fs, ms = (int(x, 16) for x in m.groups())
                    for i in range(fs): want[pa + i] = blob[off + i]
            # and the image that would be programmed: the allocated sections
            ok('llvm-objcopy', '-O', 'ihex', 'a.elf', 'a.hex')
            hi, image = 0, {}
            for l in open('a.hex'):
                b = bytes.fromhex(l.strip()[1:])
                if b[3] == 4: hi = (b[4] << 8 | b[5]) << 16
                if b[3] == 2: hi = (b[4] << 8 | b[5]) << 4
                if b[3] == 0:
                    for i in range(b[0]): image[hi + (b[1] << 8 | b[2]) + i] = b[4 + i]
            assert image and all(want.get(a) == v for a, v in image.items()), (l, 'objcopy and readelf differ')
            lo = sorted(want)
            runs = []
            for a in lo:
                if runs and a == runs[-1][0] + runs[-1][1] and runs[-1][1] < 200: runs[-1][1] += 1
                else: runs.append([a, 1])
            r, err = ask(exe, ['--elf', 'a.elf', '--dump', 'd.dmp'], ['m%x,%x' % tuple(x) for x in runs])
            assert len(r) == len(runs) + 1, (err, r)
            for (a, k), x in zip(runs, r[1:]):
                assert bytes.fromhex(x.decode()) == bytes(want[a + i] for i in range(k)), (data, bss, ro, base, gap, lma, hdrs, hex(a), x)
            n += 1; words += len(image)
    print('%d programs, %d bytes of images: all where the toolchain says they belong' % (n, words))
main()
