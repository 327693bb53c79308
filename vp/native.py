"""Talks to the native replay program."""
import os
import select
import subprocess

LIMIT = 20       # seconds for one call

class Native:
    def __init__(self, path):
        self.path = path
        self.p = subprocess.Popen([path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, bufsize=0)

    def _req(self, line):
        self.p.stdin.write((line + '\n').encode())
        buf = b''
        fd = self.p.stdout.fileno()
        while not buf.endswith(b'\n'):
            if not select.select([fd], [], [], LIMIT)[0]:
                self.p.kill()
                return {'v': 0, 'w': 0, 'e': 0, 'st': 0, 'f': 0, 'hang': 1}
            x = os.read(fd, 65536)
            if not x:
                break
            buf += x
        r = buf.decode().strip()
        if r == 'PANIC':
            return None
        if not r:
            raise RuntimeError('replay program ended on: ' + line)
        f = r.split(' ')
        d = {'v': int(f[0], 16), 'w': int(f[1], 16), 'e': int(f[2]), 'st': int(f[3]), 'f': int(f[4])}
        if len(f) > 5:
            d['bytes'] = bytes.fromhex(f[5])
        return d

    @staticmethod
    def line(name, a=0, b=0, c=0, k=0, r=0):
        return 'C %s %x %x %x %d %d' % (name, a, b, c, k, r)

    def call(self, name, a=0, b=0, c=0, k=0, r=0):
        return self._req(self.line(name, a, b, c, k, r))

    def parse(self, name, s, r=0):
        return self._req('P %s %s %d' % (name, s.hex(), r))

    def show(self, name, a, n=256):
        return self._req('S %s %x %d' % (name, a, n))

    def close(self):
        try:
            self.p.stdin.close()
            self.p.wait(5)
        except Exception:
            self.p.kill()
