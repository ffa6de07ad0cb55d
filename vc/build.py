"""Builds the verified text and the native replay objects from /repo's current working tree."""
import os, re, shutil, subprocess, sys, tempfile, threading, time
from concurrent.futures import ThreadPoolExecutor

REPO = os.environ.get('XAD_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
CLANG = 'clang++-18' if shutil.which('clang++-18') else 'clang++'


class BuildError(Exception):
    pass


class Scratch:
    def __init__(self):
        self.dir = tempfile.mkdtemp(prefix='xadvc_')
        self.inc = os.path.join(self.dir, 'inc', 'XAD')
        os.makedirs(self.inc)
        src = os.path.join(REPO, 'src', 'XAD')
        self.sources = [os.path.join(src, f) for f in sorted(os.listdir(src))]
        cfg = open(os.path.join(src, 'Config.hpp.in')).read()
        # the configuration CMake produces by default (no strong inline); thread-local tapes
        for k in ('XAD_ALLOW_INT_CONVERSION',):
            cfg = cfg.replace('#cmakedefine ' + k, '#define ' + k)
        cfg = re.sub(r'#cmakedefine (.*)', r'/* undef \1 */', cfg)
        open(os.path.join(self.inc, 'Config.hpp'), 'w').write(cfg)
        ver = open(os.path.join(src, 'Version.hpp.in')).read()
        ver = re.sub(r'@[^@\s]*VERSION_(MAJOR|MINOR|PATCH)@', '1', ver)
        ver = re.sub(r'@[^@\s]*@', '1', ver)
        ver = re.sub(r'#cmakedefine (.*)', r'/* undef \1 */', ver)
        open(os.path.join(self.inc, 'Version.hpp'), 'w').write(ver)
        self.times = {}
        self.cmds = []

    def close(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def path(self, *a):
        return os.path.join(self.dir, *a)

    def flags(self, std='c++14'):
        return ['-std=' + std, '-w', '-I', self.path('inc'), '-I', os.path.join(REPO, 'src'), '-I', os.path.join(VERIF, 'native')]

    def run(self, cmd, timeout=600):
        t = time.time()
        p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=timeout, cwd=self.dir)
        if p.returncode:
            raise BuildError(' '.join(cmd) + '\n' + p.stdout[-3000:])
        return time.time() - t

    def write(self, name, text):
        p = self.path(name)
        open(p, 'w').write(text)
        return p

    def ll(self, src, out, defs=(), std='c++14', access=True, extra=()):
        """C++ -> textual LLVM IR, unoptimised: the text the obligations are generated from"""
        o = self.path(out)
        cmd = [CLANG] + self.flags(std) + ['-O0', '-fPIC', '-S', '-emit-llvm', '-DXADVC=1'] + list(defs) + list(extra)
        if access:
            cmd.append('-fno-access-control')
        self.times[out] = self.run(cmd + [src, '-o', o])
        return o

    def so(self, ll, out, opt='-O0'):
        o = self.path(out)
        self.times[out] = self.run([CLANG, opt, '-fPIC', '-shared', '-x', 'ir', ll, '-o', o, '-lm'])
        return o

    def exe(self, srcs, out, defs=(), std='c++14', opt='-O1', extra=()):
        o = self.path(out)
        cmd = [CLANG] + self.flags(std) + [opt, '-g0'] + list(defs) + list(extra) + list(srcs) + ['-o', o, '-lm', '-lpthread']
        self.times[out] = self.run(cmd)
        return o
