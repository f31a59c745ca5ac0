"""Builds, from /repo's current sources, the IR the verifier reads and the native replay programs."""
import glob, os, re, subprocess, sys, tempfile, shutil
from concurrent.futures import ThreadPoolExecutor
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VQ_REPO', '/repo')
QT = '/usr/include/x86_64-linux-gnu/qt6'
MOC = '/usr/lib/qt6/libexec/moc'
QTMODS = ['QtCore', 'QtNetwork', 'QtDBus', 'QtWebSockets', 'QtQml', 'QtQuick', 'QtGui', 'QtTest', 'QtQmlIntegration']
LIBS = ['core', 'network', 'dbus', 'qml', 'quick', 'websockets', 'test']
# sources that include their own moc output / headers with Q_OBJECT
MOC_CPP = {'core/qcorothread.cpp', 'network/qcoroabstractsocket.cpp', 'network/qcorolocalsocket.cpp', 'network/qcoronetworkreply.cpp',
           'websockets/qcorowebsocket.cpp', 'websockets/qcorowebsocketserver.cpp'}
MOC_H = ['core/qcoroiodevice_p.h', 'qml/qcoroqmltask.h']

class BuildError(Exception): pass

class Build:
    def __init__(self, tmp=None):
        self.dir = tmp or tempfile.mkdtemp(prefix='vq-')
        self.gen = self.dir + '/gen'; os.makedirs(self.gen, exist_ok=True)
        for l in LIBS:
            U = 'QCORO%s' % l.upper()
            with open('%s/qcoro%s_export.h' % (self.gen, l), 'w') as f:
                f.write('#pragma once\n#define %s_EXPORT\n#define %s_NO_EXPORT\n#define %s_DEPRECATED\n#define %s_DEPRECATED_EXPORT\n' % (U, U, U, U))
        os.makedirs(self.gen + '/QCoro', exist_ok=True)
        with open(self.gen + '/QCoro/QCoroTask', 'w') as f: f.write('#include "qcorotask.h"\n')
        self.have_moc = False
    def close(self): shutil.rmtree(self.dir, ignore_errors=True)
    def incs(self):
        r = ['-I' + ROOT + '/contracts', '-I' + ROOT + '/model', '-I' + self.gen, '-I' + REPO, '-I' + REPO + '/qcoro']
        r += ['-I%s/qcoro/%s' % (REPO, l) for l in LIBS]
        r += ['-isystem', QT] + [x for m in QTMODS for x in ('-isystem', QT + '/' + m)]
        for m in ('QtCore', 'QtQml'): # private headers, as the repository's qml library
            for v in sorted(glob.glob(QT + '/' + m + '/6.*')): r += ['-isystem', v, '-isystem', v + '/' + m]
        return r
    def defs(self):
        return ['-DQT_CORE_LIB', '-DQT_NETWORK_LIB', '-DQT_NO_DEBUG', '-DQT_FORCE_ASSERTS', '-DQT_NO_VERSION_TAGGING']
    def moc(self):
        if self.have_moc: return
        self.have_moc = True
        def one(src, out):
            if not os.path.exists(src): return
            t = open(src).read()
            if 'Q_OBJECT' not in t and 'Q_GADGET' not in t and 'QML_' not in t:
                open(out, 'w').close(); return
            r = subprocess.run([MOC, '-DQT_CORE_LIB', '-DQT_NO_DEBUG'] + [x for x in self.incs() if x != '-isystem' and not x.startswith(QT)] + ['-I' + QT] + ['-I' + QT + '/' + m for m in QTMODS] + [src, '-o', out],
                               capture_output=True, text=True)
            if r.returncode: raise BuildError('moc %s: %s' % (src, r.stderr[-600:]))
        jobs = []
        for base, dirs, files in os.walk(REPO + '/qcoro'):
            for f in files:
                p = os.path.join(base, f)
                if f.endswith('.cpp') and re.search(r'#include\s+"(?:moc_)?%s\.moc"' % re.escape(f[:-4]), open(p).read()): jobs.append((p, '%s/%s.moc' % (self.gen, f[:-4])))
                elif f.endswith('.h') and re.search(r'^\s*(Q_OBJECT|Q_GADGET)\b', open(p).read(), re.M): jobs.append((p, '%s/moc_%s.cpp' % (self.gen, f[:-2])))
        with ThreadPoolExecutor(8) as ex: list(ex.map(lambda a: one(*a), jobs))
    def path(self, src):
        if src.startswith('gen:'): return self.gen + '/' + src[4:]
        if src.startswith('repo:'): return REPO + '/qcoro/' + src[5:]
        return ROOT + '/' + src
    def out(self, src, ext): return self.dir + '/' + re.sub(r'\W', '_', src) + ext
    def ir(self, sources, symonly=True):
        self.moc()
        def one(src):
            o = self.out(src, '.ll')
            cmd = ['clang++-18', '-std=gnu++20', '-fPIC', '-O1', '-Xclang', '-disable-llvm-passes', '-fno-discard-value-names', '-fno-access-control',
                   '-Xclang', '-mno-constructor-aliases', '-w', '-S', '-emit-llvm'] + self.defs() + (['-DVQ_SYMBOLIC_ONLY'] if symonly else []) + ['-isystem', ROOT + '/model/stl'] + self.incs() + [self.path(src), '-o', o]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode: raise BuildError('%s: %s' % (src, '\n'.join([l for l in r.stderr.splitlines() if 'error' in l][:6]) or r.stderr[-800:]))
            return o
        with ThreadPoolExecutor(8) as ex: return list(ex.map(one, sources))
    def native(self, sources):
        """executable that runs the same contracts natively (g++ as the repository's build, AddressSanitizer)"""
        self.moc()
        exe = self.dir + '/native.exe'
        def one(src):
            o = self.out(src, '.o')
            cmd = ['g++', '-std=gnu++20', '-fcoroutines', '-O0', '-g', '-fPIC', '-fno-access-control', '-fsanitize=address', '-w', '-c'] + self.defs() + self.incs() + [self.path(src), '-o', o]
            r = subprocess.run(cmd, capture_output=True, text=True)
            if r.returncode: raise BuildError('native %s: %s' % (src, r.stderr[-800:]))
            return o
        with ThreadPoolExecutor(8) as ex: objs = list(ex.map(one, list(sources) + ['native/rt.cpp']))
        link = ['g++', '-fsanitize=address', '-rdynamic', '-Wl,--no-demangle', '-Wl,--allow-multiple-definition'] + objs + ['-ldl', '-o', exe]
        r = subprocess.run(link, capture_output=True, text=True)
        if r.returncode:
            und = sorted(set(re.findall(r"undefined reference to `([^']+)'", r.stderr)))
            if not und: raise BuildError('native link: ' + r.stderr[-800:])
            s = self.dir + '/stubs.s'
            with open(s, 'w') as f:
                for u in und:
                    if re.match(r'_ZT[VIS]|.*staticMetaObject|qt_version_tag|.*E$', u) and not re.search(r'Ev$', u):
                        f.write('.data\n.globl "%s"\n.balign 16\n"%s":\n.zero 1024\n' % (u, u))
                    else:
                        f.write('.data\n1: .asciz "%s"\n.text\n.globl "%s"\n.type "%s",@function\n"%s":\n leaq 1b(%%rip), %%rdi\n jmp vq_missing_external@PLT\n' % (u, u, u, u))
                f.write('.section .note.GNU-stack,"",@progbits\n')
            r = subprocess.run(link[:5] + objs + [s, '-ldl', '-o', exe], capture_output=True, text=True)
            if r.returncode: raise BuildError('native link: ' + r.stderr[-800:])
        return exe
