#!/usr/bin/env python3
"""Builds the simulator against /repo's working tree. Usage: build.py [plain|asan]
Objects are cached by content in $SIM_BUILD (default /verif/build)."""
import glob, hashlib, os, subprocess, sys, fcntl, re, time
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SIM_REPO', '/repo')
BUILD = os.environ.get('SIM_BUILD', os.path.join(VERIF, 'build'))
QT = '/usr/include/x86_64-linux-gnu/qt5'
DEFS = ['-DQT_NO_DEBUG', '-DQT_DISABLE_DEPRECATED_UP_TO=0x050F00', '-DQT_WEBSOCKETS_LIB', '-DQT_NETWORK_LIB', '-DQT_CORE_LIB']
INCS = ['-isystem', QT] + sum([['-isystem', f'{QT}/{m}'] for m in ('QtCore', 'QtNetwork', 'QtWebSockets')], [])
FLAVOURS = {'plain': ['-O1', '-g1'],
            'asan': ['-O1', '-g1', '-fsanitize=address', '-fno-omit-frame-pointer']}


class BuildError(Exception):
    pass


def sh(cmd):
    p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode:
        raise BuildError('$ %s\n%s' % (' '.join(cmd), p.stdout[-6000:]))
    return p.stdout


def read(p):
    with open(p, 'rb') as f:
        return f.read()


def terminal(f):
    return os.path.splitext(os.path.basename(f))[0] in ('main', 'monitor', 'terminalwindow', 'noninteractivemonitor')


def version_header():
    """What qmake makes of version.h.in, with the numbers of nymea-remoteproxy.pri."""
    pri = ''
    for n in ('nymea-remoteproxy.pri', 'nymea-remoteproxy.pro'):
        p = os.path.join(REPO, n)
        if os.path.exists(p):
            pri += read(p).decode(errors='replace') + '\n'
    def var(name, default):
        m = re.search(r'^\s*' + name + r'\s*=\s*(.+?)\s*$', pri, re.M)
        return m.group(1) if m else default
    major, minor = var('API_VERSION_MAJOR', '0'), var('API_VERSION_MINOR', '')
    ver = '%s.%s.%s' % (var('SERVER_VERSION_MAJOR', '1'), var('SERVER_VERSION_MINOR', '13'), var('SERVER_VERSION_PATCH', '0')) if 'SERVER_VERSION_MAJOR' in pri else '1.13.0'
    gen = os.path.join(REPO, '_build', 'version.h')
    if os.path.exists(gen):
        return read(gen).decode(errors='replace')
    return ('#ifndef VERSION_H\n#define VERSION_H\n#define SERVER_NAME_STRING "nymea-remoteproxy"\n'
            '#define SERVER_VERSION_STRING "%s"\n#define API_VERSION_STRING "6"\n#define COPYRIGHT_YEAR_STRING "2023"\n#endif\n' % ver)


def build(flavour='plain'):
    os.makedirs(BUILD, exist_ok=True)
    lock = open(os.path.join(BUILD, '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        return _build(flavour)
    finally:
        lock.close()


def _build(flavour):
    inc = os.path.join(BUILD, 'inc')
    os.makedirs(os.path.join(inc, 'x'), exist_ok=True)
    vh = os.path.join(inc, 'version.h')
    text = version_header()
    if not os.path.exists(vh) or read(vh).decode() != text:
        open(vh, 'w').write(text)

    groups = {
        'srv': (sorted(glob.glob(f'{REPO}/libnymea-remoteproxy/**/*.cpp', recursive=True)) + sorted(glob.glob(f'{REPO}/common/*.cpp'))
                + [f for f in sorted(glob.glob(f'{REPO}/server/*.cpp')) if os.path.basename(f) != 'main.cpp'],
                sorted(glob.glob(f'{REPO}/libnymea-remoteproxy/**/*.h', recursive=True)) + sorted(glob.glob(f'{REPO}/common/*.h'))
                + sorted(glob.glob(f'{REPO}/server/*.h')),
                [f'-I{REPO}/libnymea-remoteproxy', f'-I{REPO}', f'-I{REPO}/server', f'-I{REPO}/common', f'-I{inc}/x', f'-I{inc}']),
        'cli': (sorted(glob.glob(f'{REPO}/libnymea-remoteproxyclient/**/*.cpp', recursive=True)),
                sorted(glob.glob(f'{REPO}/libnymea-remoteproxyclient/**/*.h', recursive=True)),
                [f'-I{REPO}/libnymea-remoteproxyclient', f'-I{REPO}', f'-I{REPO}/common', f'-I{inc}/x', f'-I{inc}']),
        # everything of the monitor tool that has nothing to do with the terminal
        'mon': ([f for f in sorted(glob.glob(f'{REPO}/monitor/*.cpp')) if not terminal(f)], [f for f in sorted(glob.glob(f'{REPO}/monitor/*.h')) if not terminal(f)],
                [f'-I{REPO}/monitor', f'-I{REPO}', f'-I{inc}/x', f'-I{inc}']),
        'sim': (sorted(glob.glob(f'{VERIF}/sim/*.cpp')), sorted(glob.glob(f'{VERIF}/sim/*.h')),
                [f'-DSERVER_MAIN="{REPO}/server/main.cpp"', f'-I{VERIF}/sim', f'-I{REPO}', f'-I{REPO}/libnymea-remoteproxy', f'-I{REPO}/libnymea-remoteproxyclient', f'-I{REPO}/monitor', f'-I{REPO}/server', f'-I{REPO}/common', f'-I{inc}/x', f'-I{inc}']),
    }
    flags = FLAVOURS[flavour]
    jobs, objs = [], []
    obj = os.path.join(BUILD, 'obj')
    os.makedirs(obj, exist_ok=True)
    hdrs = {g: hashlib.sha256(b''.join(h.encode() + read(h) for h in groups[g][1])).hexdigest() for g in groups}
    vhash = hashlib.sha256(text.encode()).hexdigest()
    for g, (srcs, headers, incs) in groups.items():
        dep = vhash + hdrs[g] + (hdrs['srv'] + hdrs['cli'] + hdrs['mon'] + hashlib.sha256(read(f'{REPO}/server/main.cpp')).hexdigest() if g == 'sim' else hdrs['srv'])
        if g == 'srv':
            dep += hdrs['cli'] * 0
        common = ['g++', '-std=gnu++17' if g == 'sim' else '-std=gnu++11', '-fPIC', '-pipe', '-w'] + flags + DEFS + INCS + incs
        for h in headers:
            if any(m in read(h) for m in (b'Q_OBJECT', b'Q_GADGET', b'Q_NAMESPACE')):
                key = hashlib.sha256((h + dep + ' '.join(common)).encode() + read(h)).hexdigest()[:24]
                o = f'{obj}/{key}.o'
                objs.append(o)
                if not os.path.exists(o):
                    jobs.append(('moc', h, o, common))
        for s in srcs:
            key = hashlib.sha256((s + dep + ' '.join(common)).encode() + read(s)).hexdigest()[:24]
            o = f'{obj}/{key}.o'
            objs.append(o)
            if not os.path.exists(o):
                jobs.append(('c', s, o, common))

    def run(j):
        kind, src, o, common = j
        tmp = o + '.%d.tmp' % os.getpid()
        if kind == 'moc':
            m = o[:-2] + '.moc.cpp'
            sh(['/usr/lib/qt5/bin/moc'] + DEFS + [a for a in common if a.startswith('-I')] + [f'-I{QT}', f'-I{QT}/QtCore', src, '-o', m])
            sh(common + ['-c', m, '-o', tmp])
        else:
            cmd = common + ['-c', src, '-o', tmp]
            if src.endswith('interpose.cpp'):
                cmd += ['-fno-builtin', '-fno-sanitize=address'] if flavour == 'asan' else ['-fno-builtin']
            sh(cmd)
        os.rename(tmp, o)

    # biggest first
    jobs.sort(key=lambda j: -os.path.getsize(j[1]))
    with ThreadPoolExecutor(os.cpu_count() or 8) as ex:
        list(ex.map(run, jobs))
    key = hashlib.sha256(('\n'.join(objs) + flavour).encode()).hexdigest()[:24]
    exe = os.path.join(BUILD, f'sim-{flavour}-{key}')
    if not os.path.exists(exe):
        for old in glob.glob(os.path.join(BUILD, f'sim-{flavour}-*')):
            if time.time() - os.path.getmtime(old) > 1800:
                os.remove(old)
        sh(['g++', '-rdynamic'] + flags + objs + ['-o', exe + '.tmp', '-lQt5WebSockets', '-lQt5Network', '-lQt5Core', '-lssl', '-lcrypto', '-ldl', '-lpthread'])
        os.rename(exe + '.tmp', exe)
    return exe


if __name__ == '__main__':
    t = time.time()
    try:
        e = build(sys.argv[1] if len(sys.argv) > 1 else 'plain')
    except BuildError as x:
        print(x)
        sys.exit(2)
    print(e, '%.1fs' % (time.time() - t))
