"""Builds /repo's working tree together with the harness, out of tree, in /verif/.build/<flavour>."""
import fcntl, hashlib, json, os, subprocess, time

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
FLAGS = {
    'asan': '-fsanitize=address -fsanitize=return,null,bounds,unreachable -fno-sanitize-recover=all -O1 -g1 -fno-omit-frame-pointer',
    'tsan': '-fsanitize=thread -O1 -g1 -fno-omit-frame-pointer',
    'plain': '-O1',
}


def build_dir(flavour):
    return os.path.join(ROOT, '.build', flavour)


def env():
    e = dict(os.environ)
    e['PATH'] = '/opt/vp/cmake322/bin:' + e['PATH']
    e.update(CC='gcc', CXX='g++', QT_SELECT='qt5', ASAN_OPTIONS='detect_leaks=0', TSAN_OPTIONS='report_bugs=0', CCACHE_DIR=os.path.join(ROOT, '.build', 'ccache'),
             QT_QPA_PLATFORM='offscreen')
    for k in ('CFLAGS', 'CXXFLAGS', 'LDFLAGS', 'MAKEFLAGS', 'VERBOSE'):
        e.pop(k, None)
    return e


def sources():
    for base, dirs, files in os.walk(REPO):
        dirs[:] = [d for d in dirs if d not in ('.git', 'build', '_build', 'node_modules')]
        for f in files:
            if f.endswith(('.h', '.cpp', '.cc', '.hpp', '.proto', '.txt', '.cmake', '.in', '.qml', '.qrc', '.json')) or 'qmldir' in f:
                yield os.path.join(base, f)


def refresh(bdir):
    """make ninja see a change of content even where the modification time went backwards"""
    stampf = os.path.join(bdir, 'vp_hashes.json')
    old = {}
    if os.path.exists(stampf):
        try:
            old = json.load(open(stampf))
        except Exception:
            old = {}
    new, now = {}, time.time()
    for p in sources():
        try:
            h = hashlib.sha1(open(p, 'rb').read()).hexdigest()
        except OSError:
            continue
        new[p] = h
        if old and old.get(p) != h:
            try:
                os.utime(p, (now, now))
            except OSError:
                pass
    return stampf, new


def build(flavour, targets, timeout=840):
    bdir = build_dir(flavour)
    os.makedirs(bdir, exist_ok=True)
    lock = open(os.path.join(ROOT, '.build', flavour + '.lock'), 'w')
    fcntl.flock(lock, fcntl.LOCK_EX)
    try:
        stampf, new = refresh(bdir)
        e = env()
        cfg = ['cmake', '-S', REPO, '-B', bdir, '-G', 'Ninja', '-DCMAKE_BUILD_TYPE=Debug', '-DBUILD_SHARED_LIBS=ON',
               '-DCMAKE_PROJECT_QtProtobuf_INCLUDE=' + os.path.join(ROOT, 'pbt/cmake/hook.cmake'),
               '-DQT_PROTOBUF_MAKE_TESTS=OFF', '-DQT_PROTOBUF_MAKE_EXAMPLES=OFF', '-DQT_PROTOBUF_NATIVE_GRPC_CHANNEL=ON',
               '-DVP_FLAVOUR=' + flavour, '-DCMAKE_CXX_FLAGS=' + FLAGS[flavour]]
        p = subprocess.run(cfg, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=300)
        if p.returncode:
            return False, p.stdout.decode('utf8', 'replace')
        p = subprocess.run(['ninja', '-C', bdir] + targets, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
        out = p.stdout.decode('utf8', 'replace')
        if p.returncode:
            i = out.find('FAILED')
            return False, out[max(0, i):][:6000]
        json.dump(new, open(stampf, 'w'))
        return True, ''
    finally:
        lock.close()
