"""Checks over randomly generated schemas (P12, P13, P14): generate a schema, run the code generator of the tree under test
on it, compile what it wrote, and run the message and object properties of the harness on the classes that come out, against
libprotobuf on the same schema.  Failures are shrunk by removing parts of the schema."""
import hashlib, json, os, random, shutil, subprocess, tempfile, time, traceback
from concurrent.futures import ThreadPoolExecutor
import build as B
import genschema as G
import schema as S

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
NPROC = min(8, os.cpu_count() or 1)
RUNS = [('SHAPE', 1), ('P01', 160), ('P02', 160), ('P03', 160), ('P04', 80), ('P05', 80), ('P08', 80), ('P09', 80), ('P10', 80), ('P11', 80)]
RUNS_SVC = [('P14', 200)]
DIGESTS = 300
RUNS_OPT = [('SHAPE', 1), ('P01', 160), ('P02', 160), ('P09', 60), ('P10', 60), ('P11', 60)]


def log(*a):
    print(*a, flush=True)


class Invalid(RuntimeError):
    """not a valid schema: discarded"""


class Failure(Exception):
    def __init__(self, stage, text):
        Exception.__init__(self, stage)
        self.stage, self.text = stage, text


class Tools:
    def __init__(self, work):
        self.work = work
        self.bdir = B.build_dir('asan')
        j = {}
        for l in open(self.bdir + '/vp/genflags.txt'):
            k, v = l.rstrip('\n').split(' ', 1)
            if v and v not in j.setdefault(k, []):
                j[k].append(v)
        inc = [x for p in dict.fromkeys(j['inc'] + [HERE + '/harness']) for x in ('-I', p)]
        self.flags = inc + ['-DQT_CORE_LIB', '-DQT_QML_LIB', '-DQT_NETWORK_LIB', '-fPIC', '-std=gnu++14', '-w', '-O0']
        self.gen, self.moc, self.libs = j['gen'][0], j['moc'][0], j['lib']
        self.env = dict(B.env(), QT_QPA_PLATFORM='offscreen', QT_LOGGING_RULES='*.debug=false', XDG_RUNTIME_DIR='/tmp', LC_ALL='C.UTF-8',
                        ASAN_OPTIONS='detect_leaks=0:detect_container_overflow=0:allocator_may_return_null=0:max_allocation_size_mb=3000')
        self.env.pop('TSAN_OPTIONS', None)
        self.pch = {}

    def make_pch(self):
        """precompiled Qt headers: they do not depend on the schema"""
        d = self.work + '/pch'
        os.makedirs(d)
        for qml in (False, True):
            h = d + ('/pchq.h' if qml else '/pch.h')
            with open(h, 'w') as f:
                f.write('#include "bridge.h"\n#include <QMetaType>\n#include <QProtobufObject>\n#include <QProtobufLazyMessagePointer>\n#include <memory>\n#include <unordered_map>\n')
                if qml:
                    f.write('#include <QtQml/QQmlListProperty>\n#include <QQmlListPropertyConstructor>\n#include <QQmlEngine>\n#include <QJSEngine>\n#include <QJSValue>\n')
            self.pch[qml] = h
        def one(h):
            return self.run(['g++'] + self.flags + ['-x', 'c++-header', h, '-o', h + '.gch'], 300)
        with ThreadPoolExecutor(2) as p:
            for rc, out in p.map(one, self.pch.values()):
                if rc:
                    raise RuntimeError('precompiled header: ' + out[-3000:])

    def run(self, cmd, timeout, **env):
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=dict(self.env, **env), timeout=timeout, stdin=subprocess.DEVNULL)
            return p.returncode, p.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            return 'timeout', 'did not finish within %d s' % timeout


def options_text(opts):
    return ':'.join(opts) if opts else 'SINGLE'


def extra_ns(opts):
    for o in opts:
        if o.startswith('EXTRA_NAMESPACE='):
            return o.split('=', 1)[1].strip('"')
    return ''


def proto_path(f, opts):
    """with folder layout the .proto files lie in the folders of their packages"""
    return (f.package.replace('.', '/') + '/' if 'FOLDER' in opts and f.package else '') + f.name


def build_schema(t, schema, d, use_pch=True, runs=RUNS, services=False):
    """generates, compiles and links the schema in directory d; returns the executable"""
    opts = schema.get('opts', [])
    files = G.to_model(schema)
    src, out = d + '/proto', d + '/out'
    os.makedirs(src)
    os.makedirs(out)
    for f in files:
        p = '%s/%s.proto' % (src, proto_path(f, opts))
        os.makedirs(os.path.dirname(p), exist_ok=True)
        open(p, 'w').write(f.text(lambda g: proto_path(g, opts)))
    protos = ['%s/%s.proto' % (src, proto_path(f, opts)) for f in files]
    rc, o = t.run(['protoc', '-I' + src, '-o/dev/null'] + protos, 60)
    if rc:
        raise Invalid('the harness produced an invalid schema:\n' + o[:1000])
    groups = [protos] if 'MULTI' in opts else [[p] for p in protos]
    for g in groups:
        rc, o = t.run(['protoc', '--plugin=protoc-gen-qtprotobufgen=' + t.gen, '--qtprotobufgen_out=' + out, '-I' + src] + g, 60, QT_PROTOBUF_OPTIONS=options_text(opts))
        if rc:
            raise Failure('generator', 'the code generator failed (%s):\n%s' % (rc, o[-3000:]))
    heads, cpps = [], []
    for base, _, fs in os.walk(out):
        for x in sorted(fs):
            (heads if x.endswith('.h') else cpps if x.endswith('.cpp') else []).append(os.path.relpath(os.path.join(base, x), out))
    heads.sort()
    cpps.sort()
    qml = 'QML' in opts
    svc = [h for h in heads if h.endswith('_grpc.qpb.h') or h.endswith('client.h')]
    units = []
    for i, c in enumerate(cpps):
        h = c[:-4] + '.h'
        if h not in heads:
            raise Failure('generator', 'no header for ' + c)
        rc, o = t.run([t.moc, out + '/' + h, '-o', '%s/moc_%d.cpp' % (d, i)], 60)
        if rc:
            raise Failure('moc', o[-3000:])
        u = '%s/tu%d.cpp' % (d, i)
        open(u, 'w').write('#include "out/%s"\n#include "moc_%d.cpp"\n' % (c, i))
        units.append(u)
    if 'MULTI' in opts:
        inc = [h for h in heads if h not in svc]
    else:
        inc = ['%s.qpb.h' % proto_path(f, opts) for f in files if f.msgs or f.enums]
    text = S.emit_bridge(files, inc, 'vp', extra_ns(opts), qml=qml)
    text += emit_shape(files, opts, src, [proto_path(f, opts) + '.proto' for f in files])
    text += emit_services(files if services else [], opts, svc if services else [])
    open(d + '/bridge.cpp', 'w').write(text)
    units.append(d + '/bridge.cpp')
    objs = []
    pch = ['-include', t.pch[qml]] if use_pch else []
    for u in units:
        rc, o = t.run(['g++'] + t.flags + ['-I', out, '-I', d] + pch + ['-c', u, '-o', u[:-3] + 'o'], 300)
        if rc:
            errs = [l for l in o.splitlines() if 'error' in l]
            raise Failure('compile', '\n'.join(errs[:6]) + '\n' + o[:2500])
        objs.append(u[:-3] + 'o')
    rp = ','.join(sorted({os.path.dirname(l) for l in t.libs}))
    rc, o = t.run(['g++', '-fsanitize=address', '-rdynamic', '-o', d + '/exe'] + objs + t.libs + ['-Wl,-rpath,' + rp.replace(',', ':')], 120)
    if rc:
        raise Failure('link', o[-3000:])
    return d + '/exe'


def emit_shape(files, opts, src, names):
    extra = extra_ns(opts)
    o = ['#include "gencommon.h"', 'const char *vp_dir = "%s";' % src, 'const char *const vp_files[] = {%s, nullptr};' % ', '.join('"%s"' % n for n in names)]
    rows = []
    k = 0
    for f in files:
        for e in f.all_enums():
            if e.parent:
                if not emitted(e.parent):
                    continue
                owner = S.cpp_msg(e.parent, extra)
                ty = owner + '::' + S.up(e.name)
            else:
                parts = [p for p in ((extra + '.' if extra else '') + f.package).split('.') if p]
                owner = '::' + '::'.join(parts + [S.up(e.name) + 'Gadget'])
                ty = owner + '::' + S.up(e.name)
            o.append('static const ShapeEnum::Item items%d[] = {%s, {nullptr, 0}};' % (k, ', '.join('{"%s", %s}' % (S.up(n), cint(v)) for n, v in e.values)))
            rows.append('{&%s::staticMetaObject, "%s", items%d}' % (owner, S.up(e.name), k))
            for n, v in e.values:
                o.append('static_assert(%s::%s == %s, "enumerator value");' % (ty, S.up(n), cint(v)))
            k += 1
        if 'FIELDENUM' in opts:
            for m in f.all():
                for x in m.fields:
                    o.append('static_assert(int(%s::%sProtoFieldNumber) == %d, "field number");' % (S.cpp_msg(m, extra), S.up(S.prop(x.name)), x.number))
    o.append('const ShapeEnum vp_enums[] = {%s};' % ', '.join(rows + ['{nullptr, nullptr, nullptr}']))
    return '\n'.join(o) + '\n'


def emit_services(files, opts, headers):
    """table of the client methods"""
    extra = extra_ns(opts)
    o = ['#include "gencommon.h"'] + ['#include "%s"' % h for h in headers]
    rows = []
    for f in files:
        for name, methods in f.services:
            parts = [p for p in ((extra + '.' if extra else '') + f.package).split('.') if p]
            C = '::' + '::'.join(parts + [S.up(name) + 'Client'])
            for n, a, r, st in methods:
                A, R = S.cpp_msg(a, extra), S.cpp_msg(r, extra)
                cl = 'static_cast<%s *>(c)' % C
                arg = '*static_cast<%s *>(a)' % A
                ret = 'QPointer<%s>(static_cast<%s *>(r))' % (R, R)
                Q = 'QtProtobuf::'
                fs = ['[](QObject *p) -> %sQAbstractGrpcClient * { return new %s(p); }' % (Q, C)]
                if st:
                    fs += ['nullptr'] * 3
                    fs.append('[](%sQAbstractGrpcClient *c, QObject *a) { return %s->stream%s(%s); }' % (Q, cl, S.up(n), arg))
                    fs.append('[](%sQAbstractGrpcClient *c, QObject *a, QObject *r) { return %s->stream%s(%s, %s); }' % (Q, cl, S.up(n), arg, ret))
                else:
                    fs.append('[](%sQAbstractGrpcClient *c, QObject *a, QObject *r) { return %s->%s(%s, %s); }' % (Q, cl, n, arg, ret))
                    fs.append('[](%sQAbstractGrpcClient *c, QObject *a) { return %s->%s(%s); }' % (Q, cl, n, arg))
                    fs.append('[](%sQAbstractGrpcClient *c, QObject *a, const QObject *x, const std::function<void(%sQGrpcCallReplyShared)> &f) { %s->%s(%s, x, f); }' % (Q, Q, cl, n, arg))
                    fs += ['nullptr'] * 2
                fs.append('[](%sQGrpcAsyncOperationBase *b) -> QObject * { return new %s(b->read<%s>()); }' % (Q, R, R))
                rows.append('{"%s", "%s", "%s", "%s", %s, %s}' % ((f.package + '.' if f.package else '') + name, n, a.full(), r.full(), 'true' if st else 'false', ', '.join(fs)))
    o.append('const SvcMethod vp_methods[] = {%s};' % ',\n'.join(rows + ['{}']))
    return '\n'.join(o) + '\n'


def emitted(m):
    return True


def cint(v):
    return '(-2147483647 - 1)' if v == -2147483648 else str(v)


def run_schema(t, exe, d, runs, seed):
    stats = dict(evaluations=0, distinct=0, cases=0)
    for prop, n in runs:
        out = d + '/res.json'
        dig = dict(VP_DIGEST=d + '/digest') if prop == 'DIGEST' else {}
        rc, o = t.run([exe, '--prop', prop, '--seed', str(seed), '--cases', str(n), '--seconds', '600', '--min', str(n), '--shrink', '10', '--out', out], 900, **dig)
        if rc == 0:
            j = json.load(open(out))
            stats['evaluations'] += j['evaluations']
            stats['distinct'] += j['distinct']
            stats['cases'] += j['cases']
            if dig:
                stats['digest'] = open(d + '/digest').read().strip()
            continue
        msg = ''
        if rc == 3:
            j = json.load(open(out))
            msg = j.get('message', '') + '\n' + j.get('case', '')
        elif rc == 2:
            raise RuntimeError('harness: ' + o[-2000:])
        raise Failure('run ' + prop, '%s (exit %s)\n%s' % (msg, rc, o[-2500:]))
    return stats


def attempt(t, schema, tag, seed, use_pch=True, runs=RUNS, services=False, keep=False, base=False):
    """(None, stats) or (Failure, None); base: compare what is written with the code generated by default options"""
    if base:
        plain = dict(schema, opts=[])
        f, ref = attempt(t, plain, tag + 'd', seed, use_pch, [('DIGEST', DIGESTS)])
        if f:
            f.stage = 'default options, ' + f.stage
            return f, None
        f, st = attempt(t, schema, tag, seed, use_pch, runs + [('DIGEST', DIGESTS)], services, keep)
        if f:
            return f, None
        if st['digest'] != ref['digest']:
            return Failure('digest', 'the bytes written for %d random messages differ from those of the code generated with default options' % DIGESTS), None
        return None, st
    d = '%s/s_%s' % (t.work, tag)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    try:
        exe = build_schema(t, schema, d, use_pch, runs, services)
        return None, run_schema(t, exe, d, runs, seed)
    except Failure as f:
        return f, None
    finally:
        if not keep:
            shutil.rmtree(d, ignore_errors=True)


def describe(schema):
    s = ''
    opts = schema.get('opts', [])
    if opts:
        s += '// options: %s\n' % options_text(opts)
    for f in G.to_model(schema):
        s += '// ---- %s.proto\n%s' % (proto_path(f, opts), f.text(lambda g: proto_path(g, opts)))
    return s


def stats_of(schema):
    ms = G.all_msgs(schema)
    es = G.all_enums(schema)
    lab = {}
    def inc(k):
        lab[k] = lab.get(k, 0) + 1
    for n, m in ms.items():
        inc('messages')
        for f in m['fields']:
            k = 'message' if f['typ'] in ms else 'enum' if f['typ'] in es else 'scalar'
            inc('fields %s %s' % (f['card'], k))
    lab['enums'] = len(es)
    lab['files'] = len(schema['files'])
    return lab


def shrink(t, schema, fail, seed, budget, runs, services, base=False):
    t0 = time.time()
    best, bf = schema, fail
    n = 0
    improved = True
    with ThreadPoolExecutor(NPROC) as pool:
        while improved and time.time() - t0 < budget:
            improved = False
            cands = list(G.reductions(best))
            i = 0
            while i < len(cands) and time.time() - t0 < budget:
                grp = cands[i:i + NPROC]
                i += NPROC
                def go(kc):
                    try:
                        return attempt(t, kc[1], 'sh%d' % kc[0], seed, True, runs, services, base=base)
                    except RuntimeError:
                        return None, None
                res = list(pool.map(go, enumerate(grp)))
                hit = next(((c, f) for c, (f, _) in zip(grp, res) if f is not None and f.stage == bf.stage), None)
                n += len(grp)
                if hit:
                    best, bf = hit
                    improved = True
                    break
    return best, bf, n


def rand_opts(r, multi):
    o = [x for x in ('QML', 'COMMENTS', 'FIELDENUM') if r.random() < 0.5]
    if multi:
        o += ['MULTI', 'FOLDER']
    elif r.random() < 0.5:
        o.append('FOLDER')
    if r.random() < 0.5:
        ns = r.choice(['Extra', 'extra', 'Outer_space', 'X'])
        o.append('EXTRA_NAMESPACE=' + (ns if r.random() < 0.6 else '"%s"' % ns))
    if not multi and r.random() < 0.3:
        o.append('SINGLE')
    r.shuffle(o)
    return o


def make(pid, seed):
    """the case of one seed: schema (with its options), properties to run on it, services, comparison with default options"""
    r = random.Random('%s/%d' % (pid, seed))
    if pid == 'P12':
        s = G.rand_schema(r, {})
        s['opts'] = []
        return s, RUNS, False, False
    if pid == 'P13':
        multi = r.random() < 0.25
        s = G.rand_schema(r, dict(multi=True) if multi else {})
        s['opts'] = rand_opts(r, multi)
        return s, RUNS_OPT, False, True
    s = G.rand_schema(r, dict(services=True))
    s['opts'] = rand_opts(r, False) if r.random() < 0.4 else []
    return s, RUNS_SVC, True, False


def probe_k12a():
    """an enum declared inside a message, used by a class that is printed before that message's"""
    def fld(n, typ):
        return dict(name=n, number=1, card='one', comment=None, key=None, tail='', typ=typ)
    def msg(n, enums, msgs, fields):
        return dict(name=n, enums=enums, msgs=msgs, fields=fields, comment=None)
    e = dict(name='Kind', values=[['NONE', 0], ['SOME', 1]])
    return dict(opts=[], files=[dict(name='probe', package='pkprobe', imports=[], enums=[], services=[], msgs=[
        msg('Early', [], [], [fld('kind', 'pkprobe.Late.Kind')]), msg('Late', [e], [], [fld('kind', 'pkprobe.Late.Kind')])])])


def probe_k12b():
    """a message named like the entry type of a map field next to it"""
    def fld(n, num, typ, key=None):
        return dict(name=n, number=num, card='map' if key else 'one', comment=None, key=key, tail='', typ=typ)
    def msg(n, fields):
        return dict(name=n, enums=[], msgs=[], fields=fields, comment=None)
    return dict(opts=[], files=[dict(name='probe', package='pkprobe', imports=[], enums=[], services=[], msgs=[
        msg('NorthEntry', []), msg('Other', [fld('owner', 1, 'pkprobe.NorthEntry'), fld('north', 2, 'int32', 'fixed32')])])])


PROBES = {'K12b': lambda t: attempt(t, probe_k12b(), 'k12b', 1, runs=[('P02', 50)])[0],
          'K12a': lambda t: attempt(t, probe_k12a(), 'k12a', 1, runs=[('P02', 50)])[0]}

RULES = {
    'P12': 'one case = one random schema generated, compiled and put through the message, decoding and object properties with random values; a value is non-trivial by the rules of those properties (see P01-P11)',
    'P13': 'one case = one random schema with a random option set, next to the same schema with default options; non-trivial values by the rules of the message properties',
    'P14': 'one case = one random schema with services; one value = one call through a generated client; non-trivial: non-empty argument or response',
}


def run(pid, spec, tier, seed, replay):
    import run as R
    t0 = time.time()
    ok, why = B.build('asan', ['vp_gen'])
    if not ok:
        log('CHECK-ERROR: cannot build the tree under test with the harness:\n' + why[-6000:])
        return 2
    build_s = time.time() - t0
    work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        t = Tools(work)
        t.make_pch()
        if replay:
            j = json.load(open(replay))
            log(describe(j['schema']))
            f, st = attempt(t, j['schema'], 'replay', j['seed'], False, [tuple(x) for x in j['runs']], j['services'], base=j['base'])
            log('replay result: %s' % ('%s\n%s' % (f.stage, f.text) if f else 'held'))
            if f:
                log('VIOLATION property=%s replay=%s' % (pid, os.path.abspath(replay)))
            return 1 if f else 0
        return explore(t, R, pid, spec, tier, seed, t0, build_s)
    except RuntimeError as e:
        log('CHECK-ERROR: ' + str(e)[-4000:])
        return 2
    finally:
        shutil.rmtree(work, ignore_errors=True)


def explore(t, R, pid, spec, tier, seed, t0, build_s):
    cfg = spec[tier]
    start = time.time()
    tot = dict(schemas=0, evaluations=0, distinct=0, cases=0)
    labels, samples, unconfirmed, errors, invalid = {}, [], [], [], []
    failed = []

    def one(i):
        if failed or (i >= cfg['min'] and time.time() - start > cfg['seconds']):
            return None
        s, runs, svc, base = make(pid, seed * 1000003 + i)
        try:
            f, st = attempt(t, s, str(i), i, True, runs, svc, base=base)
        except Invalid as e:
            invalid.append(str(e))
            return None
        except Exception:
            errors.append(traceback.format_exc())
            return None
        if f:
            failed.append(i)
        return i, s, f, st
    with ThreadPoolExecutor(NPROC) as pool:
        res = [x for x in pool.map(one, range(cfg['cases'])) if x]
    violation = None
    for i, s, f, st in res:
        tot['schemas'] += 1
        for k, v in stats_of(s).items():
            labels[k] = labels.get(k, 0) + v
        for o in s.get('opts', []):
            k = 'option ' + o.split('=')[0]
            labels[k] = labels.get(k, 0) + 1
        if len(samples) < 4:
            samples.append(describe(s)[:3000])
        if not f:
            for k in ('evaluations', 'distinct', 'cases'):
                tot[k] += st[k]
            continue
        if violation:
            continue
        _, runs, svc, base = make(pid, seed * 1000003 + i)
        again = [attempt(t, s, 'conf', i, pch, runs, svc, base=base)[0] for pch in (False, True)]
        if not all(a and a.stage == f.stage for a in again):
            unconfirmed.append('schema %d: %s: %s' % (i, f.stage, f.text[:300]))
            continue
        s2, f2, n = shrink(t, s, f, i, cfg.get('shrink', 150), runs, svc, base)
        violation = dict(schema=s2, seed=i, runs=runs, services=svc, base=base, stage=f2.stage, message=f2.text[:4000], text=describe(s2), shrink_steps=n)
    entries = R.known_entries(pid)
    for kid, text in entries.items():
        if kid in PROBES and PROBES[kid](t):
            log('KNOWN-FINDING: property=%s %s' % (pid, text))
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': tot['evaluations'], 'distinct_nontrivial': tot['distinct'], 'rule': RULES[pid] + '. Distinct by content hash, counted per schema and property.', 'samples': samples,
                       'cases': tot['cases'], 'schemas': tot['schemas'], 'discarded': len(invalid), 'labels': labels, 'unconfirmed': unconfirmed, 'build_s': round(build_s, 1)},
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': 1 if violation else 0}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    log('%s [%s] schemas=%d cases=%d evaluations=%d distinct-nontrivial=%d build=%.0fs wall=%.0fs' % (pid, tier, tot['schemas'], tot['cases'], tot['evaluations'], tot['distinct'], build_s, wall))
    log('  ' + ', '.join('%s=%s' % kv for kv in sorted(labels.items())))
    for u in unconfirmed:
        log('  NOTE: a failure that did not reproduce was not reported: ' + u[:500])
    if violation:
        rp = os.path.join(ROOT, 'replays', '%s-%s.json' % (pid, hashlib.sha1(json.dumps(violation, sort_keys=True).encode()).hexdigest()[:10]))
        json.dump(violation, open(rp, 'w'), indent=1)
        log('  %s: %s\n%s' % (violation['stage'], violation['message'][:1500], violation['text'][:3000]))
        log('VIOLATION property=%s replay=%s' % (pid, rp))
        return 1
    if len(invalid) * 4 > tot['schemas'] + 8:
        errors.append(invalid[0])
    if errors:
        log('CHECK-ERROR: ' + errors[0][-3000:])
        return 2
    if not tot['schemas']:
        log('CHECK-ERROR: no schema was tried')
        return 2
    return 0
