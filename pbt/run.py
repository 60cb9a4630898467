#!/usr/bin/env python3
"""Runs the check of one property:  run.py <property> [--tier quick|thorough] [--replay FILE]

build from /repo's working tree -> sharded generated-input search -> shrink and confirm a failure ->
evidence file, KNOWN-FINDING / VIOLATION lines.  Exit 0: held on everything explored; 1: violation;
2: the check itself could not run (build failure, broken harness)."""
import argparse, importlib.util, json, os, struct, subprocess, sys, tempfile, time, shutil, hashlib, signal
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
sys.path.insert(0, HERE)
import build as B          # noqa: E402
from table import TABLE    # noqa: E402

NPROC = min(8, os.cpu_count() or 1)


def log(*a):
    print(*a, flush=True)


def run_env(spec):
    e = dict(os.environ)
    e['QT_QPA_PLATFORM'] = 'offscreen'
    e['QT_LOGGING_RULES'] = '*.debug=false'
    e['ASAN_OPTIONS'] = 'detect_leaks=%d:detect_container_overflow=0:abort_on_error=0:allocator_may_return_null=0:max_allocation_size_mb=3000:detect_stack_use_after_return=1' % (1 if spec.get('leaks') else 0)
    e['UBSAN_OPTIONS'] = 'print_stacktrace=1'
    e['TSAN_OPTIONS'] = 'halt_on_error=1:exitcode=66:second_deadlock_stack=1:suppressions=' + os.path.join(HERE, 'tsan.supp')
    e['LSAN_OPTIONS'] = 'suppressions=' + os.path.join(HERE, 'lsan.supp') + ':print_suppressions=0'
    e['XDG_RUNTIME_DIR'] = '/tmp'
    e.update(spec.get('env', {}))
    return e


def read_crumb(path):
    try:
        d = open(path, 'rb').read(24)
        case, active, n = struct.unpack('<QQQ', d)
        n = min(n, 1 << 17)
        with open(path, 'rb') as f:
            f.seek(24)
            return case, active, list(struct.unpack('<%dQ' % n, f.read(8 * n)))
    except Exception:
        return 0, 0, []


class Search:
    def __init__(self, pid, spec, tier, seed, work):
        self.pid, self.spec, self.tier, self.seed, self.work = pid, spec, tier, seed, work
        self.exe = os.path.join(B.build_dir(spec.get('flavour', 'asan')), spec['exe'])
        self.env = run_env(spec)
        self.case_timeout = spec.get('case_timeout', 60)

    def shard(self, i, cases, seconds, minc):
        out, crumb = f'{self.work}/out{i}.json', f'{self.work}/crumb{i}'
        cmd = [self.exe, '--prop', self.spec.get('prop', self.pid), '--seed', str(self.seed), '--first', str(i * 10000000), '--cases', str(cases),
               '--seconds', str(seconds), '--min', str(minc), '--crumb', crumb, '--out', out, '--shrink', '25']
        with open(f'{self.work}/err{i}', 'wb') as err:
            try:
                rc = subprocess.run(cmd, stdout=err, stderr=subprocess.STDOUT, env=self.env, cwd=self.work, timeout=seconds * 2 + 240).returncode
            except subprocess.TimeoutExpired:
                rc = 'timeout'
        return i, rc, out, crumb, f'{self.work}/err{i}'

    def replay(self, choices, tag, repeat=None):
        f = f'{self.work}/rep_{tag}'
        with open(f, 'w') as o:
            o.write(' '.join(map(str, choices)))
        return self.replay_file(f, tag, repeat)

    def replay_file(self, f, tag, repeat=None):
        cmd = [self.exe, '--prop', self.spec.get('prop', self.pid), '--replay', f, '--out', f'{self.work}/rec_{tag}', '-v',
               '--repeat', str(repeat or self.spec.get('repeat', 1))]
        try:
            p = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, env=self.env, cwd=self.work, timeout=self.case_timeout * 3)
            return p.returncode, p.stdout.decode('utf8', 'replace')
        except subprocess.TimeoutExpired:
            return 'timeout', 'replay did not finish'

    def shrink(self, choices, budget=75):
        t0 = time.time()
        best = list(choices)
        while best and best[-1] == 0:
            best.pop()
        pool = ThreadPoolExecutor(NPROC)

        def failing(c, k):
            rc, _ = self.replay(c, f'sh{k}')
            return rc != 0 and rc != 2

        def first_failing(cands):
            for g in range(0, len(cands), NPROC):
                if time.time() - t0 > budget:
                    return None
                grp = cands[g:g + NPROC]
                for c, ok in zip(grp, pool.map(lambda kc: failing(kc[1], kc[0]), enumerate(grp))):
                    if ok:
                        return c
            return None

        changed = True
        while changed and time.time() - t0 < budget:
            changed = False
            size = len(best)
            while size >= 1 and time.time() - t0 < budget:
                cands = [best[:i] + best[i + size:] for i in range(0, len(best) - size + 1, max(1, size // 2))]
                c = first_failing(cands)
                if c is not None:
                    best, changed = c, True
                    size = min(size, len(best))
                else:
                    size = size // 2 if size > 1 else 0
            for i in range(len(best)):
                if best[i] and time.time() - t0 < budget:
                    for v in (0, 1, best[i] // 2, best[i] - 1):
                        if v < best[i]:
                            c = first_failing([best[:i] + [v] + best[i + 1:]])
                            if c is not None:
                                best, changed = c, True
                                break
        pool.shutdown()
        return best

    def known(self):
        p = subprocess.run([self.exe, '--prop', self.spec.get('prop', self.pid), '--known'], stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, env=self.env, cwd=self.work, timeout=300)
        res = {}
        for l in p.stdout.decode('utf8', 'replace').splitlines():
            if l.startswith('KNOWN '):
                _, kid, state = l.split(' ', 2)
                res[kid] = state
        return res


def known_entries(pid):
    """lines 'finding: property=P.. id=K.. text' of the committed file"""
    out = {}
    p = os.path.join(ROOT, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('finding: property=%s ' % pid):
                rest = l.strip().split(' ', 3)
                out[rest[2].split('=', 1)[1]] = rest[3]
    return out


def merge(outs, spec):
    tot = dict(cases=0, discarded=0, evaluations=0, nontrivial=0, distinct=0)
    labels, samples, rule = {}, [], ''
    for o in outs:
        for k in tot:
            tot[k] += o.get(k, 0)
        for k, v in o.get('labels', {}).items():
            labels[k] = labels.get(k, 0) + v
        samples += o.get('samples', [])
        rule = o.get('rule', rule)
    return tot, labels, samples, rule


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('pid')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER', 'quick'))
    ap.add_argument('--replay')
    ap.add_argument('--nobuild', action='store_true')
    a = ap.parse_args()
    tier = a.tier if a.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    pid, spec = a.pid, TABLE[a.pid]
    t0 = time.time()
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)

    if spec.get('script'):
        m = importlib.import_module(spec['script'])
        return m.run(pid, spec, tier, seed, a.replay)

    if not a.nobuild:
        want = {}
        for part in parts(spec):
            want.setdefault(part.get('flavour', 'asan'), []).append(part['exe'])
        for flavour, targets in want.items():
            ok, why = B.build(flavour, sorted(set(targets)))
            if not ok:
                log('CHECK-ERROR: cannot build the tree under test with the harness:\n' + why[-6000:])
                return 2
    build_s = time.time() - t0
    work = tempfile.mkdtemp(prefix='vp_%s_' % pid)
    try:
        return search(pid, spec, tier, seed, a.replay, work, t0, build_s)
    finally:
        shutil.rmtree(work, ignore_errors=True)


def parts(spec):
    """a check may consist of several searches, each with an executable of its own"""
    return [spec] + [dict(x) for x in spec.get('also', [])]


def search(pid, spec, tier, seed, replay, work, t0, build_s):
    ps = parts(spec)
    if replay:
        f = os.path.abspath(replay)
        first = open(f).read()
        n = 0
        for l in first.splitlines():
            if l.startswith('# part '):
                n = int(l.split()[2])
        s = Search(pid, ps[n], tier, seed, work)
        body = '\n'.join(l for l in first.splitlines() if not l.startswith('#'))
        if body.startswith('SHARD '):
            _, i, cases = body.split()[:3]
            i, rc, out, crumb, err = s.shard(int(i), int(cases), 3600, int(cases))
            log(open(err, errors='replace').read()[-3000:])
        else:
            open(work + '/in', 'w').write(body)
            rc, txt = s.replay_file(work + '/in', 'r')
            log(txt[-6000:])
        log('replay result', rc)
        if rc not in (0, 2):
            log(f'VIOLATION property={pid} replay={f}')
            return 1
        return 0
    outs, unconfirmed, violation, harness_error, rules, nshards, empty, known = [], [], None, None, [], 0, False, {}
    entries = known_entries(pid)
    for n, part in enumerate(ps):
        w = os.path.join(work, 'part%d' % n)
        os.makedirs(w)
        s = Search(pid, part, tier, seed, w)
        o, v, u, h, k = explore(s, part, tier)
        outs += o
        unconfirmed += u
        harness_error = harness_error or h
        empty = empty or not o
        nshards += k
        rules.append((part.get('how', '') + ' ' if part.get('how') else '') + 'Non-trivial: ' + (o[0].get('rule', '') if o else ''))
        if entries:
            known.update({a: b for a, b in s.known().items() if b.startswith('fails')})
        if v:
            violation = dict(v, part=n)
            break
    return report(pid, spec, tier, seed, t0, build_s, outs, unconfirmed, violation, harness_error, rules, nshards, empty, entries, known)


def explore(s, spec, tier):
    pid = s.pid
    cfg = spec[tier]
    nshards = spec.get('shards', NPROC)
    per = max(1, cfg['cases'] // nshards)
    with ThreadPoolExecutor(nshards) as pool:
        res = list(pool.map(lambda i: s.shard(i, per, cfg['seconds'], min(per, cfg.get('min', cfg['cases'] // 6) // nshards or 1)), range(nshards)))
    outs, violation, unconfirmed = [], None, []
    harness_error = None
    for i, rc, out, crumb, err in res:
        js = None
        if os.path.exists(out):
            try:
                js = json.load(open(out))
            except Exception:
                js = None
        if js is not None:
            outs.append(js)
        if rc == 0 and js is not None:
            continue
        tail = open(err, errors='replace').read()[-12000:]
        if rc == 2:
            harness_error = tail
            continue
        if violation:
            continue
        if rc == 3 and js is not None:
            choices, msg, case, crash = js.get('choices', []), js.get('message', ''), js.get('case', ''), False
        else:
            _, _, choices = read_crumb(crumb)
            kind = 'hang' if rc in (5, 'timeout') else 'crash / sanitizer report'
            msg, case, crash = f'{kind} (exit {rc})', '', True
        rcs = [s.replay(choices, 'conf')[0] for _ in range(1)]
        if rcs[0] in (0, 2):
            # not reproduced from the choices alone: is it a matter of the whole run up to it?
            again = [s.shard(i, per, cfg['seconds'], 1)[1] for _ in range(2)]
            if all(x not in (0, 2) for x in again):
                violation = dict(kind='shard', shard=i, per=per, msg=msg, case=case, tail=tail)
            else:
                unconfirmed.append(f'shard {i}: {msg}')
            continue
        if crash:
            choices = s.shrink(choices, spec.get('shrink_budget', 75))
        good = 0
        txt = ''
        for _ in range(3):
            r, tx = s.replay(choices, 'conf')
            if r not in (0, 2):
                good += 1
                txt = tx
        need = 3 if not spec.get('racy') else 2
        if good >= need:
            violation = dict(kind='choices', choices=choices, msg=msg, case=case, tail=(txt or tail)[-9000:])
        else:
            unconfirmed.append(f'shard {i}: {msg}')
    return outs, violation, unconfirmed, harness_error, nshards


def report(pid, spec, tier, seed, t0, build_s, outs, unconfirmed, violation, harness_error, rules, nshards, empty, entries, known):
    tot, labels, samples, rule = merge(outs, spec)
    if len(rules) > 1:          # samples of every part
        samples = samples[:5] + samples[-5:]
    rule = ' | '.join(rules)
    for kid, text in entries.items():
        if kid in known:
            log(f'KNOWN-FINDING: property={pid} {text}')
    wall = time.time() - t0
    ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': 'exploration',
          'coverage': {'evaluations': tot['evaluations'], 'distinct_nontrivial': tot['distinct'], 'rule': rule + '. Distinct by content hash, counted per shard.',
                       'samples': samples[:10], 'cases': tot['cases'], 'discarded': tot['discarded'], 'labels': labels, 'shards': nshards,
                       'unconfirmed': unconfirmed, 'build_s': round(build_s, 1)},
          'assumptions': spec.get('assumptions', []), 'wall_s': round(wall, 2), 'violations': 1 if violation else 0}
    json.dump(ev, open(os.path.join(ROOT, 'evidence', pid + '.json'), 'w'), indent=1)
    log(f'{pid} [{tier}] cases={tot["cases"]} evaluations={tot["evaluations"]} distinct-nontrivial={tot["distinct"]} discarded={tot["discarded"]} build={build_s:.0f}s wall={wall:.0f}s')
    if labels:
        log('  ' + ', '.join(f'{k}={v}' for k, v in sorted(labels.items())))
    for u in unconfirmed:
        log('  NOTE: a failure that did not reproduce was not reported: ' + u[:500])
    if violation:
        rp = os.path.join(ROOT, 'replays', '%s-%s.txt' % (pid, hashlib.sha1(json.dumps(violation, sort_keys=True).encode()).hexdigest()[:10]))
        with open(rp, 'w') as f:
            f.write('# part %d\n' % violation['part'])
            if violation['kind'] == 'shard':
                f.write('SHARD %d %d\n# seed %d: %s\n' % (violation['shard'], violation['per'], seed, violation['msg'][:500]))
            else:
                f.write('# %s: replay with  python3 pbt/run.py %s --replay <this file>\n' % (pid, pid))
                for l in (violation['msg'] + '\n' + violation['case']).splitlines():
                    f.write('# ' + l[:2000] + '\n')
                f.write(' '.join(map(str, violation['choices'])) + '\n')
                for l in violation['tail'].splitlines()[:60]:
                    f.write('# ' + l[:600] + '\n')
        log('  ' + violation['msg'][:1500])
        if violation['kind'] == 'choices':
            log('  ' + violation['tail'][:2500])
        log(f'VIOLATION property={pid} replay={rp}')
        return 1
    if harness_error:
        log('CHECK-ERROR: ' + harness_error[-3000:])
        return 2
    if empty:
        log('CHECK-ERROR: no shard produced a result')
        return 2
    return 0


if __name__ == '__main__':
    sys.exit(main())
