"""Random proto3 schemas (JSON tree), their conversion to the schema.py model, and structural shrinking.

A schema is {'files': [{'name','package','imports':[index],'enums':[E],'msgs':[M],'services':[S]}], 'opts': [..]}
E = {'name','values':[[name,number]]}; M = {'name','enums','msgs','fields':[F],'comment'}
F = {'name','number','card','typ' (scalar or full name of a message/enum),'key','comment','tail'}
S = {'name','methods':[[name,arg full name,result full name,stream]]}"""
import copy
from schema import Enum, Field, Msg, File, SCALARS, KEYS, camel, prop, up

WORDS = ['alpha', 'beta', 'gamma', 'delta', 'omega', 'kilo', 'lima', 'mike', 'tango', 'zulu', 'red', 'blue', 'north', 'south', 'item', 'node', 'leaf', 'count', 'breadth', 'price', 'text', 'body',
         'head', 'rate', 'mass', 'unit', 'code', 'stamp', 'level', 'group', 'part', 'piece', 'block', 'chain', 'point', 'value', 'record', 'total', 'score', 'label', 'title', 'owner', 'size', 'shape']
RESERVED = ['import', 'property', 'id']


class Names:
    """identifiers that stay different after every renaming rule of the generator"""
    def __init__(self, rng):
        self.rng, self.used = rng, {}

    def fresh(self, make, scope, key=lambda n: n.lower().replace('_', ''), avoid=()):
        used = self.used.setdefault(scope, set())
        for _ in range(1000):
            n = make()
            k = key(n)
            if k not in used and not any(k in self.used.get(a, ()) for a in avoid):
                used.add(k)
                return n
        raise RuntimeError('no fresh name')


def field_name(r):
    k = r.random()
    a, b = r.choice(WORDS), r.choice(WORDS)
    if k < 0.06:
        return r.choice(RESERVED)
    if k < 0.35:
        return a
    if k < 0.55:
        return a + '_' + b
    if k < 0.65:
        return a + b.capitalize()
    if k < 0.72:
        return a.capitalize() + b.capitalize()
    if k < 0.78:
        return a + '_' + b.capitalize()
    if k < 0.84:
        return a + str(r.randrange(100))
    if k < 0.89:
        return a + '_' + str(r.randrange(10)) + '_' + b
    if k < 0.92:
        return a + '_'
    if k < 0.95:
        return a.upper()
    if k < 0.97:
        return r.choice('abcdefghijklmnopqrstuvwxyz')
    return a + '__' + b


def type_name(r):
    k = r.random()
    a, b = r.choice(WORDS), r.choice(WORDS)
    if k < 0.6:
        return a.capitalize() + b.capitalize()
    if k < 0.75:
        return a.capitalize()
    if k < 0.85:
        return a.capitalize() + '_' + b.capitalize()
    if k < 0.92:
        return a.capitalize() + str(r.randrange(1000))
    return a + b.capitalize()          # starts with a lower case letter


NUMBERS = [1, 2, 15, 16, 17, 100, 127, 128, 2047, 2048, 18999, 20000, 262143, 262144, 33554431, 33554432, 536870910, 536870911]


def number(r, used):
    while True:
        n = r.choice(NUMBERS) if r.random() < 0.3 else r.randrange(1, 40) if r.random() < 0.8 else r.randrange(1, 536870912)
        if n in used or 19000 <= n <= 19999:
            continue
        used.add(n)
        return n


def comment(r):
    k = r.random()
    if k < 0.6:
        return None
    parts = [r.choice(['Describes the ' + r.choice(WORDS), r.choice(WORDS), '! \\brief ' + r.choice(WORDS), '* doc', 'price in $', '$total$ amount', 'a */ b', 'a /* b', 'ends with \\', '"quoted" text', 'see // there', '#if 0', 'ünïcödé', '%s %d', 'a < b && c > d', 'R"(x', ''])
             for _ in range(1 if r.random() < 0.6 else r.randrange(2, 4))]
    return '\n'.join(parts)


class Builder:
    def __init__(self, r, cfg):
        self.r, self.cfg, self.n = r, cfg, Names(r)
        self.msgs, self.enums = [], []         # usable types: (full, file index, chain of enclosing full names)

    def enum(self, scope, fi, prefix):
        r = self.r
        name = self.n.fresh(lambda: type_name(r), prefix, avoid=(prefix + '#values',))
        vals, nums = [], set()
        pre = '' if r.random() < 0.4 else r.choice(WORDS).upper() + '_'
        for i in range(r.randrange(1, 7)):
            def mk():
                w = pre + r.choice(WORDS).upper() + ('' if r.random() < 0.7 else '_' + str(r.randrange(20)))
                k = r.random()
                return w.lower() if k < 0.08 else w.capitalize() if k < 0.16 else w
            vn = self.n.fresh(mk, prefix + '#values', avoid=(prefix,))
            num = 0 if i == 0 else r.choice([i, -i, 2147483647, -2147483648, r.randrange(-300, 300), r.randrange(-2**31, 2**31)])
            if num in nums and not (self.cfg.get('alias') and r.random() < 0.3):
                continue
            nums.add(num)
            vals.append([vn, num])
        full = prefix + name
        self.enums.append((full, fi))
        return dict(name=name, values=vals)

    def msg(self, fi, prefix, depth):
        r = self.r
        name = self.n.fresh(lambda: type_name(r), prefix, avoid=(prefix + '#values',))
        m = dict(name=name, enums=[], msgs=[], fields=[], comment=comment(r))
        full = prefix + name
        self.n.used.setdefault(full + '.', set()).add(name.lower().replace('_', ''))    # no member type named like the class
        if r.random() < 0.3:
            m['enums'] = [self.enum(None, fi, full + '.') for _ in range(r.randrange(1, 3))]
        if depth < 3 and r.random() < (0.35 if depth == 0 else 0.4):
            for _ in range(r.randrange(1, 3)):
                m['msgs'].append(self.msg(fi, full + '.', depth + 1))
        self.msgs.append((full, fi))
        return m

    def fill(self, m, fi, prefix, reach):
        """fields, once all types are known; reach: files whose types may be used"""
        r, cfg = self.r, self.cfg
        full = prefix + m['name']
        for c in m['msgs']:
            self.fill(c, fi, full + '.', reach)
        used = set()
        n = r.choice([0, 1, 2, 3, 4, 5, 6, 8]) if r.random() < 0.9 else 12
        order = self.order
        todo = []
        for c in m['msgs']:                    # nested messages are normally used by the message that declares them
            if r.random() < 0.85:
                todo.append(full + '.' + c['name'])
        for e in m['enums']:
            if r.random() < 0.85:
                todo.append(full + '.' + e['name'])
        r.shuffle(todo)
        for i in range(n + len(todo)):
            fn = self.n.fresh(lambda: field_name(r), full + '#fields', key=lambda x: camel(x).lower().replace('_', ''), avoid=(full + '.#values',))
            f = dict(name=fn, number=number(r, used), card='one', comment=comment(r), key=None, tail='')
            card = r.random()
            if i >= n:
                f['typ'] = todo[i - n]
            else:
                k = r.random()
                if k < 0.6:
                    f['typ'] = r.choice(SCALARS)
                elif k < 0.75 and self.enums_for(full, fi, reach):
                    f['typ'] = r.choice(self.enums_for(full, fi, reach))
                else:
                    c = self.msgs_for(full, fi, reach)
                    f['typ'] = r.choice(c) if c else r.choice(SCALARS)
            if card < 0.22:
                f['card'] = 'many'
            elif card < 0.36:
                f['card'], f['key'] = 'map', r.choice(KEYS)
            f = self.adjust(f, full)
            if f['card'] == 'many' and f['typ'] in SCALARS and f['typ'] not in ('string', 'bytes') and r.random() < 0.15:
                f['tail'] = ' [packed=false]'
            elif r.random() < 0.04:
                f['tail'] = ' [deprecated=true]'
            elif r.random() < 0.04:
                f['tail'] = ' [json_name="%s"]' % (r.choice(WORDS) + str(r.randrange(10000)))
            m['fields'].append(f)

    def adjust(self, f, full):
        """keeps the field inside the supported subset"""
        if f['card'] == 'many' and f['typ'] == 'bool':
            f['typ'] = 'int32'                 # no list type for bool in this library
        return f

    def enums_for(self, full, fi, reach):
        """an enum declared by a message can be named only by classes printed after the one that holds it (K12a)"""
        if self.cfg.get('multi'):
            owners = {x for x, _ in self.msgs}
            return [e for e, i in self.enums if i in reach and (e.rsplit('.', 1)[0] == full or e.rsplit('.', 1)[0] not in owners and full.rsplit('.', 1)[0] not in owners)]
        if self.cfg.get('any_enum'):
            return [e for e, i in self.enums if i in reach]
        pos = {x: n for n, (x, _) in enumerate(self.msgs)}

        def ok(e):
            owner = e.rsplit('.', 1)[0]
            if owner not in pos or owner == full or owner.startswith(full + '.'):
                return True
            top = owner
            while top.rsplit('.', 1)[0] in pos:
                top = top.rsplit('.', 1)[0]
            return pos[top] <= pos[full]
        return [e for e, i in self.enums if i in reach and (i != fi or ok(e))]

    def msgs_for(self, full, fi, reach):
        if self.cfg.get('multi'):
            """one header per top-level message: own nested messages and top-level messages declared before"""
            pos = {x: n for n, (x, _) in enumerate(self.msgs)}
            inner = full.rsplit('.', 1)[0] in pos
            return [x for x, i in self.msgs if i in reach and pos[x] < pos[full] and not (inner and x.rsplit('.', 1)[0] != full) and (x.rsplit('.', 1)[0] == full or x.rsplit('.', 1)[0] not in pos and not full.startswith(x + '.'))]
        return [x for x, i in self.msgs if i in reach]


def is_enum(schema, full):
    return full in all_enums(schema)


def walk(msgs, prefix):
    for m in msgs:
        yield from walk(m['msgs'], prefix + m['name'] + '.')
        yield prefix + m['name'], m


def pk(f):
    return f['package'] + '.' if f['package'] else ''


def all_msgs(schema):
    return {n: m for f in schema['files'] for n, m in walk(f['msgs'], pk(f))}


def all_enums(schema):
    o = {}
    for f in schema['files']:
        for e in f['enums']:
            o[pk(f) + e['name']] = e
        for n, m in walk(f['msgs'], pk(f)):
            for e in m['enums']:
                o[n + '.' + e['name']] = e
    return o


def break_cycles(schema):
    """a message never contains itself through singular fields (infinite value)"""
    ms = all_msgs(schema)
    for n, m in ms.items():
        for f in m['fields']:
            if f['card'] == 'one' and f['typ'] in ms:
                seen, stack = set(), [f['typ']]
                while stack:
                    x = stack.pop()
                    if x == n:
                        f['card'] = 'many'
                        break
                    if x in seen:
                        continue
                    seen.add(x)
                    stack += [g['typ'] for g in ms[x]['fields'] if g['card'] == 'one' and g['typ'] in ms]


def limit_size(schema):
    """keeps the number of singular sub-messages of one message small (all of them are always present) and shallow"""
    ms = all_msgs(schema)
    memo = {}

    def weigh(n):
        if n not in memo:
            w, h = 1, 0
            for f in ms[n]['fields']:
                if f['card'] == 'one' and f['typ'] in ms:
                    cw, ch = weigh(f['typ'])
                    if w + cw > 40 or ch + 1 > 4:
                        f['card'] = 'many'
                    else:
                        w, h = w + cw, max(h, ch + 1)
            memo[n] = (w, h)
        return memo[n]
    for n in ms:
        weigh(n)


def rand_schema(r, cfg):
    b = Builder(r, cfg)
    b.order = None
    nf = 1 if r.random() < 0.45 else 2 if r.random() < 0.8 else 3
    files = []
    fnames = Names(r)
    base = r.sample([w for w in WORDS], 6)
    for i in range(nf):
        k = r.random()
        if i and k < 0.3:
            package = files[r.randrange(i)]['package']       # several files in one package
        elif i and k < 0.5:
            package = files[0]['package'] + '.' + 'sub' + base[i]
        else:
            package = '.'.join(['pk' + base[i]] + ['q' + base[i] + str(j) for j in range(r.choice([0, 0, 1, 1, 2]))])
        if r.random() < 0.12:
            package = package.capitalize() if '.' not in package else package
        f = dict(name=fnames.fresh(lambda: r.choice(WORDS) + r.choice(['', '_' + r.choice(WORDS), str(r.randrange(100)), r.choice(WORDS).capitalize()]), 'f'), package=package, imports=[], enums=[], msgs=[], services=[])
        for j in range(i):
            if r.random() < 0.75:
                f['imports'].append(j)
        files.append(f)
    for i, f in enumerate(files):
        if r.random() < 0.55:
            f['enums'] = [b.enum(None, i, pk(f)) for _ in range(r.randrange(1, 3))]
        for _ in range(r.randrange(1, 4 if nf > 1 else 6)):
            f['msgs'].append(b.msg(i, pk(f), 0))
    for i, f in enumerate(files):
        for m in f['msgs']:
            b.fill(m, i, pk(f), set([i] + f['imports']))
    s = dict(files=files, opts=[])
    break_cycles(s)
    limit_size(s)
    if cfg.get('services'):
        for i, f in enumerate(files):
            if i < len(files) - 1 and r.random() < 0.5:
                continue
            avail = [x for x, j in b.msgs if j == i or j in f['imports']]
            for _ in range(r.choice([1, 1, 1, 2, 3])):
                sv = dict(name=b.n.fresh(lambda: type_name(r), pk(f), avoid=(pk(f) + '#values',)), methods=[])
                for _ in range(r.randrange(1, 7)):
                    def mk():
                        k, a, c = r.random(), r.choice(WORDS), r.choice(WORDS)
                        return a + c.capitalize() if k < 0.45 else a.capitalize() + c.capitalize() if k < 0.75 else a + '_' + c if k < 0.85 else a + c.capitalize() + str(r.randrange(10))
                    sv['methods'].append([b.n.fresh(mk, pk(f) + sv['name'] + '#m'), r.choice(avail), r.choice(avail), r.random() < 0.4])
                f['services'].append(sv)
    return s


# ---------------------------------------------------------------- model
def to_model(schema):
    files, objs = [], {}
    for fd in schema['files']:
        f = File(fd['name'], fd['package'])
        f.path = fd.get('path', fd['name'])
        for e in fd['enums']:
            objs[pk(fd) + e['name']] = f.enum(Enum(e['name'], [tuple(v) for v in e['values']]))

        def mk(m, prefix):
            x = Msg(m['name'], comment=m.get('comment'))
            for e in m['enums']:
                objs[prefix + m['name'] + '.' + e['name']] = x.enum(Enum(e['name'], [tuple(v) for v in e['values']]))
            for c in m['msgs']:
                x.nested(mk(c, prefix + m['name'] + '.'))
            objs[prefix + m['name']] = x
            return x
        for m in fd['msgs']:
            f.msg(mk(m, pk(fd)))
        files.append(f)
    for fd, f in zip(schema['files'], files):
        f.imports = [files[i] for i in fd['imports']]
        for n, m in walk(fd['msgs'], pk(fd)):
            for x in m['fields']:
                fo = Field(x['name'], x['number'], objs.get(x['typ'], x['typ']), x['card'], x['key'], x.get('comment'))
                fo.tail = x.get('tail', '')
                objs[n].add(fo)
        for s in fd['services']:
            f.services.append((s['name'], [(n, objs[a], objs[b], st) for n, a, b, st in s['methods']]))
    for f in files:
        f.fix()
    return files


# ---------------------------------------------------------------- shrinking
def prune(s):
    """drops what refers to something that no longer exists"""
    ms, es = all_msgs(s), all_enums(s)
    for n, m in ms.items():
        m['fields'] = [f for f in m['fields'] if f['typ'] in SCALARS or f['typ'] in ms or f['typ'] in es]
    for f in s['files']:
        for sv in f['services']:
            sv['methods'] = [x for x in sv['methods'] if x[1] in ms and x[2] in ms]
        f['services'] = [x for x in f['services'] if x['methods']]
    return s


def reductions(s):
    """smaller schemas, biggest steps first"""
    def cp():
        return copy.deepcopy(s)
    for i in range(len(s['files'])):
        if len(s['files']) > 1:
            c = cp()
            del c['files'][i]
            for f in c['files']:
                f['imports'] = [j - (j > i) for j in f['imports'] if j != i]
            yield prune(c)
    for o in range(len(s.get('opts', []))):
        c = cp()
        del c['opts'][o]
        yield c
    for i, f in enumerate(s['files']):
        for k in ('msgs', 'enums', 'services', 'imports'):
            for j in range(len(f[k])):
                c = cp()
                del c['files'][i][k][j]
                yield prune(c)
    names = sorted(all_msgs(s))
    for n in names:
        m = all_msgs(s)[n]
        for k in ('msgs', 'enums', 'fields'):
            for j in range(len(m[k])):
                c = cp()
                del all_msgs(c)[n][k][j]
                yield prune(c)
        if len(m['fields']) > 2:
            c = cp()
            all_msgs(c)[n]['fields'] = []
            yield prune(c)
    for i, f in enumerate(s['files']):
        for j, sv in enumerate(f['services']):
            for q in range(len(sv['methods'])):
                if len(sv['methods']) > 1:
                    c = cp()
                    del c['files'][i]['services'][j]['methods'][q]
                    yield c
    for n in sorted(all_enums(s)):
        e = all_enums(s)[n]
        for j in range(1, len(e['values'])):
            c = cp()
            del all_enums(c)[n]['values'][j]
            yield c
    for n in names:
        m = all_msgs(s)[n]
        if m.get('comment'):
            c = cp()
            all_msgs(c)[n]['comment'] = None
            yield c
        for j, f in enumerate(m['fields']):
            for ch in (dict(comment=None), dict(tail=''), dict(card='one', key=None), dict(typ='int32'), dict(number=next(x for x in range(1, 999) if x not in [g['number'] for g in m['fields']]))):
                if any(f.get(k) != v for k, v in ch.items()) and not ('number' in ch and f['number'] < ch['number']):
                    c = cp()
                    all_msgs(c)[n]['fields'][j].update(ch)
                    if 'card' in ch and f['typ'] in all_msgs(s):
                        before = copy.deepcopy(c)
                        break_cycles(c)
                        if c != before:
                            continue
                    yield c
