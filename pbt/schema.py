#!/usr/bin/env python3
"""Schema model: emits .proto text and the C++ bridge between the generated Qt classes and the
neutral value tree (val.h).  Used for the fixed harness schema and for randomly generated ones."""
import random

SCALARS = ['double', 'float', 'int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64',
           'sfixed32', 'sfixed64', 'bool', 'string', 'bytes']
KEYS = ['int32', 'int64', 'uint32', 'uint64', 'sint32', 'sint64', 'fixed32', 'fixed64', 'sfixed32', 'sfixed64', 'string']
RESERVED = ['import', 'property', 'id']


class Enum:
    def __init__(self, name, values, parent=None):
        self.name, self.values, self.parent, self.file = name, values, parent, None

    def full(self):
        if self.parent:
            return self.parent.full() + '.' + self.name
        return (self.file.package + '.' if self.file.package else '') + self.name

    def text(self, ind=''):
        s = f'{ind}enum {self.name} {{\n'
        if len({v for _, v in self.values}) != len(self.values):
            s += f'{ind}  option allow_alias = true;\n'
        for n, v in self.values:
            s += f'{ind}  {n} = {v};\n'
        return s + ind + '}\n'


def comment_text(c, ind):
    return ''.join(f'{ind}//{" " if l[:1] not in ("!", "*") else ""}{l}\n' for l in c.split('\n')) if c else ''


class Field:
    def __init__(self, name, number, typ, card='one', key=None, comment=None, oneof=None):
        self.name, self.number, self.typ, self.card, self.key, self.comment, self.oneof = name, number, typ, card, key, comment, oneof

    def tname(self):
        return self.typ if isinstance(self.typ, str) else '.' + self.typ.full() if self.typ.full().count('.') else self.typ.full()

    def text(self, ind):
        c = comment_text(self.comment, ind)
        tail = getattr(self, 'tail', '')
        if self.card == 'map':
            return c + f'{ind}map<{self.key}, {self.tname()}> {self.name} = {self.number}{tail};\n'
        rep = 'repeated ' if self.card == 'many' else ''
        return c + f'{ind}{rep}{self.tname()} {self.name} = {self.number}{tail};\n'


class Msg:
    def __init__(self, name, fields=None, parent=None, comment=None):
        self.name, self.fields, self.enums, self.msgs, self.parent, self.file = name, fields or [], [], [], parent, None
        self.comment = comment

    def full(self):
        if self.parent:
            return self.parent.full() + '.' + self.name
        return (self.file.package + '.' if self.file.package else '') + self.name

    def add(self, *fs):
        self.fields += fs
        return self

    def nested(self, m):
        m.parent = self
        self.msgs.append(m)
        return m

    def enum(self, e):
        e.parent = self
        self.enums.append(e)
        return e

    def walk(self):
        for m in self.msgs:
            yield from m.walk()
        yield self

    def text(self, ind=''):
        s = comment_text(self.comment, ind)
        s += f'{ind}message {self.name} {{\n'
        for e in self.enums:
            s += e.text(ind + '  ')
        for m in self.msgs:
            s += m.text(ind + '  ')
        for f in self.fields:
            s += f.text(ind + '  ')
        return s + ind + '}\n'


class File:
    def __init__(self, name, package):
        self.name, self.package, self.enums, self.msgs, self.imports, self.services = name, package, [], [], [], []

    def enum(self, e):
        e.file = self
        self.enums.append(e)
        return e

    def msg(self, m):
        m.file = self
        for x in m.walk():
            x.file = self
            for e in x.enums:
                e.file = self
        self.msgs.append(m)
        return m

    def fix(self):
        for m in self.msgs:
            for x in m.walk():
                x.file = self
                for e in x.enums:
                    e.file = self

    def all(self):
        self.fix()
        for m in self.msgs:
            yield from m.walk()

    def all_enums(self):
        self.fix()
        yield from self.enums
        for m in self.all():
            yield from m.enums

    def text(self, path=lambda f: f.name):
        self.fix()
        s = 'syntax = "proto3";\n'
        for i in self.imports:
            s += f'import "{path(i)}.proto";\n'
        if self.package:
            s += f'package {self.package};\n'
        for e in self.enums:
            s += e.text()
        for m in self.msgs:
            s += m.text()
        for n, methods in self.services:
            s += f'service {n} {{\n'
            for (mn, a, r, st) in methods:
                s += f'  rpc {mn}(.{a.full()}) returns ({"stream " if st else ""}.{r.full()}) {{}}\n'
            s += '}\n'
        return s


def up(n):
    return n[0].upper() + n[1:]


def camel(name):
    """FieldDescriptor::camelcase_name: first letter lower, letter after '_' upper, '_' dropped"""
    out, cap = '', False
    for c in name:
        if c == '_':
            cap = True
        else:
            out += c.upper() if cap else c
            cap = False
    return out[0].lower() + out[1:] if out else out


def prop(name):
    n = camel(name)
    return n + '_proto' if n in RESERVED else n


def cpp_msg(m, extra=''):
    ns = (extra + '.' if extra else '') + m.file.package
    parts = [p for p in ns.split('.') if p]
    chain, x = [], m
    while x:
        chain.insert(0, up(x.name))
        x = x.parent
    return '::' + '::'.join(parts + chain)


def kind_of(t):
    if isinstance(t, str):
        return t.upper()
    return 'ENUM' if isinstance(t, Enum) else 'MESSAGE'


def ident(m):
    return 'd_' + m.full().replace('.', '_')


ALIASED = ('int32', 'sfixed32', 'fixed32')     # QML sees these singular fields through an alias property


def emit_bridge(files, headers, regname, extra='', skip=(), qml=False):
    """C++ source: descriptors + Bridge<> specialisations + registration table"""
    msgs = [m for f in files for m in f.all()]
    enums = [e for f in files for e in f.all_enums()]
    o = ['#include "bridge.h"']
    o += [f'#include "{h}"' for h in headers]
    o.append('namespace vt {')
    o.append(f'namespace {regname}_ns {{')
    for e in enums:
        vals = []
        for _, v in e.values:
            if v not in vals:
                vals.append(v)
        o.append(f'static const EnumD e_{e.full().replace(".", "_")}{{"{e.full()}", {{{", ".join(map(str, vals))}}}}};')
    for m in msgs:
        o.append(f'extern const MsgD {ident(m)};')
    for m in msgs:
        fs = []
        for f in m.fields:
            k = kind_of(f.typ)
            key = f.key.upper() if f.card == 'map' else 'INT32'
            md = f'&{ident(f.typ)}' if k == 'MESSAGE' else 'nullptr'
            ed = f'&e_{f.typ.full().replace(".", "_")}' if k == 'ENUM' else 'nullptr'
            fs.append(f'    {{"{f.name}", {f.number}, {f.card.upper()}, {k}, {key}, {md}, {ed}}}')
        o.append(f'const MsgD {ident(m)}{{"{m.full()}", {{\n' + ',\n'.join(fs) + '\n}};')
    o.append('}')
    for m in msgs:
        t = cpp_msg(m, extra)
        o.append(f'template<> struct Bridge<{t}> {{')
        o.append(f'    static const MsgD &desc() {{ return {regname}_ns::{ident(m)}; }}')
        o.append(f'    static void get(const {t} &m, Val &v); static void set({t} &m, const Val &v);')
        o.append(f'    static void setField({t} &m, int i, const Val &v); static void getField(const {t} &m, int i, Val &v);')
        o.append(f'    static QByteArray notifySignal(int i); static const char *propertyName(int i);')
        o.append(f'    static bool setProp({t} &m, int i, const Val &v); static bool getProp(const {t} &m, int i, Val &v); static {t} *construct(int n, const Val &v);')
        o.append('};')
    for m in msgs:
        t = cpp_msg(m, extra)
        o.append(f'void Bridge<{t}>::getField(const {t} &m, int i, Val &v) {{ (void)m; (void)v; switch (i) {{')
        for i, f in enumerate(m.fields):
            o.append(f'    case {i}: readQt(m.{prop(f.name)}(), v); break;')
        o.append('    } }')
        o.append(f'void Bridge<{t}>::setField({t} &m, int i, const Val &v) {{ (void)m; (void)v; switch (i) {{')
        for i, f in enumerate(m.fields):
            o.append(f'    case {i}: {{ std::decay_t<decltype(std::declval<const {t} &>().{prop(f.name)}())> x{{}}; writeQt(v, x); m.set{up(prop(f.name))}(x); break; }}')
        o.append('    } }')
        dec = lambda f: f'std::decay_t<decltype(std::declval<const {t} &>().{prop(f.name)}())>'
        o.append(f'bool Bridge<{t}>::setProp({t} &m, int i, const Val &v) {{ (void)m; (void)v; switch (i) {{')
        for i, f in enumerate(m.fields):
            o.append(f'    case {i}: {{ {dec(f)} x{{}}; writeQt(v, x); return m.setProperty(propertyName({i}), toVar(x)); }}')
        o.append('    } return false; }')
        o.append(f'bool Bridge<{t}>::getProp(const {t} &m, int i, Val &v) {{ (void)m; (void)v; switch (i) {{')
        for i, f in enumerate(m.fields):
            o.append(f'    case {i}: return fromVar<{dec(f)}>(m.property(propertyName({i})), v);')
        o.append('    } return false; }')
        o.append(f'{t} *Bridge<{t}>::construct(int n, const Val &v) {{ (void)v; switch (n) {{')
        for k in ([1, len(m.fields)] if len(m.fields) > 1 else [1] if m.fields else []):
            args = ''
            for i, f in enumerate(m.fields[:k]):
                args += f' {dec(f)} a{i}{{}}; writeQt(v.items[{i}], a{i});'
            o.append(f'    case {k}: {{{args} return new {t}({", ".join("a%d" % i for i in range(k))}); }}')
        o.append(f'    }} return new {t}; }}')
        n = len(m.fields)
        o.append(f'void Bridge<{t}>::get(const {t} &m, Val &v) {{ v = Val(); v.items.resize({n}); for (int i = 0; i < {n}; ++i) getField(m, i, v.items[size_t(i)]); }}')
        o.append(f'void Bridge<{t}>::set({t} &m, const Val &v) {{ for (int i = 0; i < {n} && i < int(v.items.size()); ++i) setField(m, i, v.items[size_t(i)]); }}')
        o.append(f'QByteArray Bridge<{t}>::notifySignal(int i) {{ switch (i) {{')
        for i, f in enumerate(m.fields):
            o.append(f'    case {i}: return SIGNAL({prop(f.name)}Changed());')
        o.append('    } return {}; }')
        o.append(f'const char *Bridge<{t}>::propertyName(int i) {{ switch (i) {{')
        for i, f in enumerate(m.fields):
            data = f.card == 'many' and kind_of(f.typ) == 'MESSAGE'
            alias = qml and f.card == 'one' and f.typ in ALIASED
            o.append(f'    case {i}: return "{prop(f.name)}{"Data" if data else "_p" if alias else ""}";')
        o.append('    } return nullptr; }')
    o.append(f'void reg_{regname}(std::vector<QtOps> &v) {{')
    for m in msgs:
        if m.full() in skip:
            continue
        o.append(f'    v.push_back(makeOps<{cpp_msg(m, extra)}>());')
    o.append('}')
    o.append('}')
    return '\n'.join(o) + '\n'


def fixed_schema():
    ext = File('vpext', 'vp.ext')
    ee = ext.enum(Enum('ExtEnum', [('EXT_A', 0), ('EXT_B', 7), ('EXT_C', -7)]))
    el = ext.msg(Msg('ExtLeaf', [Field('num', 3, 'sint32'), Field('txt', 1, 'string')]))
    ext.msg(Msg('ExtHolder', [Field('leaf', 2, el), Field('en', 4, ee), Field('leaves', 40, el, 'many')]))

    f = File('vpmain', 'vp.main')
    f.imports.append(ext)
    color = f.enum(Enum('Color', [('RED', 0), ('GREEN', 1), ('BLUE', 2), ('NEG', -1), ('BIG', 2147483647), ('SMALL', -2147483648), ('MID', 300)]))
    mode = f.enum(Enum('Mode', [('MODE_OFF', 0), ('MODE_ON', 128), ('MODE_AUTO', 16384)]))
    empty = f.msg(Msg('Empty'))
    leaf = f.msg(Msg('Leaf', [Field('num', 1, 'int32'), Field('txt', 2, 'string'), Field('raw', 3, 'bytes'), Field('flag', 4, 'bool')]))
    nums = [1, 2, 3, 15, 16, 17, 31, 32, 127, 128, 2047, 2048, 262143, 262144, 536870911]
    sc = Msg('Scalars')
    for n, s in zip(nums, SCALARS):
        sc.add(Field('f' + up(s), n, s))
    f.msg(sc)
    se = Msg('ScalarsLow')       # the same kinds behind one-byte tags plus enums and sub-messages, declared out of order
    for n, s in zip(range(15, 0, -1), SCALARS):
        se.add(Field('v' + up(s), n, s))
    inner = se.enum(Enum('Kind', [('KIND_NONE', 0), ('KIND_X', 5), ('KIND_Y', 6)]))
    se.add(Field('color', 100, color), Field('kind', 16, inner), Field('mode', 17, mode), Field('leaf', 18, leaf), Field('ext', 33, el), Field('extEnum', 34, ee))
    f.msg(se)
    li = Msg('Lists')
    ln = [5, 4, 3, 2, 1, 20, 19, 18, 17, 16, 2048, 2049, None, 100, 101]
    for n, s in zip(ln, SCALARS):
        if s == 'bool':
            continue      # repeated bool has no Qt list type in this library
        li.add(Field('r' + up(s), n, s, 'many'))
    lk = li.enum(Enum('ListKind', [('LK_A', 0), ('LK_B', 1), ('LK_C', 200), ('LK_D', -5)]))
    li.add(Field('rColor', 50, color, 'many'), Field('rKind', 51, lk, 'many'), Field('rLeaf', 52, leaf, 'many'), Field('rEmpty', 53, empty, 'many'),
           Field('rExt', 54, el, 'many'), Field('rMode', 536870910, mode, 'many'))
    f.msg(li)
    mk = Msg('MapsByKey')
    for n, s in enumerate(KEYS):
        mk.add(Field('k' + up(s), n + 1, 'string', 'map', s))
    f.msg(mk)
    mv = Msg('MapsByValue')
    for n, s in enumerate(SCALARS):
        if s in ('bool',):
            pass
        mv.add(Field('m' + up(s), n + 1 if n % 2 == 0 else 1000 + n, s, 'map', 'sint32' if n % 2 else 'string'))
    mv.add(Field('mLeaf', 200, leaf, 'map', 'int32'), Field('mLeafStr', 201, leaf, 'map', 'string'), Field('mExt', 202, el, 'map', 'uint64'))
    f.msg(mv)
    mid = f.msg(Msg('Mid', [Field('leaf', 1, leaf), Field('low', 2, se), Field('leaves', 3, leaf, 'many'), Field('byName', 4, leaf, 'map', 'string'), Field('nums', 5, 'int32', 'many')]))
    f.msg(Msg('Outer', [Field('mid', 1, mid), Field('mids', 2, mid, 'many'), Field('tag', 3, 'string'), Field('midMap', 4, mid, 'map', 'int64'),
                        Field('lists', 5, li), Field('maps', 6, mv), Field('nothing', 7, empty)]))
    tree = Msg('Tree', [Field('name', 1, 'string'), Field('value', 2, 'sint64')])
    tree.file = f
    tree.add(Field('children', 3, tree, 'many'), Field('index', 4, tree, 'map', 'string'))
    f.msg(tree)
    nest = Msg('Nesting')
    n1 = nest.nested(Msg('Level1'))
    n2 = n1.nested(Msg('Level2', [Field('x', 1, 'int32'), Field('y', 2, 'string', 'many')]))
    n1.add(Field('deep', 1, n2), Field('deeps', 2, n2, 'many'), Field('z', 3, 'double'))
    ne = nest.enum(Enum('State', [('ST_A', 0), ('ST_B', 1), ('ST_C', 1000)]))
    nest.add(Field('one', 1, n1), Field('many', 2, n1, 'many'), Field('state', 3, ne), Field('states', 4, ne, 'many'), Field('byKey', 5, n1, 'map', 'sfixed64'))
    f.msg(nest)
    nm = Msg('Naming')       # naming rules of the generator
    for n, s in enumerate(['import', 'property', 'id', 'snake_case_field', 'UpperStart', 'mixed_Case_Field', 'x1', 'with_2_digits', 'trailing_']):
        nm.add(Field(s, n + 1, 'int32'))
    f.msg(nm)
    ext.fix()
    f.fix()
    return [ext, f]


def wkt_schema():
    """the google.protobuf well-known types, as model"""
    P = 'google.protobuf'
    F = {}

    def file(n, *imps):
        F[n] = File('google/protobuf/' + n, P)
        F[n].imports += imps
        return F[n]
    any_ = file('any').msg(Msg('Any', [Field('type_url', 1, 'string'), Field('value', 2, 'bytes')]))
    file('duration').msg(Msg('Duration', [Field('seconds', 1, 'int64'), Field('nanos', 2, 'int32')]))
    file('empty').msg(Msg('Empty'))
    file('field_mask').msg(Msg('FieldMask', [Field('paths', 1, 'string', 'many')]))
    sc = file('source_context').msg(Msg('SourceContext', [Field('file_name', 1, 'string')]))
    st = file('struct')
    nv = st.enum(Enum('NullValue', [('NULL_VALUE', 0)]))
    struct, value, lv = Msg('Struct'), Msg('Value'), Msg('ListValue')
    for m in (struct, value, lv):
        st.msg(m)
    struct.add(Field('fields', 1, value, 'map', 'string'))
    value.add(Field('null_value', 1, nv), Field('number_value', 2, 'double'), Field('string_value', 3, 'string'), Field('bool_value', 4, 'bool'), Field('struct_value', 5, struct), Field('list_value', 6, lv))
    lv.add(Field('values', 1, value, 'many'))
    file('timestamp').msg(Msg('Timestamp', [Field('seconds', 1, 'int64'), Field('nanos', 2, 'int32')]))
    w = file('wrappers')
    for n, t in (('Double', 'double'), ('Float', 'float'), ('Int64', 'int64'), ('UInt64', 'uint64'), ('Int32', 'int32'), ('UInt32', 'uint32'), ('Bool', 'bool'), ('String', 'string'), ('Bytes', 'bytes')):
        w.msg(Msg(n + 'Value', [Field('value', 1, t)]))
    ty = file('type')
    syn = ty.enum(Enum('Syntax', [('SYNTAX_PROTO2', 0), ('SYNTAX_PROTO3', 1)]))
    opt = ty.msg(Msg('Option', [Field('name', 1, 'string'), Field('value', 2, any_)]))
    fl = Msg('Field')
    kind = fl.enum(Enum('Kind', [('TYPE_UNKNOWN', 0)] + [('TYPE_%d' % i, i) for i in range(1, 19)]))
    card = fl.enum(Enum('Cardinality', [('CARDINALITY_UNKNOWN', 0), ('CARDINALITY_OPTIONAL', 1), ('CARDINALITY_REQUIRED', 2), ('CARDINALITY_REPEATED', 3)]))
    fl.add(Field('kind', 1, kind), Field('cardinality', 2, card), Field('number', 3, 'int32'), Field('name', 4, 'string'), Field('type_url', 6, 'string'), Field('oneof_index', 7, 'int32'),
           Field('packed', 8, 'bool'), Field('options', 9, opt, 'many'), Field('json_name', 10, 'string'), Field('default_value', 11, 'string'))
    ty.msg(fl)
    ev = ty.msg(Msg('EnumValue', [Field('name', 1, 'string'), Field('number', 2, 'int32'), Field('options', 3, opt, 'many')]))
    ty.msg(Msg('Type', [Field('name', 1, 'string'), Field('fields', 2, fl, 'many'), Field('oneofs', 3, 'string', 'many'), Field('options', 4, opt, 'many'), Field('source_context', 5, sc), Field('syntax', 6, syn)]))
    ty.msg(Msg('Enum', [Field('name', 1, 'string'), Field('enumvalue', 2, ev, 'many'), Field('options', 3, opt, 'many'), Field('source_context', 4, sc), Field('syntax', 5, syn)]))
    api = file('api')
    me = api.msg(Msg('Method', [Field('name', 1, 'string'), Field('request_type_url', 2, 'string'), Field('request_streaming', 3, 'bool'), Field('response_type_url', 4, 'string'), Field('response_streaming', 5, 'bool'),
                               Field('options', 6, opt, 'many'), Field('syntax', 7, syn)]))
    mi = api.msg(Msg('Mixin', [Field('name', 1, 'string'), Field('root', 2, 'string')]))
    api.msg(Msg('Api', [Field('name', 1, 'string'), Field('methods', 2, me, 'many'), Field('options', 3, opt, 'many'), Field('version', 4, 'string'), Field('source_context', 5, sc), Field('mixins', 6, mi, 'many'), Field('syntax', 7, syn)]))
    for f in F.values():
        f.fix()
    return list(F.values())


QT_TYPES = dict(core=['QUrl', 'QChar', 'QUuid', 'QTime', 'QDate', 'QDateTime', 'QSize', 'QSizeF', 'QPoint', 'QPointF', 'QRect', 'QRectF', 'QPolygon', 'QPolygonF'],
                gui=['QColor', 'QMatrix4x4', 'QVector2D', 'QVector3D', 'QVector4D', 'QTransform', 'QQuaternion', 'QImage'])


def qt_proto():
    s = 'syntax = "proto3";\nimport "QtProtobuf/QtCore.proto";\nimport "QtProtobuf/QtGui.proto";\npackage vp.qt;\n'
    n = 1
    for grp in ('core', 'gui'):
        for t in QT_TYPES[grp]:
            s += 'message M%s { int32 before = 1; QtProtobuf.%s v = %d; string after = %d; }\n' % (t, t, 2 + n * 7, 3 + n * 7)
            n += 1
        s += 'message %s {\n' % up(grp + 'All')
        for i, t in enumerate(QT_TYPES[grp]):
            s += '  QtProtobuf.%s f%s = %d;\n' % (t, t, i + 1)
        s += '}\n'
    return s


if __name__ == '__main__':
    import sys, os
    out = sys.argv[1]
    fs = fixed_schema()
    def put(p, t):
        if not os.path.exists(p) or open(p).read() != t:
            open(p, 'w').write(t)
    for x in fs:
        put(os.path.join(out, x.name + '.proto'), x.text())
    put(os.path.join(out, 'vp_bridge.cpp'), emit_bridge(fs, [x.name + '.qpb.h' for x in fs], 'vp'))
    ws = wkt_schema()
    put(os.path.join(out, 'wkt_bridge.cpp'), emit_bridge(ws, [x.name + '.qpb.h' for x in ws], 'wkt', qml=True))
    put(os.path.join(out, 'vpqt.proto'), qt_proto())
