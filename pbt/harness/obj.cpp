// Properties of message objects: value semantics, change notification, ownership, property system
#include "common.h"
#include <QMetaProperty>
#include <QPointer>
#include <QtProtobufTypes>
#include <qprotobufmetaobject.h>
#include <algorithm>
using namespace vt;
using namespace pbt;

extern "C++" {
extern Q_CORE_EXPORT quintptr qtHookData[];      // QtCore's object life-cycle hooks (used by GammaRay)
}
static long g_live = 0;
static void onAdd(QObject *) { ++g_live; }
static void onRemove(QObject *) { --g_live; }

static Val norm(const MsgD &d, Val v) { normalize(d, v); return v; }
static GenOpts small(Src &s, const MsgD &d) {
    GenOpts g = pickOpts(s, d);
    g.nan = false;
    g.depth = 1 + int(s.draw(2));
    if (g.fill > 50) g.fill = 45;
    return g;
}
static std::string fieldName(const MsgD &d, int i) { return d.fields[size_t(i)].name; }

// ---------------------------------------------------------------- P08
namespace {
struct Pool {
    const QtOps &o;
    std::vector<QObject *> p;
    std::vector<Val> m;
    explicit Pool(const QtOps &ops) : o(ops) {}
    ~Pool() { for (auto x : p) if (x) o.destroy(x); }
};
}
static void p08(Ctx &c) {
    Src &s = c.src;
    const QtOps &o = pickOps(s);
    const MsgD &d = *o.d;
    GenOpts g = small(s, d);
    const size_t N = 4;
    Pool pool(o);
    for (size_t i = 0; i < N; ++i) {
        pool.p.push_back(o.make());
        pool.m.push_back(defaultVal(d));
    }
    std::string log = std::string(d.full) + ":";
    int shared = 0, after = 0;
    auto check = [&](const char *what) {
        for (size_t i = 0; i < N; ++i) {
            Val v;
            o.get(pool.p[i], v);
            v = norm(d, v);
            if (v != pool.m[i]) fail(std::string("after ") + what + " object " + std::to_string(i) + " holds a wrong value (expected vs actual): " + diff(d, pool.m[i], v) + " history " + log);
            ++c.evals;
        }
        for (size_t i = 0; i < N; ++i)
            for (size_t j = 0; j < N; ++j) {
                bool want = pool.m[i] == pool.m[j];
                if (o.eq(pool.p[i], pool.p[j]) != want) fail(std::string("equality of objects ") + std::to_string(i) + "," + std::to_string(j) + " should be " + (want ? "true" : "false: " + diff(d, pool.m[i], pool.m[j])) + " after " + what + " history " + log);
                if (o.ne(pool.p[i], pool.p[j]) == want) fail("inequality operator disagrees with equality, history " + log);
            }
    };
    check("construction");
    int steps = 3 + int(s.draw(14));
    for (int k = 0; k < steps; ++k) {
        size_t i = s.draw(N), j = s.draw(N);
        std::string w;
        // 0 simplest
        switch (s.draw(11)) {
        case 0: case 1: case 2: {          // change one field
            if (d.fields.empty()) break;
            int f = int(s.draw(d.fields.size()));
            Val v = genField(s, d.fields[size_t(f)], g);
            o.setField(pool.p[i], f, v);
            pool.m[i].items[size_t(f)] = v;
            pool.m[i] = norm(d, pool.m[i]);
            w = "set " + fieldName(d, f) + " of " + std::to_string(i);
            if (shared) ++after;
            break;
        }
        case 3: {                          // copy construction
            if (i == j) break;
            QObject *n = o.copy(pool.p[i]);
            o.destroy(pool.p[j]);
            pool.p[j] = n;
            pool.m[j] = pool.m[i];
            w = "copy-construct " + std::to_string(j) + " from " + std::to_string(i);
            ++shared;
            break;
        }
        case 4: case 5: {                  // copy assignment, self included
            o.assign(pool.p[j], pool.p[i]);
            pool.m[j] = pool.m[i];
            w = "assign " + std::to_string(j) + " = " + std::to_string(i);
            ++shared;
            break;
        }
        case 6: case 7: {                  // move construction / assignment, then reuse of the moved-from object
            if (i == j) break;
            bool ctor = s.chance(1, 2);
            if (ctor) {
                QObject *n = o.moveNew(pool.p[i]);
                o.destroy(pool.p[j]);
                pool.p[j] = n;
            } else {
                o.moveAssign(pool.p[j], pool.p[i]);
            }
            pool.m[j] = pool.m[i];
            w = std::string(ctor ? "move-construct " : "move-assign ") + std::to_string(j) + " from " + std::to_string(i);
            Val v;
            o.get(pool.p[i], v);           // must be readable
            switch (s.draw(3)) {
            case 0: {                      // reuse: set every field
                Val n = genMsg(s, d, g);
                o.set(pool.p[i], n);
                pool.m[i] = norm(d, n);
                w += ", reuse by setting all fields";
                break;
            }
            case 1: {                      // reuse: assign
                size_t q = s.draw(N);
                if (q == i) q = (q + 1) % N;
                o.assign(pool.p[i], pool.p[q]);
                pool.m[i] = pool.m[q];
                w += ", reuse by assigning from " + std::to_string(q);
                break;
            }
            default: {                     // reuse: decode
                Val n = genMsg(s, d, g);
                o.des(pool.p[i], ser(), qba(encMsg(d, n)));
                pool.m[i] = norm(d, n);
                w += ", reuse by decoding";
            }
            }
            ++shared;
            break;
        }
        case 8: {                          // decode
            Val n = genMsg(s, d, g);
            o.des(pool.p[i], ser(), qba(encMsg(d, n)));
            pool.m[i] = norm(d, n);
            w = "decode into " + std::to_string(i);
            break;
        }
        case 9: {                          // change a nested message in place
            std::vector<int> cand;
            for (size_t f = 0; f < d.fields.size(); ++f) if (d.fields[f].kind == MESSAGE && d.fields[f].card == ONE && !d.fields[f].msg->fields.empty()) cand.push_back(int(f));
            if (cand.empty()) break;
            int f = cand[s.draw(cand.size())];
            const MsgD &nd = *d.fields[size_t(f)].msg;
            const QtOps *no = opsFor(&nd);
            QObject *np = pool.p[i]->property(o.propertyName(f)).value<QObject *>();
            if (!no || !np) fail("nested message is not reachable through its property: " + fieldName(d, f));
            int nf = int(s.draw(nd.fields.size()));
            Val v = genField(s, nd.fields[size_t(nf)], g);
            no->setField(np, nf, v);
            pool.m[i].items[size_t(f)].items[size_t(nf)] = v;
            pool.m[i] = norm(d, pool.m[i]);
            w = "set " + fieldName(d, f) + "." + fieldName(nd, nf) + " of " + std::to_string(i);
            if (shared) ++after;
            break;
        }
        default: {                         // destroy and recreate
            o.destroy(pool.p[i]);
            pool.p[i] = o.make();
            pool.m[i] = defaultVal(d);
            w = "recreate " + std::to_string(i);
        }
        }
        if (w.empty()) continue;
        log += " " + w + ";";
        check(w.c_str());
    }
    c.describe = log;
    c.hash = hashStr(log);
    for (auto &m : pool.m) c.hash = hashStr(show(d, m), c.hash);
    c.nontrivial = shared > 0 && after > 0;
}
static Reg r08({"P08", "history in which a copy, move or assignment happens and an object is changed afterwards", p08, 30, commonInit, {}, {}});

// ---------------------------------------------------------------- P09
namespace {
// receives every change signal of one object without needing moc
class Recorder : public QObject {
public:
    const QtOps &o;
    QObject *obj;
    std::vector<std::pair<int, Val>> hits;     // field, value of that field when the signal arrived
    Recorder(const QtOps &ops, QObject *x) : o(ops), obj(x) {
        for (int i = 0; i < int(o.d->fields.size()); ++i) {
            QByteArray sig = o.notifySignal(i).mid(1);
            int idx = o.meta->indexOfSignal(sig.constData());
            if (idx < 0) fail("message has no change signal " + std::string(sig.constData()));
            QMetaObject::connect(obj, idx, this, QObject::staticMetaObject.methodCount() + i, Qt::DirectConnection, nullptr);
        }
    }
    int qt_metacall(QMetaObject::Call call, int id, void **a) override {
        id = QObject::qt_metacall(call, id, a);
        if (id < 0) return id;
        if (call == QMetaObject::InvokeMetaMethod) {
            Val v;
            o.getField(obj, id, v);
            hits.emplace_back(id, v);
        }
        return -1;
    }
};
bool msgContainer(const FieldD &f) { return f.kind == MESSAGE && f.card != ONE; }
}
static Val normField(const MsgD &d, int f, const Val &v) {
    Val m = defaultVal(d);
    m.items[size_t(f)] = v;
    normalize(d, m);
    return m.items[size_t(f)];
}
static void p09(Ctx &c) {
    Src &s = c.src;
    const QtOps &o = pickOps(s);
    const MsgD &d = *o.d;
    if (d.fields.empty()) throw Discard{};
    GenOpts g = small(s, d);
    Obj x(o);
    Val model = defaultVal(d);
    if (s.chance(1, 2)) {
        Val v = genMsg(s, d, g);
        o.set(x.p, v);
        model = norm(d, v);
    }
    bool peek = s.chance(1, 2);          // otherwise the object is only read at the end: sub-messages that were never touched stay so
    Recorder rec(o, x.p);
    std::string log = std::string(d.full) + ":";
    int changes = 0;
    int steps = 1 + int(s.draw(10));
    for (int k = 0; k < steps; ++k) {
        Val before = model;
        rec.hits.clear();
        std::vector<int> exact(d.fields.size(), 0);        // 0/1 expected count; -1: either (same content, new handle)
        std::vector<Val> want(d.fields.size());
        for (size_t i = 0; i < d.fields.size(); ++i) want[i] = before.items[i];
        std::string w;
        int how = int(s.draw(5));
        if (how <= 2) {
            int f = int(s.draw(d.fields.size()));
            const FieldD &fd = d.fields[size_t(f)];
            Val v = s.chance(1, 4) ? before.items[size_t(f)] : normField(d, f, genField(s, fd, g));
            bool diffv = v != before.items[size_t(f)];
            want[size_t(f)] = v;
            if (how == 2) {
                if (!o.setProp(x.p, f, v)) fail("property " + std::string(o.propertyName(f)) + " is not writable");
                exact[size_t(f)] = diffv ? 1 : (fd.kind == MESSAGE ? -1 : 0);
                w = "setProperty " + fieldName(d, f);
            } else {
                o.setField(x.p, f, v);
                exact[size_t(f)] = diffv ? 1 : (msgContainer(fd) ? -1 : 0);
                w = "set " + fieldName(d, f);
            }
            if (diffv) ++changes;
        } else {
            Val v = before;
            int nch = int(s.draw(3));
            for (int q = 0; q < nch; ++q) {
                int f = int(s.draw(d.fields.size()));
                v.items[size_t(f)] = genField(s, d.fields[size_t(f)], g);
            }
            v = norm(d, v);
            Obj src(o);
            o.set(src.p, v);
            bool mv = how == 4;
            if (mv) o.moveAssign(x.p, src.p);
            else o.assign(x.p, src.p);
            w = mv ? "move-assign" : "assign";
            for (size_t i = 0; i < d.fields.size(); ++i) {
                bool df = v.items[i] != before.items[i];
                want[i] = v.items[i];
                exact[i] = df ? 1 : (msgContainer(d.fields[i]) ? -1 : 0);
                if (df) ++changes;
            }
        }
        log += " " + w + ";";
        model.items = want;
        Val now = model;
        if (peek || k + 1 == steps) now = norm(d, x.get());
        for (size_t i = 0; i < d.fields.size(); ++i)
            if (now.items[i] != want[i]) fail("after " + w + " field " + d.fields[i].name + " has a wrong value, history " + log);
        std::vector<int> cnt(d.fields.size(), 0);
        for (auto &h : rec.hits) {
            ++cnt[size_t(h.first)];
            if (normField(d, h.first, h.second) != want[size_t(h.first)]) fail("when the change signal of " + fieldName(d, h.first) + " arrived the property did not have the new value yet, history " + log);
        }
        for (size_t i = 0; i < d.fields.size(); ++i) {
            ++c.evals;
            if (exact[i] < 0 ? cnt[i] > 1 : cnt[i] != exact[i])
                fail(w + ": change signal of " + d.fields[i].name + " emitted " + std::to_string(cnt[i]) + " times instead of " + std::to_string(exact[i]) + ", history " + log);
        }
    }
    c.describe = log + " final " + show(d, x.get());
    c.hash = hashStr(c.describe);
    c.nontrivial = changes > 0;
}
static Reg r09({"P09", "history with at least one operation that changes a field value", p09, 30, commonInit, {}, {}});

// ---------------------------------------------------------------- P10
static void p10body(Ctx &c, const QtOps &o, std::string &log, int &interesting) {
    Src &s = c.src;
    const MsgD &d = *o.d;
    GenOpts g = small(s, d);
    std::vector<int> ones, conts;
    for (size_t f = 0; f < d.fields.size(); ++f) if (d.fields[f].kind == MESSAGE) (d.fields[f].card == ONE ? ones : conts).push_back(int(f));
    Obj *x = new Obj(o);
    std::unique_ptr<Obj> hold(x);
    Val model = defaultVal(d);
    struct Ext { QPointer<QObject> p; int f; };
    std::vector<Ext> given;                           // objects handed over through the property system, still set
    auto nested = [&](int f) { return x->p->property(o.propertyName(f)).value<QObject *>(); };
    auto drop = [&](int f) { given.erase(std::remove_if(given.begin(), given.end(), [&](const Ext &e) { return e.f == f; }), given.end()); };
    auto check = [&](const std::string &w) {
        Val v = norm(d, x->get());
        ++c.evals;
        if (v != model) fail("after " + w + " the message holds a wrong value: " + diff(d, model, v) + " history " + log);
    };
    int steps = 2 + int(s.draw(12));
    for (int k = 0; k < steps; ++k) {
        std::string w;
        int op = int(s.draw(10));
        if (op <= 5 && ones.empty()) op = 6 + op % 4;
        int f = ones.empty() ? -1 : ones[s.draw(ones.size())];
        const MsgD *nd = f >= 0 ? d.fields[size_t(f)].msg : nullptr;
        const QtOps *no = nd ? opsFor(nd) : nullptr;
        switch (op) {
        case 0: {      // by value
            Val v = genMsg(s, *nd, g);
            o.setField(x->p, f, v);
            model.items[size_t(f)] = v;
            model = norm(d, model);
            w = "set " + fieldName(d, f) + " by value";
            break;
        }
        case 1: {      // hand over a pointer; optionally owned by a QObject parent as well
            Val v = genMsg(s, *nd, g);
            QObject *n = no->make();
            no->set(n, v);
            QPointer<QObject> old = nested(f);
            if (!x->p->setProperty(o.propertyName(f), QVariant::fromValue<QObject *>(n)))
                fail("property " + std::string(o.propertyName(f)) + " rejects a message pointer");
            drop(f);
            if (nested(f) != n) fail("message pointer set through the property system is not the one read back");
            if (old) fail("replaced nested message was not destroyed, history " + log);
            given.push_back({n, f});
            model.items[size_t(f)] = v;
            model = norm(d, model);
            w = "set " + fieldName(d, f) + " by pointer";
            ++interesting;
            break;
        }
        case 2: {      // the handed-over object is deleted from outside
            if (given.empty()) break;
            size_t q = s.draw(given.size());
            int gf = given[q].f;
            delete given[q].p.data();
            given.erase(given.begin() + long(q));
            model.items[size_t(gf)] = defaultVal(*d.fields[size_t(gf)].msg);
            w = "delete object behind " + fieldName(d, gf);
            ++interesting;
            break;
        }
        case 3: {      // null pointer
            if (!x->p->setProperty(o.propertyName(f), QVariant::fromValue<QObject *>(nullptr))) fail("property rejects a null message pointer");
            drop(f);
            model.items[size_t(f)] = defaultVal(*nd);
            w = "set " + fieldName(d, f) + " to null";
            break;
        }
        case 4: {      // keep a pointer to the nested object, change it through the pointer
            if (nd->fields.empty()) break;
            QObject *n = nested(f);
            int nf = int(s.draw(nd->fields.size()));
            Val v = genField(s, nd->fields[size_t(nf)], g);
            no->setField(n, nf, v);
            model.items[size_t(f)].items[size_t(nf)] = v;
            model = norm(d, model);
            if (nested(f) != n) fail("reading the nested message twice gives different objects");
            w = "change " + fieldName(d, f) + " through its pointer";
            break;
        }
        case 5: {      // destroy the message: owned nested objects go with it
            std::vector<QPointer<QObject>> ps;
            for (int q : ones) ps.push_back(nested(q));
            given.clear();
            hold.reset();
            for (auto &q : ps) if (q) fail("nested message survives the destruction of its owner, history " + log);
            x = new Obj(o);
            hold.reset(x);
            model = defaultVal(d);
            w = "destroy and recreate";
            ++interesting;
            break;
        }
        case 6: {      // copy, keep only the copy
            Obj *y = new Obj(o, s.chance(1, 2) ? o.copy(x->p) : o.moveNew(x->p));
            given.clear();
            hold.reset(y);
            x = y;
            w = "replace by a copy";
            ++interesting;
            break;
        }
        case 7: {      // decode (also invalid data)
            Val v = genMsg(s, d, g);
            AltOpts a;
            int vari = 0;
            std::string b = encAlt(s, d, v, a, vari);
            bool bad = s.chance(1, 2) && !b.empty();
            if (bad && s.chance(1, 2)) b.resize(s.draw(b.size()));
            else if (bad) for (int q = 1 + int(s.draw(3)); q > 0; --q) b[s.draw(b.size())] = char(s.draw(256));
            try {
                o.des(x->p, ser(), qba(b));
            } catch (const std::exception &) {}
            for (size_t q = 0; q < given.size();) { if (!given[q].p) given.erase(given.begin() + long(q)); else ++q; }
            model = norm(d, x->get());
            w = bad ? "decode damaged data" : "decode";
            ++interesting;
            break;
        }
        case 8: {      // containers: handles taken out keep their content after the message is gone
            if (conts.empty()) break;
            int cf = conts[s.draw(conts.size())];
            Val v = genField(s, d.fields[size_t(cf)], g);
            o.setField(x->p, cf, v);
            QVariant keep = x->p->property(o.propertyName(cf));
            Obj other(o);
            if (!other.p->setProperty(o.propertyName(cf), keep)) fail("container property not writable");
            o.setField(x->p, cf, defaultField(d.fields[size_t(cf)]));
            model.items[size_t(cf)] = defaultField(d.fields[size_t(cf)]);
            Val got;
            o.getField(other.p, cf, got);
            if (normField(d, cf, got) != normField(d, cf, v)) fail("items shared with another message changed when the first one was cleared: " + fieldName(d, cf) + " history " + log);
            w = "hand items of " + fieldName(d, cf) + " to another message";
            ++interesting;
            break;
        }
        default: {     // assignment from a temporary
            Obj t(o);
            Val v = genMsg(s, d, g);
            o.set(t.p, v);
            if (s.chance(1, 2)) o.assign(x->p, t.p);
            else o.moveAssign(x->p, t.p);
            model = norm(d, v);
            for (size_t q = 0; q < given.size();) { if (!given[q].p) given.erase(given.begin() + long(q)); else ++q; }
            w = "assign from a temporary";
        }
        }
        if (w.empty()) continue;
        log += " " + w + ";";
        check(w);
    }
}
static void p10(Ctx &c) {
    const QtOps &o = pickOps(c.src);
    std::string log = std::string(o.d->full) + ":";
    int interesting = 0;
    ser();
    long before = g_live;
    try {
        p10body(c, o, log, interesting);
    } catch (...) {
        c.describe = log;
        throw;
    }
    c.describe = log;
    c.hash = hashStr(log, c.src.recorded().size());
    c.nontrivial = interesting > 0;
    if (g_live != before) fail(std::to_string(g_live - before) + " message objects leaked (or destroyed twice), history " + log);
}
static void init10() {
    commonInit();
    qtHookData[3] = reinterpret_cast<quintptr>(&onAdd);
    qtHookData[4] = reinterpret_cast<quintptr>(&onRemove);
}
static Reg r10({"P10", "history with at least one ownership event (pointer handed over, deleted from outside, owner destroyed, copy kept alone, decode, shared items)", p10, 30, init10, {}, {}});

// ---------------------------------------------------------------- P11
static void p11(Ctx &c) {
    Src &s = c.src;
    const QtOps &o = pickOps(s);
    const MsgD &d = *o.d;
    GenOpts g = pickOpts(s, d);
    g.nan = false;
    // metadata
    auto &ord = o.pmeta->propertyOrdering;
    if (ord.size() != d.fields.size()) fail(std::string(d.full) + ": metadata lists " + std::to_string(ord.size()) + " fields instead of " + std::to_string(d.fields.size()));
    std::set<int> used;
    for (size_t i = 0; i < d.fields.size(); ++i) {
        auto it = ord.find(d.fields[i].number);
        if (it == ord.end()) fail(std::string(d.full) + ": field number " + std::to_string(d.fields[i].number) + " missing in the metadata");
        int idx = it->second;
        QMetaProperty mp = o.meta->property(idx);
        if (std::string(mp.name() ? mp.name() : "") != o.propertyName(int(i))) fail(std::string(d.full) + ": field " + d.fields[i].name + " mapped to property " + (mp.name() ? mp.name() : "?"));
        if (!used.insert(idx).second) fail("two fields share one property");
        if (!mp.isReadable() || !mp.isWritable() || !mp.hasNotifySignal()) fail(std::string("property ") + mp.name() + " is not readable/writable/notifying");
        if (QByteArray(mp.notifySignal().methodSignature()) != o.notifySignal(int(i)).mid(1)) fail(std::string("property ") + mp.name() + " notifies with " + mp.notifySignal().methodSignature().constData());
    }
    if (&o.pmeta->staticMetaObject != o.meta) fail("metadata refers to another class");
    // views
    Val v = genMsg(s, d, g);
    v = norm(d, v);
    Val model = defaultVal(d);
    Obj x(o);
    int via = int(s.draw(4));
    c.label(via == 0 ? "write-by-accessor" : via == 1 ? "write-by-property" : via == 2 ? "write-by-bytes" : "write-by-constructor");
    if (via == 0) { o.set(x.p, v); model = v; }
    else if (via == 1) {
        std::vector<int> order;
        for (int i = 0; i < int(d.fields.size()); ++i) order.push_back(i);
        for (size_t i = order.size(); i > 1; --i) std::swap(order[i - 1], order[s.draw(i)]);
        for (int i : order) if (!o.setProp(x.p, i, v.items[size_t(i)])) fail(std::string("setProperty ") + o.propertyName(i) + " refused");
        model = v;
    } else if (via == 2) { o.des(x.p, ser(), qba(encMsg(d, v))); model = v; }
    else {
        int n = s.chance(1, 2) ? int(d.fields.size()) : std::min<int>(1, int(d.fields.size()));
        o.destroy(x.p);
        x.p = o.construct(n, v);
        for (int i = 0; i < n; ++i) model.items[size_t(i)] = v.items[size_t(i)];
    }
    Val a = norm(d, x.get());
    if (a != model) fail("typed accessors: " + diff(d, model, a) + " in " + show(d, model));
    for (size_t i = 0; i < d.fields.size(); ++i) {
        Val p;
        if (!o.getProp(x.p, int(i), p)) fail(std::string("property ") + o.propertyName(int(i)) + " not readable with the declared type");
        if (normField(d, int(i), p) != model.items[i]) fail(std::string("property ") + o.propertyName(int(i)) + " shows another value than the field, in " + show(d, model));
        ++c.evals;
    }
    Val r;
    if (!refDecode(d, sstr(o.ser(x.p, ser())), r) || norm(d, r) != model) fail("encoded bytes show another value: " + diff(d, model, r));
    c.describe = show(d, v);
    c.hash = hashStr(c.describe);
    c.nontrivial = countSet(d, model) > 0;
}
static Reg r11({"P11", "message with at least one field different from its default, written through one view and read through all others", p11, 30, commonInit, {}, {}});
