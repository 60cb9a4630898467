// harness around randomly generated schemas: the emitted bridge supplies reg_vp(), the schema's
// directory and files and the shape the generated classes have to have
#include "common.h"
#include "gencommon.h"
#include <QtProtobufTypes>
#include <QMetaEnum>
#include <QMetaProperty>
#include <cstdlib>
using namespace vt;
using namespace pbt;
std::vector<QtOps> &ops() { static std::vector<QtOps> o; return o; }
QtProtobuf::QProtobufSerializer *ser() { static QtProtobuf::QProtobufSerializer s; return &s; }
void commonInit() {
    if (!ops().empty()) return;
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    QtProtobuf::qRegisterProtobufTypes();
    std::vector<std::string> files;
    for (const char *const *f = vp_files; *f; ++f) files.push_back(*f);
    refInit(vp_dir, files);
    hugeLists = false;   // unpacked lists take quadratic time
    reg_vp(ops());
}
const QtOps *opsFor(const MsgD *d) {
    for (auto &o : ops()) if (o.d == d) return &o;
    return nullptr;
}
const QtOps &pickOps(Src &s) { return ops()[s.draw(ops().size())]; }
GenOpts pickOpts(Src &s, const MsgD &d) {
    GenOpts o;
    o.depth = 1 + int(s.draw(3));
    unsigned n = unsigned(d.fields.size());
    o.fill = s.chance(1, 3) ? 70 : (n > 10 ? 12 : 40);
    return o;
}

// every declared field is an accessible property with a change signal, every enumeration offers its keys and values
static void shape(Ctx &c) {
    commonInit();
    for (auto &o : ops()) {
        ++c.evals;
        std::string cls = o.d->full;
        for (size_t i = 0; i < o.d->fields.size(); ++i) {
            const char *pn = o.propertyName(int(i));
            int ix = o.meta->indexOfProperty(pn);
            if (ix < 0) fail(cls + ": no property " + pn);
            auto p = o.meta->property(ix);
            if (!p.isReadable() || !p.isWritable()) fail(cls + ": property " + pn + " is not readable and writable");
            if (!p.hasNotifySignal() || o.notifySignal(int(i)).mid(1) != p.notifySignal().methodSignature()) fail(cls + ": property " + pn + " lacks its change signal");
        }
        // fields and nothing else; QML support adds list and alias views of the same fields
        int extra = o.meta->propertyCount() - o.meta->propertyOffset() - int(o.d->fields.size());
        if (extra < 0 || extra > int(o.d->fields.size())) fail(cls + ": unexpected number of properties");
    }
    for (const ShapeEnum *e = vp_enums; e->name; ++e) {
        ++c.evals;
        int ix = e->meta->indexOfEnumerator(e->name);
        if (ix < 0) fail(std::string("no enumeration ") + e->name);
        QMetaEnum me = e->meta->enumerator(ix);
        int n = 0;
        for (const ShapeEnum::Item *it = e->items; it->key; ++it, ++n) {
            bool ok = false;
            int v = me.keyToValue(it->key, &ok);
            if (!ok || v != it->value) fail(std::string("enumeration ") + e->name + ": key " + it->key + " missing or wrong");
        }
        if (me.keyCount() != n) fail(std::string("enumeration ") + e->name + ": unexpected number of keys");
    }
    c.nontrivial = true;
    c.hash = hashStr(vp_dir) ^ c.src.draw(1000000);
}
static Reg r1({"SHAPE", "always", shape});

// digest of what is written for random values: has to be the same whatever options the code was generated with
static uint64_t g_digest = 1469598103934665603ull;
static void digest(Ctx &c) {
    commonInit();
    const QtOps &o = pickOps(c.src);
    GenOpts go = pickOpts(c.src, *o.d);
    Val v = genMsg(c.src, *o.d, go);
    Obj x(o);
    o.set(x.p, v);
    std::string b = sstr(o.ser(x.p, ser()));
    g_digest = hashStr(b, g_digest);
    ++c.evals;
    c.nontrivial = !b.empty();
    c.hash = hashStr(b);
}
static Reg r2({"DIGEST", "non-empty bytes", digest, 20, nullptr, [] { if (const char *f = getenv("VP_DIGEST")) { FILE *o = fopen(f, "w"); fprintf(o, "%016llx\n", (unsigned long long)g_digest); fclose(o); } }});
