// P19 serialization from many threads, P20 serializer registry and plugins
#include "common.h"
#include "proc.h"
#include "vpmain.qpb.h"
#include <qprotobufserializerregistry_p.h>
#include <QtProtobufTypes>
#include <atomic>
#include <chrono>
#include <cmath>
#include <sys/stat.h>
#include <thread>
using namespace vt;
using namespace pbt;

// nothing of the library is used in this process, only in the children
static void lightInit() {
    if (!ops().empty()) return;
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    refInit(VP_PROTO_DIR, {"vpext.proto", "vpmain.proto"});
    hugeLists = false;
    reg_vp(ops());
}

// ---------------------------------------------------------------- P20
namespace {
struct Plug { const char *lib, *name; float version, proto; int rating; std::vector<std::string> types; bool foreign; };
const std::vector<Plug> PLUGS = {
    {"vpgood", "VpGood", 2.5f, 3.0f, 7, {"protobuf", "json", "custom"}, false},
    {"vpother", "Vp other", 1.25f, 2.0f, -3, {"custom", "extra"}, false},
    {"vptwin", "VpGood", 9.0f, 9.0f, 9, {"twin"}, false},
    {"vpforeign", "VpForeign", 4.0f, 4.0f, 4, {"protobuf"}, true},
};
const std::vector<std::string> IDS = {"protobuf", "json", "custom", "extra", "twin", "", "Protobuf", "protobuf ", "prot\xc3\xb6" "buf", "Default", "types"};
const std::vector<std::string> LIBS = {"vpgood", "vpother", "vptwin", "vpforeign", "vpempty", "vpgarbage", "vptrunc", "vpmissing", "vpdir", "../plug/vpgood", "VPGOOD", "vp\xc3\xa4", "x/y"};
const std::vector<std::string> NAMES = {"Default", "VpGood", "Vp other", "VpForeign", "", "default", "vpgood", "Unknown"};
struct Op { int kind; std::string a, b; Val v; };

struct Scratch {
    std::string dir;
    Scratch() { char t[] = "/tmp/vp_reg_XXXXXX"; dir = mkdtemp(t); }
    ~Scratch() {
        for (auto &f : {"vpgood", "vpother", "vptwin", "vpforeign", "vpempty", "vpgarbage", "vptrunc"}) unlink((dir + "/lib" + f + ".so").c_str());
        rmdir((dir + "/libvpdir.so").c_str());
        rmdir(dir.c_str());
    }
    void put(const std::string &name, const std::string &data) {
        FILE *f = fopen((dir + "/lib" + name + ".so").c_str(), "w");
        fwrite(data.data(), 1, data.size(), f);
        fclose(f);
    }
};
std::string slurp(const std::string &p) {
    std::string s;
    if (FILE *f = fopen(p.c_str(), "r")) {
        char b[65536];
        size_t k;
        while ((k = fread(b, 1, sizeof b, f)) > 0) s.append(b, k);
        fclose(f);
    }
    return s;
}
QString q(const std::string &s) { return QString::fromUtf8(s.data(), int(s.size())); }
}

static void p20(Ctx &c) {
    lightInit();
    Src &s = c.src;
    const QtOps *leaf = nullptr;
    for (auto &o : ops()) if (std::string(o.d->full) == "vp.main.Scalars") leaf = &o;
    Scratch scr;
    std::set<std::string> present;
    for (auto &p : PLUGS)
        if (s.draw(5) != 4) {
            present.insert(p.lib);
            if (symlink((std::string(VP_PLUG_DIR "/lib") + p.lib + ".so").c_str(), (scr.dir + "/lib" + p.lib + ".so").c_str())) _exit(2);
        }
    int bad = int(s.draw(8));
    if (bad & 1) scr.put("vpempty", "");
    if (bad & 2) {
        std::string g = s.draw(2) ? "\x7f" "ELF" : "";
        for (int i = 0; i < 300; ++i) g += char(s.draw(256));
        scr.put("vpgarbage", g);
    }
    if (bad & 4) {
        static const std::string all = slurp(VP_PLUG_DIR "/libvpgood.so");
        static const std::vector<unsigned> cuts = {40, 64, 100, 1000, 4096};
        scr.put("vptrunc", all.substr(0, cuts[s.draw(cuts.size())]));   // cut inside the headers: cannot be loaded, only rejected
    }
    mkdir((scr.dir + "/libvpdir.so").c_str(), 0700);
    std::vector<Op> prog;
    int n = 1 + int(s.draw(14));
    std::string text;
    std::set<std::string> loads;
    for (int i = 0; i < n; ++i) {
        Op o;
        o.kind = int(s.weighted({4, 4, 5, 1, 1, 1, 1}));
        if (o.kind == 2) o.a = LIBS[s.draw(s.chance(1, 2) ? LIBS.size() : 4)];
        else if (o.kind < 2) o.a = IDS[s.draw(s.chance(1, 3) ? IDS.size() : 5)];
        if (o.kind == 1 || o.kind > 2) o.b = NAMES[s.draw(s.chance(1, 3) ? NAMES.size() : 4)];
        GenOpts go;
        go.fill = 20;
        if (o.kind < 2) o.v = genMsg(s, *leaf->d, go);
        static const char *K[] = {"get", "get", "load", "version", "serializers", "protobufVersion", "rating"};
        text += std::string(K[o.kind]) + "(" + (o.kind <= 2 ? "'" + o.a + "'" : "") + (o.kind == 1 || o.kind > 2 ? "'" + o.b + "'" : "") + ") ";
        if (o.kind == 2) loads.insert(o.a);
        prog.push_back(o);
    }
    c.describe = text;
    c.hash = hashStr(text);
    c.nontrivial = loads.size() >= 1 && n >= 2;
    for (auto &l : loads) c.label("load " + l);
    c.evals += inChild([&]() -> uint64_t {
        setenv("QT_PROTOBUF_PLUGIN_PATH", scr.dir.c_str(), 1);
        QtProtobuf::qRegisterProtobufTypes();
        auto &reg = QtProtobuf::QProtobufSerializerRegistry::instance();
        struct Rec { const Plug *p; std::map<std::string, QtProtobuf::QAbstractProtobufSerializer *> seen; };
        std::map<std::string, Rec> model;       // plugin name -> what it has to be
        model["Default"] = Rec{nullptr, {}};
        uint64_t ev = 0;
        QtProtobuf::QProtobufSerializer own;
        for (auto &o : prog) {
            ++ev;
            if (o.kind <= 1) {
                std::string plugin = o.kind ? o.b : "Default";
                auto it = model.find(plugin);
                bool known = it != model.end();
                if (known && !it->second.p) known = o.a == "protobuf" || o.a == "json";
                else if (known) known = !it->second.p->foreign && std::count(it->second.p->types.begin(), it->second.p->types.end(), o.a);
                std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer> r;
                bool threw = false;
                try {
                    r = o.kind ? reg.getSerializer(q(o.a), q(o.b)) : reg.getSerializer(q(o.a));
                } catch (const std::exception &) { threw = true; }
                std::string what = "getSerializer('" + o.a + "', '" + plugin + "')";
                if (!known) {
                    if (!threw && r) fail(what + " returns a serializer, nothing of that name is registered");
                    continue;
                }
                if (threw || !r) fail(what + " finds nothing");
                auto &seen = it->second.seen[o.a];
                if (seen && seen != r.get()) fail(what + " returns a different serializer than before");
                seen = r.get();
                if (!it->second.p && o.a == "json") continue;
                Obj x(*leaf);
                leaf->set(x.p, o.v);
                std::string want = (it->second.p ? std::string(it->second.p->lib) + "/" + o.a + "|" : "") + sstr(leaf->ser(x.p, &own));
                if (sstr(leaf->ser(x.p, r.get())) != want) fail(what + ": the serializer does not write what it should");
                Obj y(*leaf);
                leaf->des(y.p, r.get(), leaf->ser(x.p, &own));
                Val a = x.get(), b = y.get();
                normalize(*leaf->d, a, true);
                normalize(*leaf->d, b, true);
                if (a != b) fail(what + ": the serializer does not read what was written: " + diff(*leaf->d, a, b));
            } else if (o.kind == 2) {
                const Plug *p = nullptr;
                for (auto &x : PLUGS) if (o.a == x.lib && present.count(x.lib)) p = &x;
                std::string r;
                try {
                    r = reg.loadPlugin(q(o.a)).toUtf8().toStdString();
                } catch (const std::exception &) { r.clear(); }
                if (o.a == "../plug/vpgood") continue;       // lies outside the plugin folder; there is no such file either
                if (r != (p ? p->name : "")) fail("loadPlugin('" + o.a + "') returns '" + r + "'");
                if (p && !model.count(p->name)) model[p->name] = Rec{p, {}};
            } else {
                auto it = model.find(o.b);
                const Plug *p = it != model.end() ? it->second.p : nullptr;
                if (o.kind == 3 && std::fabs(reg.pluginVersion(q(o.b)) - (p ? p->version : 0)) > 1e-5) fail("wrong version of plugin '" + o.b + "'");
                if (o.kind == 5 && std::fabs(reg.pluginProtobufVersion(q(o.b)) - (p ? p->proto : 0)) > 1e-5) fail("wrong protobuf version of plugin '" + o.b + "'");
                if (o.kind == 6 && reg.pluginRating(q(o.b)) != (p ? p->rating : 0)) fail("wrong rating of plugin '" + o.b + "'");
                if (o.kind == 4) {
                    QStringList l = reg.pluginSerializers(q(o.b));
                    size_t n = p ? p->types.size() : 0;
                    bool ok = size_t(l.size()) == n;
                    for (size_t i = 0; ok && i < n; ++i) ok = l[int(i)] == q(p->types[i]);
                    if (!ok) fail("wrong serializer list of plugin '" + o.b + "'");
                }
            }
        }
        return ev;
    });
}
static Reg r20({"P20", "at least two operations, one of them loads a plugin", p20, 90});

// ---------------------------------------------------------------- P19
namespace {
struct Item { const QtOps *o; Val v; std::string alt; };
struct Work {
    int serializer;            // 0 shared, 1 own, 2 own for every message, 3 the registry's
    bool registers;            // calls qRegisterProtobufTypes first
    int reps;
    std::vector<Item> items;
    std::vector<std::string> errors;
    uint64_t ev = 0;
};
}
// types that nobody has registered before
template<int N> struct VpKey { int x = 0; bool operator<(const VpKey &o) const { return x < o.x; } };
template<int N> struct QMetaTypeId<VpKey<N>> {
    enum { Defined = 1 };
    static int qt_metatype_id() {
        static QBasicAtomicInt id = Q_BASIC_ATOMIC_INITIALIZER(0);
        if (int k = id.loadAcquire()) return k;
        int k = qRegisterNormalizedMetaType<VpKey<N>>(QByteArray("VpKey") + QByteArray::number(N), reinterpret_cast<VpKey<N> *>(quintptr(-1)));
        id.storeRelease(k);
        return k;
    }
};
template<int... N> std::vector<void (*)()> freshTypes(std::integer_sequence<int, N...>) { return {&qRegisterProtobufMapType<VpKey<N>, QString>...}; }
static void p19(Ctx &c) {
    lightInit();
    Src &s = c.src;
    int nthreads = 2 + int(s.draw(5));
    bool first = s.chance(1, 2);               // the library is used for the first time by the threads
    bool registrar = s.chance(1, 2);           // another thread registers types meanwhile
    int commonSer = int(s.draw(5));            // 4: every thread chooses
    int gap = registrar ? int(s.draw(2000)) : 0;
    bool hammer = registrar && s.draw(4) != 0; // small messages, many times, while the types they use are registered again
    int nregistrars = hammer ? 1 + int(s.draw(2)) : 1;
    Perturb pert;
    static const std::vector<unsigned> every = {0, 20, 100, 500, 3000};
    pert.every = every[s.draw(every.size())];
    pert.kind = unsigned(s.draw(3));
    pert.seed = s.draw(1000000007);
    std::vector<Work> work(static_cast<size_t>(nthreads));
    std::string text;
    bool nt = false;
    for (auto &w : work) {
        w.serializer = commonSer < 4 ? commonSer : int(s.draw(4));
        w.registers = true;
        w.reps = 1 + int(s.draw(6));
        int n = 1 + int(s.draw(4));
        for (int i = 0; i < n; ++i) {
            Item it;
            it.o = &pickOps(s);
            if (hammer) {
                static const std::vector<std::string> names = {"vp.main.Mid", "vp.main.Lists", "vp.main.MapsByValue", "vp.main.ScalarsLow"};
                const std::string &want = names[s.draw(names.size())];
                for (auto &o : ops()) if (want == o.d->full) it.o = &o;
            }
            GenOpts go;
            go.depth = 2;
            go.fill = it.o->d->fields.size() > 10 ? 15 : 40;
            it.v = genMsg(s, *it.o->d, go);
            normalize(*it.o->d, it.v, true);
            it.alt = refEncode(*it.o->d, it.v);
            if (it.alt.size() > 20000) throw Discard();
            nt = nt || !it.alt.empty();
            text += std::string(it.o->d->full) + ":" + std::to_string(it.alt.size()) + " ";
            w.items.push_back(it);
        }
        text += "| ";
    }
    c.describe = std::to_string(nthreads) + " threads, " + (first ? "first use" : "registered before") + (registrar ? ", with registration" : "") + ": " + text;
    c.hash = hashStr(c.describe) ^ s.recorded().size();
    c.nontrivial = nt;
    c.label(first ? "first use in threads" : "used before");
    if (registrar) c.label("with registration");
    c.evals += inChild([&]() -> uint64_t {
        QtProtobuf::QProtobufSerializer *shared = nullptr;
        if (!first) {
            QtProtobuf::qRegisterProtobufTypes();
            shared = new QtProtobuf::QProtobufSerializer;
        }
        setPerturb(pert);
        std::atomic<int> ready{0}, warm{0}, freshDone{0}, working{nthreads};
        std::atomic<QtProtobuf::QProtobufSerializer *> sharedSer{shared};
        auto until = std::chrono::steady_clock::now() + std::chrono::milliseconds(80);
        auto body = [&](Work &w) {
            ++ready;
            while (ready < nthreads) {}
            try {
                if (w.registers) QtProtobuf::qRegisterProtobufTypes();
                std::shared_ptr<QtProtobuf::QAbstractProtobufSerializer> mine;
                QtProtobuf::QAbstractProtobufSerializer *ser = nullptr;
                if (w.serializer == 0) {
                    QtProtobuf::QProtobufSerializer *x = sharedSer;
                    if (!x) {
                        auto *fresh = new QtProtobuf::QProtobufSerializer;
                        if (!sharedSer.compare_exchange_strong(x, fresh)) delete fresh; else x = fresh;
                    }
                    ser = x;
                } else if (w.serializer == 3) {
                    mine = QtProtobuf::QProtobufSerializerRegistry::instance().getSerializer("protobuf");
                    ser = mine.get();
                } else {
                    mine = std::make_shared<QtProtobuf::QProtobufSerializer>();
                    ser = mine.get();
                }
                for (int r = 0; r < (hammer ? 1 : w.reps); ++r)
                    for (auto &it : w.items) {
                        if (w.serializer == 2) {
                            mine = std::make_shared<QtProtobuf::QProtobufSerializer>();
                            ser = mine.get();
                        }
                        Obj x(*it.o);
                        it.o->set(x.p, it.v);
                        std::string b = sstr(it.o->ser(x.p, ser));
                        Obj y(*it.o);
                        it.o->des(y.p, ser, qba(it.alt));
                        Val got = y.get(), ref;
                        normalize(*it.o->d, got, true);
                        ++w.ev;
                        if (got != it.v) w.errors.push_back("decoded value differs: " + diff(*it.o->d, it.v, got));
                        if (!refDecode(*it.o->d, b, ref)) w.errors.push_back("written bytes cannot be read");
                        else {
                            normalize(*it.o->d, ref, true);
                            if (ref != it.v) w.errors.push_back("written bytes differ: " + diff(*it.o->d, it.v, ref));
                        }
                        for (int h = hammer ? 4000 : 0; h > 0 && w.errors.empty() && std::chrono::steady_clock::now() < until && freshDone < 1; --h) {
                            if (h == 3995) ++warm;
                            ++w.ev;
                            if (sstr(it.o->ser(x.p, ser)) != b) w.errors.push_back("the same message is written differently the second time");
                            if (h % 4 == 0) {
                                Obj z(*it.o);
                                it.o->des(z.p, ser, qba(it.alt));
                                if (!it.o->eq(z.p, y.p) && z.get() != y.get()) w.errors.push_back("the same bytes are read differently the second time");
                            }
                        }
                    }
            } catch (const std::exception &e) {
                w.errors.push_back(std::string("exception: ") + e.what());
            }
            --working;
        };
        std::vector<std::thread> th;
        for (auto &w : work) th.emplace_back(body, std::ref(w));
        std::vector<std::thread> rt;
        for (int k = 0; registrar && k < nregistrars; ++k)
            rt.emplace_back([&, k] {
                int n = 0;
                while (ready < nthreads) {}
                while (hammer && warm < nthreads && working == nthreads && std::chrono::steady_clock::now() < until) {}
                if (k == 0)
                    for (auto f : freshTypes(std::make_integer_sequence<int, 160>())) {
                        if (gap) for (volatile int j = 0; j < gap; ++j) {}
                        f();
                    }
                if (k == 0) ++freshDone;
                while (working > 0 && n++ < (hammer ? 10000000 : 20000)) {
                    qRegisterProtobufType<vp::main::Leaf>();
                    qRegisterProtobufType<vp::main::ScalarsLow>();
                    qRegisterProtobufEnumType<vp::main::ColorGadget::Color>();
                    qRegisterProtobufEnumType<vp::main::ModeGadget::Mode>();
                    qRegisterProtobufMapType<QString, vp::main::Leaf>();
                    qRegisterProtobufMapType<QtProtobuf::int32, vp::main::Leaf>();
                }
            });
        for (auto &t : th) t.join();
        for (auto &t : rt) t.join();
        uint64_t ev = 0;
        for (auto &w : work) {
            if (!w.errors.empty()) fail(w.errors[0]);
            ev += w.ev;
        }
        delete sharedSer.load();
        return ev;
    }, 40);
}
static Reg r19({"P19", "at least two threads, non-empty messages", p19, 90});
