#include "common.h"
#include <QtProtobufTypes>
using namespace vt;
using namespace pbt;
std::vector<QtOps> &ops() { static std::vector<QtOps> o; return o; }
QtProtobuf::QProtobufSerializer *ser() { static QtProtobuf::QProtobufSerializer s; return &s; }
void commonInit() {
    if (!ops().empty()) return;
    qInstallMessageHandler([](QtMsgType, const QMessageLogContext &, const QString &) {});
    QtProtobuf::qRegisterProtobufTypes();
    refInit(VP_PROTO_DIR, {"vpext.proto", "vpmain.proto"});
    reg_vp(ops());
}
const QtOps *opsFor(const MsgD *d) {
    for (auto &o : ops()) if (o.d == d) return &o;
    return nullptr;
}
const QtOps &pickOps(Src &s) { return ops()[s.draw(ops().size())]; }
GenOpts pickOpts(Src &s, const MsgD &d) {
    GenOpts o;
    o.depth = 1 + int(s.draw(3));
    unsigned n = unsigned(d.fields.size());
    // either a sparse or a dense message
    o.fill = s.chance(1, 3) ? 70 : (n > 10 ? 12 : 40);
    return o;
}
