#pragma once
#include "bridge.h"
namespace vt { void reg_vp(std::vector<QtOps> &); }
std::vector<vt::QtOps> &ops();
QtProtobuf::QProtobufSerializer *ser();
void commonInit();
const vt::QtOps *opsFor(const vt::MsgD *d);
const vt::QtOps &pickOps(pbt::Src &s);
vt::GenOpts pickOpts(pbt::Src &s, const vt::MsgD &d);
