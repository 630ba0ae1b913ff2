// Saves bus messages through the message objects and logs every member channel a reader finds,
// and the CAN messages the bus observer rebuilds.
#include "common.h"
#include "mdf/canbusobserver.h"
#include "mdf/canconfigadapter.h"
#include "mdf/canmessage.h"
#include "mdf/ethconfigadapter.h"
#include "mdf/ethmessage.h"
#include "mdf/flexrayconfigadapter.h"
#include "mdf/flexraymessage.h"
#include "mdf/linconfigadapter.h"
#include "mdf/linmessage.h"
#include "mdf/mostconfigadapter.h"
#include "mdf/mostmessage.h"
#include "vclock.h"
#include <map>
using namespace mdf;
using namespace vh;
namespace {
std::string FloatText(float f) { uint32_t u; std::memcpy(&u, &f, 4); return "f" + std::to_string(u); }
float FloatOf(const std::string& s) { uint32_t u = (uint32_t)std::stoul(s.substr(1)); float f; std::memcpy(&f, &u, 4); return f; }
uint64_t U(const std::string& s) { return std::stoull(s); }
std::array<uint8_t, 6> Mac(const std::string& s) { std::array<uint8_t, 6> m{}; for (int i = 0; i < 6; ++i) m[i] = (uint8_t)std::stoul(s.substr(1 + 2 * i, 2), nullptr, 16); return m; }
std::string Hex(const std::vector<uint8_t>& b) { static const char* d = "0123456789abcdef"; std::string s = "x"; for (auto x : b) { s += d[x >> 4]; s += d[x & 15]; } return s; }
void SetCan(CanMessage& m, const std::string& a, const std::string& v) {
  if (a == "BusChannel") m.BusChannel((uint8_t)U(v)); else if (a == "DLC") m.Dlc((uint8_t)U(v));
  else if (a == "Dir") m.Dir(U(v)); else if (a == "SRR") m.Srr(U(v)); else if (a == "EDL") m.Edl(U(v)); else if (a == "BRS") m.Brs(U(v));
  else if (a == "ESI") m.Esi(U(v)); else if (a == "WakeUp") m.WakeUp(U(v)); else if (a == "SingleWire") m.SingleWire(U(v));
  else if (a == "R0") m.R0(U(v)); else if (a == "R1") m.R1(U(v)); else if (a == "FrameDuration") m.FrameDuration((uint32_t)U(v));
  else if (a == "CRC") m.Crc((uint32_t)U(v)); else if (a == "BitPosition") m.BitPosition((uint16_t)U(v));
  else if (a == "ErrorType") m.ErrorType((CanErrorType)U(v)); else throw std::runtime_error("can " + a);
}
void SetLin(LinMessage& m, const std::string& a, const std::string& v) {
  if (a == "BusChannel") m.BusChannel((uint8_t)U(v)); else if (a == "ID") m.LinId((uint8_t)U(v)); else if (a == "Dir") m.Dir(U(v));
  else if (a == "ReceivedDataByteCount") m.ReceivedDataByteCount((uint8_t)U(v)); else if (a == "DataLength") m.DataLength((uint8_t)U(v));
  else if (a == "Checksum") m.Checksum((uint8_t)U(v)); else if (a == "ChecksumModel") m.ChecksumModel((LinChecksumModel)std::stoi(v));
  else if (a == "SOF") m.StartOfFrame(U(v)); else if (a == "Baudrate") m.Baudrate(FloatOf(v)); else if (a == "ResponseBaudrate") m.ResponseBaudrate(FloatOf(v));
  else if (a == "BreakLength") m.BreakLength((uint32_t)U(v)); else if (a == "BreakDelimiterLength") m.DelimiterBreakLength((uint32_t)U(v));
  else if (a == "SpecifiedDataByteCount") m.ExpectedDataByteCount((uint8_t)U(v)); else if (a == "Type") m.TypeOfLongDominantSignal((LinTypeOfLongDominantSignal)U(v));
  else if (a == "Length") m.TotalSignalLength((uint32_t)U(v)); else throw std::runtime_error("lin " + a);
}
void SetEth(EthMessage& m, const std::string& a, const std::string& v) {
  if (a == "BusChannel") m.BusChannel((uint8_t)U(v)); else if (a == "Source") m.Source(Mac(v)); else if (a == "Destination") m.Destination(Mac(v));
  else if (a == "EtherType") m.EthType((uint16_t)U(v)); else if (a == "ReceivedDataByteCount") m.ReceivedDataByteCount((uint16_t)U(v));
  else if (a == "DataLength") m.DataLength((uint16_t)U(v)); else if (a == "CRC" || a == "ReceivedCRC") m.Crc((uint32_t)U(v));
  else if (a == "ExpectedCRC") m.ExpectedCrc((uint32_t)U(v)); else if (a == "Dir") m.Dir(U(v)); else if (a == "PadByteCount") m.PaddingByteCount((uint16_t)U(v));
  else if (a == "ErrorType") m.ErrorType((EthErrorType)U(v)); else throw std::runtime_error("eth " + a);
}
void SetMost(IMostEvent& e, const std::string& a, const std::string& v) {
  if (a == "BusChannel") { e.BusChannel((uint8_t)U(v)); return; }
  if (auto* m = dynamic_cast<MostMessage*>(&e)) {
    if (a == "TxFailed") { m->TxFailed(U(v)); return; }
    if (a == "RType") { m->ControlMessageType((MostControlMessageType)U(v)); return; }
  }
  if (auto* m = dynamic_cast<MostPacket*>(&e)) if (a == "PIndex") { m->PacketIndex((uint8_t)U(v)); return; }
  if (auto* m = dynamic_cast<MostEthernetPacket*>(&e)) {
    if (a == "Speed") m->Speed((MostSpeed)U(v)); else if (a == "TransferType") m->TransferType((MostTransferType)U(v)); else if (a == "Dir") m->Direction((MostDirection)U(v));
    else if (a == "Source") m->Source(U(v)); else if (a == "Destination") m->Destination(U(v)); else if (a == "SpecifiedDataByteCount") m->SpecifiedNofBytes((uint16_t)U(v));
    else if (a == "ReceivedDataByteCount") m->ReceivedNofBytes((uint16_t)U(v)); else if (a == "CRC") m->Crc((uint32_t)U(v));
    else if (a == "CAck") m->CompleteAck((MostCompleteAck)U(v)); else if (a == "PAck") m->PreemptiveAck((MostPreemptiveAck)U(v)); else if (a == "AckNAck") m->TxAck((uint8_t)U(v));
    else throw std::runtime_error("most " + a);
    return;
  }
  if (auto* m = dynamic_cast<MostSignalState*>(&e)) if (a == "State") { m->SignalState((MostStateOfSignal)U(v)); return; }
  if (auto* m = dynamic_cast<MostMaxPosInfo*>(&e)) if (a == "DeviceCount") { m->DeviceCount((uint8_t)U(v)); return; }
  if (auto* m = dynamic_cast<MostBoundDesc*>(&e)) if (a == "SBC") { m->BoundaryCount((uint16_t)U(v)); return; }
  if (auto* m = dynamic_cast<MostAllocTable*>(&e)) {
    if (a == "FreeByteCount") { m->FreeByteCount((uint16_t)U(v)); return; }
    if (a == "TableLayout") { m->TableLayout((MostTableLayout)U(v)); return; }
  }
  if (auto* m = dynamic_cast<MostSysLockState*>(&e)) if (a == "SysLockState") { m->RingIsClosed(U(v)); return; }
  if (auto* m = dynamic_cast<MostShutdownFlag*>(&e)) if (a == "ShutdownFlag") { m->ShutdownFlag(U(v)); return; }
  throw std::runtime_error("most " + a);
}
void SetFlx(IFlexRayEvent& e, const std::string& a, const std::string& v) {
  if (a == "BusChannel") e.BusChannel((uint8_t)U(v)); else if (a == "ID") e.FrameId((uint16_t)U(v)); else if (a == "Cycle") e.CycleCount((uint8_t)U(v));
  else if (a == "FlxChannel") e.Channel((FlexRayChannel)U(v)); else if (a == "Dir") e.Direction((FlexRayDirection)U(v));
  else {
    if (auto* m = dynamic_cast<FlexRayErrorFrame*>(&e)) {
      if (a == "IsSyntaxError") { m->Syntax(U(v)); return; }
      if (a == "IsContentError") { m->Content(U(v)); return; }
      if (a == "IsSlotBndViolation") { m->Boundary(U(v)); return; }
      if (a == "IsTxConflict") { m->TxConflict(U(v)); return; }
      if (a == "IsValidFrame") { m->Valid(U(v)); return; }
    }
    if (auto* m = dynamic_cast<FlexRayFrame*>(&e)) {
      if (a == "PayloadLength") m->PayloadLength((uint8_t)U(v)); else if (a == "CRC") m->Crc((uint32_t)U(v)); else if (a == "HeaderCRC") m->HeaderCrc((uint16_t)U(v));
      else if (a == "ReservedBitFlag") m->Reserved(U(v)); else if (a == "PayloadPreambleFlag") m->PayloadPreamble(U(v)); else if (a == "NullFrameFlag") m->NullFrame((FlexRayNullFlag)U(v));
      else if (a == "SyncFrameFlag") m->SyncFrame(U(v)); else if (a == "StartUpFrameFlag") m->StartupFrame(U(v)); else if (a == "FrameLength") m->FrameLength((uint32_t)U(v));
      else throw std::runtime_error("flx " + a);
      return;
    }
    if (auto* m = dynamic_cast<FlexRayPdu*>(&e)) {
      if (a == "PduLength") m->Length((uint8_t)U(v)); else if (a == "IsMultiplexed") m->Multiplexed(U(v)); else if (a == "Switch") m->Switch((uint16_t)U(v));
      else if (a == "ValidFlag") m->Valid(U(v)); else if (a == "UpdateBitPos") m->UpdateBitPos((uint16_t)U(v)); else if (a == "PduByteOffset") m->ByteOffset((uint8_t)U(v));
      else if (a == "PduBitOffset") m->BitOffset((uint8_t)U(v)); else throw std::runtime_error("pdu " + a);
      return;
    }
    if (auto* m = dynamic_cast<FlexRaySymbol*>(&e)) {
      if (a == "FlxChannelMask") m->ChannelMask((FlexRayChannelMask)U(v)); else if (a == "SymbolLength") m->Length((uint8_t)U(v)); else if (a == "SymbolType") m->Type((FlexRaySymbolType)U(v));
      else throw std::runtime_error("sym " + a);
    }
  }
}
struct Objs {
  CanMessage can; LinMessage lin; EthMessage eth;
  std::map<std::string, std::unique_ptr<IMostEvent>> most;
  std::map<std::string, std::unique_ptr<IFlexRayEvent>> flx;
  Objs() {
    most["MOST_Message"] = std::make_unique<MostMessage>(); most["MOST_Packet"] = std::make_unique<MostPacket>(); most["MOST_EthernetPacket"] = std::make_unique<MostEthernetPacket>();
    most["MOST_SignalState"] = std::make_unique<MostSignalState>(); most["MOST_MaxPosInfo"] = std::make_unique<MostMaxPosInfo>(); most["MOST_BoundDesc"] = std::make_unique<MostBoundDesc>();
    most["MOST_AllocTable"] = std::make_unique<MostAllocTable>(); most["MOST_SysLockState"] = std::make_unique<MostSysLockState>(); most["MOST_ShutdownFlag"] = std::make_unique<MostShutdownFlag>();
    flx["FLX_Frame"] = std::make_unique<FlexRayFrame>(); flx["FLX_Pdu"] = std::make_unique<FlexRayPdu>(); flx["FLX_FrameHeader"] = std::make_unique<FlexRayFrameHeader>();
    flx["FLX_NullFrame"] = std::make_unique<FlexRayNullFrame>(); flx["FLX_ErrorFrame"] = std::make_unique<FlexRayErrorFrame>(); flx["FLX_Symbol"] = std::make_unique<FlexRaySymbol>();
  }
  void Set(const std::string& o, const std::string& a, const std::string& v) {
    if (o == "CAN") SetCan(can, a, v); else if (o == "LIN") SetLin(lin, a, v); else if (o == "ETH") SetEth(eth, a, v);
    else if (o[0] == 'M') SetMost(*most.at(o), a, v); else SetFlx(*flx.at(o), a, v);
  }
  void Bytes(const std::string& o, const std::vector<uint8_t>& b) {
    if (o == "CAN") can.DataBytes(b); else if (o == "LIN") lin.DataBytes(b); else if (o == "ETH") eth.DataBytes(b);
    else if (o == "MOST_AllocTable") dynamic_cast<MostAllocTable&>(*most.at(o)).TableData(b);
    else if (o[0] == 'M') dynamic_cast<MostEthernetPacket&>(*most.at(o)).DataBytes(b);
    else if (o == "FLX_FrameHeader") dynamic_cast<FlexRayFrameHeader&>(*flx.at(o)).FillDataBytes(b);
    else if (o == "FLX_Pdu") dynamic_cast<FlexRayPdu&>(*flx.at(o)).DataBytes(b);
    else dynamic_cast<FlexRayFrame&>(*flx.at(o)).DataBytes(b);
  }
};
V Text(const std::string& s) { V v; v = s; return v; }
V CanRow(const CanMessage& m, int64_t unit) {
  V r = V::O();
  auto b = [](bool x) { return std::string(x ? "1" : "0"); };
  auto n = [](uint64_t x) { return std::to_string(x); };
  static const char* kinds[] = {"CAN_DataFrame", "CAN_RemoteFrame", "CAN_ErrorFrame", "CAN_OverloadFrame"};
  r.set("kind", kinds[(int)m.TypeOfMessage()]);
  r.set("t", ToTick(m.Timestamp(), unit));
  r.set("BusChannel", n(m.BusChannel())); r.set("ID", n(m.CanId())); r.set("IDE", b(m.ExtendedId())); r.set("DLC", n(m.Dlc())); r.set("DataLength", n(m.DataLength()));
  r.set("Dir", b(m.Dir())); r.set("SRR", b(m.Srr())); r.set("EDL", b(m.Edl())); r.set("BRS", b(m.Brs())); r.set("ESI", b(m.Esi())); r.set("WakeUp", b(m.WakeUp()));
  r.set("SingleWire", b(m.SingleWire())); r.set("R0", b(m.R0())); r.set("R1", b(m.R1())); r.set("FrameDuration", n(m.FrameDuration())); r.set("CRC", n(m.Crc()));
  r.set("BitPosition", n(m.BitPosition())); r.set("ErrorType", n((int)m.ErrorType()));
  V bs = V::A(); for (auto x : m.DataBytes()) bs.push(V((int64_t)x)); r.set("DataBytes", bs);
  return r;
}
V Run(const V& sc, const std::string& dir) {
  const std::string file = dir + "/b" + std::to_string(sc["id"].num()) + ".mf4";
  std::filesystem::remove(file);
  const int64_t unit = 1000000;
  kT0 = 1600000000000000000ULL;
  V evs = V::A();
  Objs obj;
  vclk::Enable(true);
  const V& cfg = sc["cfg"];
  auto w = MdfFactory::CreateMdfWriter(cfg["w"].s == "bus" ? MdfWriterType::MdfBusLogger : cfg["w"].s == "conv" ? MdfWriterType::MdfConverter : MdfWriterType::Mdf4Basic);
  w->Init(file);
  const std::string st = cfg["storage"].s;
  w->StorageType(st == "mlsd" ? MdfStorageType::MlsdStorage : st == "vlsd" ? MdfStorageType::VlsdStorage : MdfStorageType::FixedLengthStorage);
  w->MaxLength((uint32_t)cfg["max"].num());
  w->MandatoryMembersOnly(cfg.flag("mand"));
  w->CompressData(cfg.flag("z"));
  w->SavePeriodic(cfg.flag("per", true));
  uint16_t bits = 0;
  for (auto& b : cfg["buses"].a) bits |= b.s == "CAN" ? MdfBusType::CAN : b.s == "LIN" ? MdfBusType::LIN : b.s == "ETH" ? MdfBusType::Ethernet : b.s == "MOST" ? MdfBusType::MOST : MdfBusType::FlexRay;
  w->BusType(bits);
  if (cfg.flag("auto")) w->CreateBusLogConfiguration();
  else {
    IDataGroup* dg = nullptr;
    for (auto& b : cfg["buses"].a) {
      if (dg == nullptr || cfg.flag("split")) dg = w->Header()->CreateDataGroup();
      if (b.s == "CAN") { CanConfigAdapter c(*w); c.CreateConfig(*dg); } else if (b.s == "LIN") { LinConfigAdapter c(*w); c.CreateConfig(*dg); }
      else if (b.s == "ETH") { EthConfigAdapter c(*w); c.CreateConfig(*dg); } else if (b.s == "MOST") { MostConfigAdapter c(*w); c.CreateConfig(*dg); }
      else { FlexRayConfigAdapter c(*w); c.CreateConfig(*dg); }
    }
  }
  std::map<std::string, std::pair<IDataGroup*, IChannelGroup*>> groups;
  V kinds = V::A();
  for (auto* dg : w->Header()->DataGroups())
    for (auto* cg : dg->ChannelGroups())
      if (!(cg->Flags() & CgFlag::VlsdChannel)) groups[cg->Name()] = {dg, cg};
  V e = cfg; e.set("op", "cfg");
  evs.push(e);
  w->InitMeasurement();
  w->StartMeasurement(kT0 + (uint64_t)(cfg["start"].num() * unit));
  for (auto& op : sc["ops"].a) {
    const std::string o = op["op"].s;
    const std::string ob = op.str("obj", "");
    if (o == "set") for (auto& kv : op["v"].o) obj.Set(ob, kv.first, kv.second.s);
    else if (o == "id") obj.can.MessageId((uint32_t)op["id"].num() | (op.flag("x") ? 0x80000000u : 0u));
    else if (o == "ext") obj.can.ExtendedId(op.flag("x"));
    else if (o == "bytes") obj.Bytes(ob, op["b"].bytes());
    else if (o == "len") obj.can.DataLength((uint8_t)op["n"].num());
    else if (o == "tick") vclk::Tick();
    else if (o == "save") {
      const uint64_t t = kT0 + (uint64_t)(op["t"].num() * unit);
      const std::string k = op["kind"].s;
      auto it = groups.find(k);
      if (it == groups.end()) { V x = V::O(); x.set("op", "nogroup"); x.set("kind", k); evs.push(x); continue; }
      auto [dg, cg] = it->second;
      const bool by = op.flag("bydg");
      if (ob == "CAN") { if (by) w->SaveCanMessage(*dg, *cg, t, obj.can); else w->SaveCanMessage(*cg, t, obj.can); }
      else if (ob == "LIN") { if (by) w->SaveLinMessage(*dg, *cg, t, obj.lin); else w->SaveLinMessage(*cg, t, obj.lin); }
      else if (ob == "ETH") { if (by) w->SaveEthMessage(*dg, *cg, t, obj.eth); else w->SaveEthMessage(*cg, t, obj.eth); }
      else if (ob[0] == 'M') w->SaveMostMessage(*dg, *cg, t, *obj.most.at(ob));
      else w->SaveFlexRayMessage(*dg, *cg, t, *obj.flx.at(ob));
    } else throw std::runtime_error("op " + o);
    evs.push(op);
  }
  w->StopMeasurement(kT0 + 1000000000000ULL);
  w->FinalizeMeasurement();
  w.reset();
  vclk::Enable(false);
  V rd = V::O();
  V out = V::A();
  bool ok = true;
  V cans = V::A(), cans2 = V::A();
  {
    MdfReader r(file);
    ok = r.ReadEverythingButData();
    for (auto* dg : r.GetHeader()->DataGroups()) {
      std::vector<std::pair<IChannelGroup*, ChannelObserverList>> obs;
      std::vector<std::unique_ptr<CanBusObserver>> co;
      for (auto* cg : dg->ChannelGroups()) {
        if (cg->Flags() & CgFlag::VlsdChannel) continue;
        ChannelObserverList l;
        for (auto* ch : cg->Channels()) l.push_back(CreateChannelObserver(*dg, *cg, *ch));
        obs.emplace_back(cg, std::move(l));
        if (cg->Name().rfind("CAN_", 0) == 0) co.push_back(std::make_unique<CanBusObserver>(*dg, *cg));
      }
      ok = r.ReadData(*dg) && ok;
      for (auto& [cg, l] : obs) {
        V g = V::O();
        const std::string pre = cg->Name() + ".";
        g.set("name", cg->Name());
        g.set("n", (int64_t)cg->NofSamples());
        V rows = V::A();
        for (uint64_t s = 0; s < cg->NofSamples(); ++s) {
          V row = V::O();
          for (auto& ob : l) {
            const std::string n = ob->Name();
            if (n == "t") { double d = 0; ob->GetEngValue(s, d); row.set("t", ToTick(d, unit)); continue; }
            if (n.rfind(pre, 0) != 0) continue;
            const std::string a = n.substr(pre.size());
            const auto& ch = ob->Channel();
            if (a == "DataBytes" || a == "TableData" || a == "FillDataBytes") {
              std::vector<uint8_t> b; ob->GetChannelValue(s, b);
              V bs = V::A(); for (auto x : b) bs.push(V((int64_t)x)); row.set(a, bs);
            } else if (ch.DataType() == ChannelDataType::FloatLe) { float f = 0; ob->GetChannelValue(s, f); row.set(a, FloatText(f)); }
            else if (ch.DataType() == ChannelDataType::SignedIntegerLe) { int64_t i = 0; ob->GetChannelValue(s, i); row.set(a, std::to_string(i)); }
            else if (ch.DataType() == ChannelDataType::ByteArray || ch.DataType() == ChannelDataType::MimeSample) { std::vector<uint8_t> b; ob->GetChannelValue(s, b); row.set(a, Hex(b)); }
            else { uint64_t i = 0; ob->GetChannelValue(s, i); row.set(a, std::to_string(i)); }
          }
          rows.push(row);
        }
        g.set("rows", rows);
        out.push(g);
      }
      for (auto& c : co) {
        V g = V::O(); g.set("name", c->Name()); V rows = V::A();
        for (uint64_t s = 0; s < c->NofSamples(); ++s) if (auto* m = c->GetCanMessage(s)) rows.push(CanRow(*m, unit));
        g.set("rows", rows); cans.push(g);
      }
    }
    r.Close();
  }
  {
    MdfReader r(file);
    r.ReadEverythingButData();
    for (auto* dg : r.GetHeader()->DataGroups()) {
      std::vector<std::unique_ptr<CanBusObserver>> co;
      std::vector<V> rows;
      for (auto* cg : dg->ChannelGroups()) {
        if ((cg->Flags() & CgFlag::VlsdChannel) || cg->Name().rfind("CAN_", 0) != 0) continue;
        co.push_back(std::make_unique<CanBusObserver>(*dg, *cg));
      }
      rows.resize(co.size(), V::A());
      for (size_t i = 0; i < co.size(); ++i) co[i]->OnCanMessage = [&rows, i, unit](uint64_t, const CanMessage& m) { rows[i].push(CanRow(m, unit)); return true; };
      r.ReadData(*dg);
      for (size_t i = 0; i < co.size(); ++i) { V g = V::O(); g.set("name", co[i]->Name()); g.set("rows", rows[i]); cans2.push(g); }
    }
    r.Close();
  }
  rd.set("op", "read"); rd.set("ok", ok); rd.set("groups", out);
  evs.push(rd);
  V c1 = V::O(); c1.set("op", "can"); c1.set("how", "buffer"); c1.set("groups", cans); evs.push(c1);
  V c2 = V::O(); c2.set("op", "can"); c2.set("how", "callback"); c2.set("groups", cans2); evs.push(c2);
  if (!sc.flag("keep")) std::filesystem::remove(file);
  return evs;
}
}  // namespace
int main(int argc, char** argv) { return vh::Main(argc, argv, Run); }
