// Shared by the component checks: logger that turns fatal lines into exceptions, small helpers.
#pragma once
#include <algorithm>
#include <memory>
#include <sstream>

#include "pbt.h"
#include "src/define.h"
#include "src/logger.h"
#include "src/raftpb/raft.pb.h"

// Fatal log lines mean "this node halts". The default console logger aborts; this one throws so the harness can judge.
class FatalLogger : public craft::Logger {
 public:
  explicit FatalLogger(bool format_all = false) : Logger(craft::LogLevel::kDebug), format_all_(format_all) {}
  void Log(craft::LogLevel level, const char* format, ...) override {
    if (level != craft::LogLevel::kFatal && !format_all_) return;
    va_list ap;
    va_start(ap, format);
    char buf[2048];
    vsnprintf(buf, sizeof buf, format, ap);
    va_end(ap);
    if (level == craft::LogLevel::kFatal) throw pbt::Fatal{buf};
  }
  void Logv(craft::LogLevel level, const char* format, va_list ap) override {
    char buf[2048];
    vsnprintf(buf, sizeof buf, format, ap);
    if (level == craft::LogLevel::kFatal) throw pbt::Fatal{buf};
  }

 private:
  bool format_all_;
};

inline std::shared_ptr<craft::Logger> make_logger(const pbt::Ctx& c) {
  return std::make_shared<FatalLogger>(pbt::g_sanitize);
}

inline craft::EntryPtr mk_entry(uint64_t index, uint64_t term, const std::string& data = "",
                                raftpb::EntryType type = raftpb::EntryNormal) {
  auto e = std::make_shared<raftpb::Entry>();
  e->set_index(index);
  e->set_term(term);
  e->set_type(type);
  if (!data.empty()) e->set_data(data);
  return e;
}
inline std::string ser(const google::protobuf::MessageLite& m) { return m.SerializeAsString(); }
// Identity of an entry: position, term, kind and bytes (absent and empty payloads are the same).
inline std::string ekey(const raftpb::Entry& e) {
  return std::to_string(e.index()) + "/" + std::to_string(e.term()) + "/" + std::to_string((int)e.type()) + "/" + e.data();
}
inline std::string set_str(const std::set<uint64_t>& s) {
  std::string o = "{";
  for (auto x : s) o += (o.size() > 1 ? "," : "") + std::to_string(x);
  return o + "}";
}
