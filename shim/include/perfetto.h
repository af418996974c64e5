#pragma once
#include <memory>
#include <string>
#include <vector>
#define TRACE_EVENT(...) do {} while (0)
#define TRACE_EVENT_BEGIN(...) do {} while (0)
#define TRACE_EVENT_END(...) do {} while (0)
#define PERFETTO_DEFINE_CATEGORIES(...) static_assert(true, "")
#define PERFETTO_TRACK_EVENT_STATIC_STORAGE() static_assert(true, "")
namespace perfetto {
enum BackendType { kInProcessBackend = 1 };
struct TracingInitArgs { int backends = 0; };
struct BufferCfg { void set_size_kb(unsigned) {} };
struct DsCfgInner { void set_name(const char*) {} void set_track_event_config_raw(const std::string&) {} };
struct DsCfg { DsCfgInner in; DsCfgInner* mutable_config() { return &in; } };
struct TraceConfig { BufferCfg b; DsCfg d; BufferCfg* add_buffers() { return &b; } DsCfg* add_data_sources() { return &d; } };
struct TracingSession {
  void Setup(const TraceConfig&) {}
  void StartBlocking() {}
  void StopBlocking() {}
  std::vector<char> ReadTraceBlocking() { return std::vector<char>{'t'}; }
};
struct Tracing {
  static void Initialize(const TracingInitArgs&) {}
  static std::unique_ptr<TracingSession> NewTrace() { return std::make_unique<TracingSession>(); }
};
namespace protos::gen {
struct ProcessDescriptor { void set_process_name(const std::string&) {} };
struct TrackDescriptor { ProcessDescriptor p; ProcessDescriptor* mutable_process() { return &p; } };
}
struct ProcessTrack {
  static ProcessTrack Current() { return {}; }
  protos::gen::TrackDescriptor Serialize() const { return {}; }
};
struct TrackEvent {
  static void Register() {}
  static void Flush() {}
  static void SetTrackDescriptor(const ProcessTrack&, const protos::gen::TrackDescriptor&) {}
};
struct Category { explicit Category(const char*) {} Category& SetDescription(const char*) { return *this; } };
}  // namespace perfetto
