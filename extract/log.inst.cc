// one function per log statement: what each of them evaluates, and when
#include "kanon/log/logger.h"

namespace verifw {
int Probe();
using namespace kanon;
void plain_TRACE() { LOG_TRACE << Probe(); }
void fmt_TRACE() { FMT_LOG_TRACE("{0}", Probe()); }
void lib_TRACE() { LOG_TRACE_KANON << Probe(); }
void plain_DEBUG() { LOG_DEBUG << Probe(); }
void fmt_DEBUG() { FMT_LOG_DEBUG("{0}", Probe()); }
void lib_DEBUG() { LOG_DEBUG_KANON << Probe(); }
void plain_INFO() { LOG_INFO << Probe(); }
void fmt_INFO() { FMT_LOG_INFO("{0}", Probe()); }
void lib_INFO() { LOG_INFO_KANON << Probe(); }
void plain_WARN() { LOG_WARN << Probe(); }
void fmt_WARN() { FMT_LOG_WARN("{0}", Probe()); }
void lib_WARN() { LOG_WARN_KANON << Probe(); }
void plain_ERROR() { LOG_ERROR << Probe(); }
void fmt_ERROR() { FMT_LOG_ERROR("{0}", Probe()); }
void lib_ERROR() { LOG_ERROR_KANON << Probe(); }
void plain_SYSERROR() { LOG_SYSERROR << Probe(); }
void fmt_SYSERROR() { FMT_LOG_SYSERROR("{0}", Probe()); }
void lib_SYSERROR() { LOG_SYSERROR_KANON << Probe(); }
void plain_FATAL() { LOG_FATAL << Probe(); }
void fmt_FATAL() { FMT_LOG_FATAL("{0}", Probe()); }
void plain_SYSFATAL() { LOG_SYSFATAL << Probe(); }
void fmt_SYSFATAL() { FMT_LOG_SYSFATAL("{0}", Probe()); }
} // namespace verifw
