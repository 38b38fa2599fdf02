// assumed contracts: text of error messages and log output (no effect on behaviour)
#pragma once
#include "vc.h"
#ifndef VC_NATIVE
static std::string vc_anytext(void) { return std::string(); }
VC_CONTRACT(mt_ti, ".", "^Pothos::Util::typeInfoToString", vc_anytext)
VC_CONTRACT(mt_fmt, ".", "^Poco::format", vc_anytext)
VC_CONTRACT(mt_tos, ".", "^std::__cxx11::to_string", vc_anytext)
VC_CONTRACT(mt_nf, ".", "^Poco::NumberFormatter::format", vc_anytext)
static union VcLogger { char raw[1024]; } vc_logger;
static Poco::Logger &vc_nolog(void) { return *(Poco::Logger *)&vc_logger; }
VC_CONTRACT(mt_log, ".", "^Poco::Logger::(get|root)", vc_nolog)
static void vc_nothing(void) {}
VC_CONTRACT(mt_log2, ".", "^Poco::Logger::(fatal|critical|error|warning|notice|information|debug|trace|log)\\([^)]", vc_nothing)
static bool vc_off(void *) { return false; }
VC_CONTRACT(mt_log3, ".", "^Poco::Logger::(fatal|critical|error|warning|notice|information|debug|trace)\\(\\)", vc_off)
#else
#ifndef VC_REAL_TYPEINFO
namespace Pothos { namespace Util { std::string typeInfoToString(const std::type_info &) { return "?"; } } }
#endif
#endif
