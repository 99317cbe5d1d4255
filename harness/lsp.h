// Shared by the harnesses of the language server.
#pragma once
#include "hx.h"
#include <lspserver/Logger.h>
struct NullLogger : lspserver::Logger {
  void log(Level, const char *, const llvm::formatv_object_base &) override {}
};
// No log is written; the formatting of log messages is not part of any property.
static NullLogger QuietLogger;
static lspserver::LoggingSession QuietSession{QuietLogger};
inline llvm::StringRef ref(std::string_view V) { return {V.data(), V.size()}; }
