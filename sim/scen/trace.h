// What travels with calls.
#pragma once
#include "arpc/dynamic_base_class.h"
#include "arpc/serializable.h"
namespace rpc {
// Travels with calls.
struct Trace : arpc::dynamic<Trace> {
  int64_t token = 0;
  std::string text;
  ARPC_FIELDS(token, text);
};
struct Locale : arpc::dynamic<Locale> {
  std::string lang;
  ARPC_FIELDS(lang);
};
}  // namespace rpc
