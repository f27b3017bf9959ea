#include "trace.h"
ARPC_REGISTER(rpc::Trace);
ARPC_REGISTER(rpc::Locale);
