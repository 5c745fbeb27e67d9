// Workload engines which can run alone or several at a time in different threads.
#pragma once
#include "lib.h"
struct EngineOpts { int scale = 1; bool in_thread = false; };
void chan_engine(EngineOpts o);
void core_engine(EngineOpts o);
void stream_engine(EngineOpts o);
