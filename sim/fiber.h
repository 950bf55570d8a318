// Cooperative fibers (ucontext) with ASan annotations and per-fiber C++ exception state.
#pragma once
#include <functional>
#include <stddef.h>
struct FiberCtx;
FiberCtx *fiberCreate(std::function<void()> fn);      // fn must not let exceptions escape
void fiberSwitchTo(FiberCtx *f);                       // from the scheduler (main context) to f
void fiberYieldToMain();                               // from a fiber back to the scheduler
bool fiberDone(FiberCtx *f);
void fiberDestroy(FiberCtx *f);                        // frees the stack; objects on it are leaked on purpose
FiberCtx *fiberCurrent();                              // null in the main context
