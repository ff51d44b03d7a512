#pragma once
#include "eckit/runtime/Main.h"
// eckit::Main is needed by most components
inline void vt_main(const char* name = "vt") {
    static const char* av[] = {"vt", nullptr};
    if (!eckit::Main::ready()) {
        eckit::Main::initialise(1, const_cast<char**>(av));
    }
}
