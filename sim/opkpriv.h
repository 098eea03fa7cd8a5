// optimpack-private.h for C++ (one member is named like a C++ keyword).
#pragma once
extern "C" {
#define export export_
#include "optimpack-private.h"
#undef export
}
