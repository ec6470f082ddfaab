#pragma once
#include "pybind11/pybind11.h"
namespace pybind11_protobuf { inline void ImportNativeProtoCasters() {} }
