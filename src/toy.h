// A small invertible block cipher of any block size 1..255, supplied to the library
// through its public descriptor interface, so constructions are tested at every block size.
#pragma once
#include "common.h"
struct ToyCipher { kripto_desc_block*d; BlockSpec rs; };
const ToyCipher& toy(unsigned bs); // maxkey 255
