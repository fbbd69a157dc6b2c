// implementation files the harnesses of engine A link with (compiled as they are)
#include "tachyon/math/base/big_int.cc"
#include "tachyon/math/base/gmp/gmp_util.cc"
#include "tachyon/math/base/sign.cc"
#include "tachyon/math/finite_fields/prime_field_util.cc"
#include "tachyon/base/random.cc"
#include "tachyon/base/bits.cc"
#include "tachyon/base/endian.cc"
#include "tachyon/base/buffer/buffer.cc"
#include "tachyon/base/buffer/read_only_buffer.cc"
#include "tachyon/base/strings/string_util.cc"
#include "tachyon/base/strings/string_number_conversions.cc"
#include "tachyon/base/environment_posix.cc"
#include "tachyon/base/buffer/vector_buffer.cc"
