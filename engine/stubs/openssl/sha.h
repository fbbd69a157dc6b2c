#pragma once
#ifdef SYM_HASH_RECORD
#include "hash_record.h"
#else
#include_next <openssl/sha.h>
#endif
