// HashJoinRuntimeCpu.cpp relies on the engine's precompiled header for these.
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntime.h"
#include "QueryEngine/JoinHashTable/Runtime/JoinColumnIterator.h"
#include "QueryEngine/RuntimeFunctions.h"
#include "StringDictionary/StringDictionary.h"
extern "C" {
int fill_one_to_one_hashtable(size_t, int32_t*, const int32_t);
int fill_hashtable_for_semi_join(size_t, int32_t*, const int32_t);
int32_t* get_bucketized_hash_slot(int32_t*, const int64_t, const int64_t, const int64_t);
}
#include "QueryEngine/JoinHashTable/Runtime/HashJoinRuntimeCpu.cpp"
