// Prints the offsets of the members the contracts speak about, taken from /repo's current headers.
#include <cstddef>
#include <cstdio>
#if defined(L_C14) || defined(L_C16)
#include "arena.h"
#endif
#if defined(L_C16)
#define LLVM_DISABLE_ABI_BREAKING_CHECKS_ENFORCING 1
#include "exec_engine.h"
#include "batch_exec_engine.h"
#include "jit_core.h"
#include "compiled_artifact.h"
#endif
#if defined(L_C15)
#include "src/compiled_artifact.cc"
#endif
#if defined(L_C18)
#include "dsu.h"
#endif
#if defined(L_C20)
#include "function_registry.h"
#endif
#include "status.h"
#define O(c, m) printf("\"%s.%s\": %zu,\n", #c, #m, offsetof(c, m))
#define Z(c) printf("\"sizeof %s\": %zu,\n", #c, sizeof(c))
using namespace jitfusion;
int main() {
  printf("{\n");
  O(Status::State, code_);
  Z(Status::State);
  Z(Status);
#if defined(L_C14)
  O(Arena, min_chunk_size_);
  O(Arena, total_bytes_);
  O(Arena, avail_bytes_);
  O(Arena, avail_buf_);
  O(Arena, chunks_);
  O(Arena, finalizers_);
  Z(Arena);
  O(Arena::Chunk, buf_);
  O(Arena::Chunk, size_);
  Z(Arena::Chunk);
  O(Arena::Finalizer, obj);
  O(Arena::Finalizer, fn);
  Z(Arena::Finalizer);
#endif
#if defined(L_C16)
  O(ExecEngine, core_);
  O(ExecEngine, entry_func_ptr_);
  O(ExecEngine, ret_type_);
  Z(ExecEngine);
  O(BatchExecEngine, core_);
  O(BatchExecEngine, entry_func_ptrs_);
  O(BatchExecEngine, ret_types_);
  Z(BatchExecEngine);
  O(ExecContext, arena);
  Z(ExecContext);
  O(ArtifactHeader, per_entry_ret_types);
  O(ArtifactHeader, fp_math_mode);
  printf("\"ArtifactMode.kSingle\": %d,\n\"ArtifactMode.kBatch\": %d,\n", static_cast<int>(ArtifactMode::kSingle), static_cast<int>(ArtifactMode::kBatch));
#endif
#if defined(L_C15)
  O(ArtifactHeader, per_entry_ret_types);
  O(ArtifactHeader, extensions);
  O(ArtifactHeader, mode);
  O(ArtifactHeader, fp_math_mode);
  Z(ArtifactHeader);
  Z(ArtifactExtension);
  O(ArtifactHeader, llvm_version);
  O(ArtifactHeader, target_triple);
  O(ArtifactHeader, cpu_name);
  O(ArtifactExtension, tag);
  O(ArtifactReader, buf_);
  O(ArtifactReader, pos_);
  Z(ArtifactReader);
  O(ArtifactExtension, payload);
  printf("\"version\": %u,\n", static_cast<unsigned>(kArtifactFormatVersion));
#endif
#if defined(L_C16)
  O(ExecEngine, core_);
  O(ExecEngine, entry_func_ptr_);
  O(ExecEngine, ret_type_);
  Z(ExecEngine);
  O(BatchExecEngine, core_);
  O(BatchExecEngine, entry_func_ptrs_);
  O(BatchExecEngine, ret_types_);
  Z(BatchExecEngine);
  Z(ExecContext);
  O(ExecContext, arena);
  O(ExecContext, errors);
  O(JitCore, option_);
  Z(JitCore);
  Z(std::string);
  Z(RetType);
#define T(x) printf("\"ValueType.%s\": %d,\n", #x, static_cast<int>(ValueType::x));
  T(kUnknown) T(kVoid) T(kU8) T(kU16) T(kU32) T(kU64) T(kI8) T(kI16) T(kI32) T(kI64) T(kF32) T(kF64) T(kString) T(kU8List) T(kU16List) T(kU32List) T(kU64List)
  T(kI8List) T(kI16List) T(kI32List) T(kI64List) T(kF32List) T(kF64List) T(kStringList) T(kPtr)
#endif
#if defined(L_C18)
  O(athena::DSU, parent_);
  O(athena::DSU, rank_);
  Z(athena::DSU);
#endif
#if defined(L_C20)
  O(FunctionSignature, func_name_);
  O(FunctionSignature, param_types_);
  O(FunctionSignature, ret_type_);
  Z(FunctionSignature);
#endif
  printf("\"end\": 0\n}\n");
}
