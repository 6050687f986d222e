// Workload: deterministic operations on wrenfold's public C++ API, driven by a PRNG.
#pragma once
#include <string>
#include <vector>

#include "rt.h"
#include "wf/code_generation/function_description.h"
#include "wf/expression.h"
#include "wf/matrix_expression.h"

namespace work {

// Expressions shared between threads.
struct Pool {
  std::vector<wf::scalar_expr> scalars;
  std::vector<wf::matrix_expr> matrices;
};

enum Op : int {
  OP_PRINT, OP_TREE, OP_DIFF, OP_SUBS, OP_COLLECT, OP_DISTRIBUTE, OP_EVAL, OP_CSE, OP_MATRIX, OP_QUATERNION,
  OP_RELATIONAL, OP_SYMBOLIC_FUNC, OP_CODEGEN_RANDOM, OP_CODEGEN_SAMPLE, OP_EXTERNAL, OP_COMPOUND, OP_NUMSET,
  OP_SORT, OP_REBUILD, OP_IR, OP_UNIQUE, OP_PREDICATE, OP_SUMS, OP_NUMBERS, OP_LU, OP_CODEGEN_BIG, OP_HASHCMP, OP_CONSTANTS,
  OP_API, OP_API_CODEGEN,
  OP_COUNT
};
extern const char* const op_names[];

struct OpSpec { int op; uint64_t seed; };

// Executes one operation and appends its observable result to `out`. wrenfold errors are results;
// std::bad_alloc propagates.
void run_op(const OpSpec& spec, const Pool* pool, std::string& out);

// Fills the pool with shared expressions. level 0: symbols only, 1: + arithmetic, 2: everything.
void fill_pool(Pool& pool, uint64_t seed, int level);

// Removes what depends on the process-wide numbering of unique symbols (per operation output).
std::string normalise(const std::string& s);

std::vector<OpSpec> make_ops(uint64_t seed, int n, uint64_t mask);

wf::scalar_expr random_scalar(sim::Rng& r, const Pool* pool, int depth);
wf::custom_type sample_custom_type();  // two scalar members
void generate_description(const wf::function_description& d, unsigned backends, bool ternaries, std::string& out);
int num_samples();
// Generates code for sample function `which` with all back ends selected by `mask`.
void sample_codegen(int which, unsigned backends, bool ternaries, int passes, bool binarize, std::string& out);
}  // namespace work
