#include "workload.h"

#include <algorithm>
#include <map>
#include <new>

#include "sample_functions.h"
#include "wf/any_expression.h"
#include "wf/code_generation/ast_conversion.h"
#include "wf/code_generation/control_flow_graph.h"
#include "wf/code_generation/cpp_code_generator.h"
#include "wf/code_generation/expr_from_ir.h"
#include "wf/code_generation/function_evaluator.h"
#include "wf/code_generation/python_code_generator.h"
#include "wf/code_generation/rust_code_generator.h"
#include "wf/collect.h"
#include "wf/compound_expression.h"
#include "wf/cse.h"
#include "wf/derivative.h"
#include "wf/distribute.h"
#include "wf/evaluate.h"
#include "wf/expressions/all_expressions.h"
#include "wf/number_set.h"
#include "wf/substitute.h"
#include "wf/utility_visitors.h"

namespace work {
using namespace wf;
using sim::Rng;

const char* const op_names[] = {
    "print", "tree", "diff", "subs", "collect", "distribute", "eval", "cse", "matrix", "quaternion", "relational",
    "symbolic_func", "codegen_random", "codegen_sample", "external", "compound", "numset", "sort", "rebuild", "ir",
    "unique", "predicate", "sums", "numbers", "lu", "codegen_big", "hashcmp", "constants",
    "api", "api_codegen"};

namespace {

scalar_expr sym(int i) {
  static constexpr const char* names[] = {"x", "y", "z", "w", "u", "v"};
  static constexpr number_set sets[] = {number_set::unknown, number_set::real, number_set::real_positive,
                                        number_set::real_non_negative, number_set::complex, number_set::unknown};
  return scalar_expr{names[i % 6], sets[i % 6]};
}

scalar_expr leaf(Rng& r, const Pool* pool) {
  if (pool && !pool->scalars.empty() && r.chance(0.35)) return pool->scalars[r.below(pool->scalars.size())];
  switch (r.below(10)) {
    case 0: return scalar_expr{r.range(-5, 9)};
    case 1: return scalar_expr{r.range(-7, 7)} / scalar_expr{r.range(1, 9)};
    case 2: return scalar_expr{0.25 * r.range(-9, 9)};
    case 3: return r.chance(0.5) ? constants::pi : constants::euler;
    default: return sym(static_cast<int>(r.below(6)));
  }
}

// Numbers for which the functions have special cases.
scalar_expr special_number(Rng& r) {
  switch (r.below(14)) {
    case 0: return constants::zero;
    case 1: return constants::one;
    case 2: return constants::negative_one;
    case 3: return scalar_expr{r.range(-3, 3)};
    case 4: return scalar_expr{r.range(-3, 3)} / 2;
    case 5: return constants::pi * r.range(-6, 6) / r.range(1, 6);
    case 6: return r.chance(0.5) ? constants::pi : constants::euler;
    case 7: return constants::complex_infinity;
    case 8: return constants::undefined;
    case 9: return constants::imaginary_unit * r.range(-2, 2);
    case 10: return sqrt(scalar_expr{r.range(2, 3)}) / 2 * (r.chance(0.5) ? 1 : -1);
    case 11: return scalar_expr{0.5 * r.range(-4, 4)};
    case 12: return scalar_expr{r.range(-1, 1)} * scalar_expr{r.range(1, 3)} + constants::imaginary_unit * r.range(-1, 1);
    default: return scalar_expr{int64_t(1) << r.range(40, 62)} * (r.chance(0.5) ? 1 : -1);
  }
}

boolean_expr gen_bool(Rng& r, const Pool* pool, int depth);

scalar_expr gen(Rng& r, const Pool* pool, int depth) {
  if (depth <= 0 || r.chance(0.12)) return leaf(r, pool);
  switch (r.below(22)) {
    case 0: case 1: case 2: return gen(r, pool, depth - 1) + gen(r, pool, depth - 1);
    case 3: case 4: case 5: return gen(r, pool, depth - 1) * gen(r, pool, depth - 1);
    case 6: return gen(r, pool, depth - 1) - gen(r, pool, depth - 1);
    case 7: return gen(r, pool, depth - 1) / (2 + pow(gen(r, pool, depth - 1), 2));
    case 8: return pow(gen(r, pool, depth - 1), r.range(-3, 4));
    case 9: return sqrt(gen(r, pool, depth - 1));
    case 10: return cos(gen(r, pool, depth - 1));
    case 11: return sin(gen(r, pool, depth - 1));
    case 12: {
      scalar_expr a = gen(r, pool, depth - 1);
      switch (r.below(14)) {
        case 0: return tan(a);
        case 1: return acos(a);
        case 2: return asin(a);
        case 3: return atan(a);
        case 4: return cosh(a);
        case 5: return sinh(a);
        case 6: return tanh(a);
        case 7: return acosh(a);
        case 8: return asinh(a);
        case 9: return atanh(a);
        case 10: return floor(a);
        case 11: return signum(a);
        case 12: return exp(a);
        default: return log(a);
      }
    }
    case 13: return abs(gen(r, pool, depth - 1));
    case 14: return atan2(gen(r, pool, depth - 1), gen(r, pool, depth - 1));
    case 15: return where(gen_bool(r, pool, depth - 1), gen(r, pool, depth - 1), gen(r, pool, depth - 1));
    case 16: return r.chance(0.5) ? wf::max(gen(r, pool, depth - 1), leaf(r, pool)) : wf::min(leaf(r, pool), gen(r, pool, depth - 1));
    case 17: return exp(gen(r, pool, depth - 1));
    case 18: return pow(gen(r, pool, depth - 1), leaf(r, pool));
    case 19: return pow(gen(r, pool, depth - 1), scalar_expr{r.range(1, 5)} / 3);
    case 20: return iverson(gen_bool(r, pool, depth - 1)) * gen(r, pool, depth - 1);
    default: return -gen(r, pool, depth - 1);
  }
}

boolean_expr gen_bool(Rng& r, const Pool* pool, int depth) {
  scalar_expr a = gen(r, pool, depth), b = gen(r, pool, depth);
  switch (r.below(5)) {
    case 0: return a < b;
    case 1: return a <= b;
    case 2: return a > b;
    case 3: return a >= b;
    default: return a == b;
  }
}

// Sums of products with many tied candidates: exercises factorisation and collection order.
scalar_expr gen_sum(Rng& r, int nvars, int nterms) {
  scalar_expr s{0};
  for (int i = 0; i < nterms; ++i) {
    scalar_expr t{1};
    int k = r.range(1, 4);
    for (int j = 0; j < k; ++j) {
      scalar_expr v = sym(static_cast<int>(r.below(static_cast<uint64_t>(nvars))));
      t = t * (r.chance(0.25) ? cos(v) : r.chance(0.15) ? pow(v, 2) : v);
    }
    s = s + (r.chance(0.3) ? t * r.range(2, 4) : t);
  }
  return s;
}
// Conditions, subexpressions and factors that occur equally often: whatever has to choose between them
// has only their content to go by.
scalar_expr gen_tied(Rng& q, const std::vector<scalar_expr>& v) {
  const int n = q.range(2, 6), uses = q.range(1, 3);
  std::vector<boolean_expr> cond;
  for (int i = 0; i < n; ++i) {
    const scalar_expr& a = v[q.below(v.size())];
    const scalar_expr b = v[q.below(v.size())] + scalar_expr{q.range(1, 3)};
    cond.push_back(q.chance(0.5) ? a < b : q.chance(0.5) ? b < a * 2 : a <= scalar_expr{i});
  }
  const auto leaf = [&](int i) { return q.chance(0.3) ? cos(v[static_cast<size_t>(i) % v.size()]) : v[static_cast<size_t>(i) % v.size()] * scalar_expr{i + 2}; };
  scalar_expr e{0};
  for (int k = 0; k < uses; ++k)
    for (int i = 0; i < n; ++i) {
      const scalar_expr inner = q.chance(0.4) ? where(cond[static_cast<size_t>(i + 1) % cond.size()], leaf(i + k), sin(leaf(k))) : leaf(i + k);
      const scalar_expr t = where(cond[static_cast<size_t>(i)], inner, leaf(i + 2 * k + 1));
      e = q.chance(0.8) ? e + t * v[static_cast<size_t>(k) % v.size()] : e * t;
    }
  return e;
}

void generate(const ast::function_definition& def, unsigned mask, std::string& out) {
  if (mask & 1) out += cpp_code_generator{cpp_matrix_type_behavior::generic_span}(def) + "\n";
  if (mask & 2) out += cpp_code_generator{cpp_matrix_type_behavior::eigen}(def) + "\n";
  if (mask & 4) out += rust_code_generator{}(def) + "\n";
  if (mask & 8) out += python_code_generator{python_generator_target::numpy, python_generator_float_width::float64, 4, false}(def) + "\n";
  if (mask & 16) out += python_code_generator{python_generator_target::jax, python_generator_float_width::float32, 2, false}(def) + "\n";
  if (mask & 32) out += python_code_generator{python_generator_target::pytorch, python_generator_float_width::float32, 4, false}(def) + "\n";
  if (mask & 64) out += python_code_generator{python_generator_target::numpy, python_generator_float_width::float32, 4, true}(def) + "\n";
}

void lower(const function_description& d, unsigned mask, bool ternaries, int passes, bool binarize, std::string& out) {
  optimization_params p{};
  p.factorization_passes = static_cast<std::size_t>(passes);
  p.binarize_operations = binarize;
  const control_flow_graph cfg = control_flow_graph{d, p}.convert_conditionals_to_control_flow(ternaries);
  const ast::function_definition def = ast::create_ast(cfg, d);
  generate(def, mask, out);
}

template <typename F, typename... A>
void samp(F&& f, const char* name, unsigned mask, bool t, int passes, bool bin, std::string& out, A&&... a) {
  const function_description d = build_function_description(std::forward<F>(f), name, std::forward<A>(a)...);
  lower(d, mask, t, passes, bin, out);
}

void append_any(std::string& out, const any_expression& e) {
  std::visit([&](const auto& x) { out += x.to_string() + ";"; }, e);
  out += "\n";
}

std::vector<scalar_or_boolean_pair> gen_pairs(Rng& r, const Pool* pool) {
  std::vector<scalar_or_boolean_pair> pairs;
  int n = r.range(1, 4);
  for (int i = 0; i < n; ++i) {
    if (r.chance(0.2)) pairs.emplace_back(boolean_pair{gen_bool(r, pool, 1), gen_bool(r, pool, 1)});
    else pairs.emplace_back(scalar_pair{r.chance(0.7) ? sym(static_cast<int>(r.below(6))) : gen(r, pool, 1), gen(r, pool, 2)});
  }
  return pairs;
}

void op_body(int op, Rng& r, const Pool* pool, std::string& out) {
  switch (op) {
    case OP_PRINT: out += gen(r, pool, r.range(2, 5)).to_string() + ";"; break;
    case OP_TREE: out += gen(r, pool, r.range(2, 4)).to_expression_tree_string(); break;
    case OP_DIFF: {
      scalar_expr f = gen(r, pool, r.range(2, 4));
      scalar_expr v = sym(static_cast<int>(r.below(6)));
      out += f.diff(v, r.range(1, 2), r.chance(0.5) ? non_differentiable_behavior::constant : non_differentiable_behavior::abstract).to_string() + ";";
      break;
    }
    case OP_SUBS: {
      scalar_expr f = gen(r, pool, r.range(2, 4));
      if (r.chance(0.4)) {
        out += f.subs(sym(static_cast<int>(r.below(6))), gen(r, pool, 2)).to_string() + ";";
      } else {
        auto pairs = gen_pairs(r, pool);
        out += substitute(f, pairs, r.chance(0.3)).to_string() + ";";
      }
      break;
    }
    case OP_COLLECT: {
      scalar_expr f = gen_sum(r, r.range(2, 5), r.range(3, 8)).distribute();
      std::vector<scalar_expr> terms;
      int n = r.range(1, 3);
      for (int i = 0; i < n; ++i) terms.push_back(r.chance(0.8) ? sym(static_cast<int>(r.below(5))) : cos(sym(1)));
      out += f.collect(terms).to_string() + ";";
      break;
    }
    case OP_DISTRIBUTE: {
      scalar_expr f = (gen_sum(r, 3, 3) + 1) * (gen_sum(r, 3, 2) - gen(r, pool, 1));
      if (r.chance(0.4)) f = pow(f, 2);
      out += f.distribute().to_string() + ";";
      break;
    }
    case OP_EVAL: {
      scalar_expr f = gen(r, pool, r.range(2, 4));
      for (int i = 0; i < 6; ++i) if (r.chance(0.8)) f = f.subs(sym(i), scalar_expr{r.range(1, 5)} / r.range(1, 4));
      out += f.eval().to_string() + ";";
      break;
    }
    case OP_CSE: {
      auto mk = [](std::size_t i) { return scalar_expr{"t" + std::to_string(i)}; };
      if (r.chance(0.5)) {
        scalar_expr a = gen(r, pool, 3), b = gen(r, pool, 2);
        auto [e, reps] = eliminate_subexpressions(a * b + cos(a) - pow(b, 3) + sin(b) * a, mk, 2);
        out += e.to_string() + ";";
        for (const auto& [k, v] : reps) out += "; " + k.to_string() + "=" + v.to_string() + ";";
      } else {
        scalar_expr a = gen(r, pool, 2), b = gen(r, pool, 2);
        auto [e, reps] = eliminate_subexpressions(make_vector(a * b, cos(a * b), a + cos(a), sin(b) + cos(a)), mk, static_cast<std::size_t>(r.range(1, 3)));
        out += e.to_string() + ";";
        for (const auto& [k, v] : reps) out += "; " + k.to_string() + "=" + v.to_string() + ";";
      }
      break;
    }
    case OP_MATRIX: {
      int n = r.range(1, 3), m = r.range(1, 3);
      std::vector<scalar_expr> a, b;
      for (int i = 0; i < n * m; ++i) { a.push_back(gen(r, pool, 2)); b.push_back(gen(r, pool, 1)); }
      matrix_expr A = matrix_expr::create(n, m, std::move(a));
      matrix_expr B = matrix_expr::create(m, n, std::move(b));
      matrix_expr P = A * B;
      if (pool && !pool->matrices.empty() && r.chance(0.3)) out += pool->matrices[r.below(pool->matrices.size())].to_string() + ";";
      out += P.to_string() + ";";
      out += hstack({P, P.transposed()}).to_string() + ";";
      out += vstack({A, A}).get_block(0, 0, n, m).to_string() + ";";
      out += diagonal_stack({A, B}).to_string() + ";";
      out += P.squared_norm().to_string() + ";" + A.norm().to_string() + ";";
      out += P.diff(sym(0)).to_string() + ";";
      out += vectorize_matrix(A).jacobian({sym(0), sym(1)}).to_string() + ";";
      out += P.subs(sym(1), gen(r, pool, 1)).to_string() + ";";
      out += P.distribute().to_string() + ";";
      out += P.to_expression_tree_string();
      if (n == m) out += determinant(A).to_string() + ";";
      out += where(gen_bool(r, pool, 1), A, A * 2).to_string() + ";";
      out += make_identity(n).to_string() + ";" + make_zeros(n, m).to_string() + ";" + diagonal({sym(0), sym(1)}).to_string() + ";";
      break;
    }
    case OP_QUATERNION: {
      quaternion q = quaternion::from_name_prefix("q");
      quaternion p{gen(r, pool, 1), sym(0), sym(1), gen(r, pool, 1)};
      switch (r.below(7)) {
        case 0: out += (q * p).to_rotation_matrix().to_string() + ";"; break;
        case 1: out += q.rotate(make_vector(sym(0), sym(1), sym(2))).to_string() + ";"; break;
        case 2: out += quaternion::from_rotation_vector(make_vector(sym(0), sym(1), sym(2)), scalar_expr{1.0e-16}).to_vector_wxyz().to_string() + ";"; break;
        case 3: out += q.to_rotation_vector(scalar_expr{1.0e-16}, r.chance(0.5)).to_string() + ";"; break;
        case 4: out += q.right_retract_derivative().to_string() + ";" + q.right_local_coordinates_derivative().to_string() + ";"; break;
        case 5: out += left_jacobian_of_so3(make_vector(sym(0), sym(1), sym(2)), scalar_expr{1.0e-10}).to_string() +
                       inverse_left_jacobian_of_so3(make_vector(sym(0), sym(1), sym(2)), scalar_expr{1.0e-10}).to_string(); break;
        default: out += p.conjugate().inverse().normalized().subs(sym(1), gen(r, pool, 1)).to_vector_xyzw().to_string() +
                        q.jacobian(q).to_string() + std::get<1>(q.to_angle_axis(scalar_expr{1e-16})).to_string(); break;
      }
      break;
    }
    case OP_RELATIONAL: {
      boolean_expr b = gen_bool(r, pool, r.range(1, 3));
      out += b.to_string() + ";" + b.to_expression_tree_string();
      out += b.subs(sym(0), gen(r, pool, 1)).to_string() + ";";
      out += where(b, gen(r, pool, 2), gen(r, pool, 1)).diff(sym(0)).to_string() + ";";
      out += iverson(b).to_string() + ";";
      break;
    }
    case OP_SYMBOLIC_FUNC: {
      symbolic_function f{r.chance(0.5) ? "f" : "g"};
      scalar_expr e = f(sym(0), gen(r, pool, 1)) * sym(1) + f(gen(r, pool, 1));
      scalar_expr d = e.diff(sym(0), 1).diff(sym(1), 1);
      out += e.to_string() + " | " + d.to_string() + " | " + d.to_expression_tree_string();
      out += d.subs(sym(0), gen(r, pool, 1)).to_string() + ";";
      out += stop_diff(e).diff(sym(0)).to_string() + ";" + make_unevaluated(e * 2).to_string() + ";";
      out += derivative::create(e, sym(1), 2).to_string() + ";";
      break;
    }
    case OP_CODEGEN_RANDOM: {
      uint64_t s1 = r.next();
      const bool optional = r.chance(0.4);
      auto f = [&](scalar_expr x, ta::static_matrix<2, 1> v, ta::int_scalar_expr k) {
        Rng q(s1);
        const scalar_expr kk = static_cast<const scalar_expr&>(k);
        auto swap = [&](scalar_expr e) {
          return e.subs(sym(0), x).subs(sym(1), v[0]).subs(sym(2), v[1]).subs(sym(3), x * v[0]).subs(sym(4), kk).subs(sym(5), x + kk);
        };
        scalar_expr a = swap(q.chance(0.35) ? gen_tied(q, {sym(0), sym(1), sym(2)}) : gen(q, nullptr, 3)), b = swap(gen(q, nullptr, 3)), c = swap(gen_sum(q, 4, 5));
        ta::static_matrix<2, 2> m{make_matrix(2, 2, a, b, c, a * b + c)};
        return std::make_tuple(return_value(a + b * c), output_arg("m", m),
                               optional ? optional_output_arg("o", b - c) : output_arg("o", b - c));
      };
      samp(std::move(f), "fn", static_cast<unsigned>(1u << r.below(7)), r.chance(0.7), r.range(0, 4), r.chance(0.7), out, arg("x"), arg("v"), arg("k"));
      break;
    }
    case OP_CODEGEN_SAMPLE:
      sample_codegen(static_cast<int>(r.below(static_cast<uint64_t>(num_samples()))), static_cast<unsigned>(1u << r.below(7)), r.chance(0.7), r.range(0, 3), r.chance(0.7), out);
      break;
    case OP_EXTERNAL: {
      scalar_expr e = external_function_1::call(gen(r, pool, 1), gen(r, pool, 1));
      out += e.to_string() + ";" + e.to_expression_tree_string();
      auto m = external_function_3::call(make_vector(gen(r, pool, 1), sym(1)), make_vector(sym(2), gen(r, pool, 1)));
      out += m.inner().to_string() + ";";
      auto p = external_function_4::call(symbolic::Point2d{gen(r, pool, 1), sym(0)});
      out += p.x.to_string() + ";" + p.y.to_expression_tree_string();
      out += (e * p.x).subs(sym(0), gen(r, pool, 1)).to_string() + ";";
      break;
    }
    case OP_COMPOUND: {
      custom_type_registry reg{};
      const auto types = detail::record_arg_types(reg, type_list<symbolic::Circle, symbolic::Point2d>{});
      const custom_type circle = std::get<0>(types).inner();
      const compound_expr in = create_custom_type_argument(circle, "c");
      std::vector<scalar_expr> el = create_expression_elements(in, circle.total_size());
      scalar_expr acc{r.range(1, 3)};
      for (const auto& e : el) acc = acc * e + gen(r, pool, 1);
      out += in.to_string() + ";" + in.to_expression_tree_string() + acc.to_string() + ";";
      std::vector<scalar_expr> vals;
      for (std::size_t i = 0; i < circle.total_size(); ++i) vals.push_back(r.chance(0.4) ? el[i] : gen(r, pool, 2));
      const compound_expr con = create_custom_type_construction(circle, vals);
      out += con.to_string() + ";" + con.to_expression_tree_string();
      out += acc.diff(el[0]).to_string() + ";" + acc.subs(el[1], gen(r, pool, 1)).to_string() + ";";
      const auto pt = external_function_4::call(symbolic::Point2d{acc, sym(1)});
      out += pt.x.to_string() + ";" + (pt.x * pt.y).diff(sym(1)).to_string() + ";";
      const compound_expr again = create_custom_type_construction(circle, create_expression_elements(con, circle.total_size()));
      out += again.to_string() + ";" + (are_identical(con, again) ? "=" : "#");
      break;
    }
    case OP_NUMSET: {
      scalar_expr e = gen(r, pool, r.range(1, 4));
      out += std::to_string(static_cast<int>(determine_numeric_set(e)));
      out += is_numeric(e) ? "N" : "n";
      out += is_negative_number(e) ? "-" : "+";
      out += is_function_of(e, sym(0)) ? "f" : "g";
      out += std::string(e.type_name());
      break;
    }
    case OP_SORT: {
      std::vector<scalar_expr> v;
      int n = r.range(4, 12);
      for (int i = 0; i < n; ++i) v.push_back(gen(r, pool, r.range(0, 3)));
      std::sort(v.begin(), v.end(), expression_order_struct{});
      for (const auto& e : v) out += e.to_string() + ", ";
      break;
    }
    case OP_REBUILD: {
      uint64_t s1 = r.next();
      auto f = [&](scalar_expr x, scalar_expr y) {
        Rng q(s1);
        scalar_expr a = gen(q, nullptr, 3).subs(sym(0), x).subs(sym(1), y);
        scalar_expr b = gen_sum(q, 3, 4).subs(sym(0), x).subs(sym(1), y);
        for (int i = 2; i < 6; ++i) { a = a.subs(sym(i), x * i); b = b.subs(sym(i), y * i); }
        return std::make_tuple(return_value(a * b), output_arg("o1", a - b), optional_output_arg("o2", b));
      };
      const function_description d = build_function_description(std::move(f), "fn", arg("x"), arg("y"));
      const control_flow_graph cfg{d, optimization_params{}};
      rebuilt_expressions re = rebuild_expression_tree(cfg.first_block(), {}, r.chance(0.5));
      std::map<std::string, const any_expression*> sorted;
      for (const auto& [k, v] : re.output_expressions) sorted.emplace(k.name + std::to_string(static_cast<int>(k.usage)), &v);
      for (const auto& [k, v] : sorted) { out += k + ": "; append_any(out, *v); }
      for (const auto& [k, v] : re.intermediate_values) out += k.to_string() + "=" + v.to_string() + "\n";
      break;
    }
    case OP_IR: {
      uint64_t s1 = r.next();
      auto f = [&](scalar_expr x, scalar_expr y) {
        Rng q(s1);
        scalar_expr a = (q.chance(0.35) ? gen_tied(q, {sym(0), sym(1), sym(2), sym(3)}) : gen(q, nullptr, 3)).subs(sym(0), x).subs(sym(1), y);
        for (int i = 2; i < 6; ++i) a = a.subs(sym(i), x + y * i);
        return std::make_tuple(return_value(a), output_arg("b", gen_sum(q, 4, 6).subs(sym(0), x).subs(sym(1), y).subs(sym(2), x * y).subs(sym(3), y - x)));
      };
      const function_description d = build_function_description(std::move(f), "fn", arg("x"), arg("y"));
      control_flow_graph raw{d};
      out += raw.to_string() + ";";
      control_flow_graph cfg = control_flow_graph{d, optimization_params{static_cast<std::size_t>(r.range(0, 4)), r.chance(0.5)}}.convert_conditionals_to_control_flow(r.chance(0.5));
      out += cfg.to_string() + ";";
      out += std::to_string(cfg.num_operations()) + "," + std::to_string(cfg.num_conditionals()) + "," + std::to_string(cfg.num_blocks()) + "," +
             std::to_string(cfg.count_additions()) + "," + std::to_string(cfg.count_multiplications()) + "," +
             std::to_string(cfg.count_function(std_math_function::cos));
      for (const auto& [label, n] : cfg.compute_operation_counts().labels_and_counts()) out += std::to_string(static_cast<int>(label)) + ":" + std::to_string(n) + " ";
      break;
    }
    case OP_UNIQUE: {
      int n = r.range(1, 4);
      scalar_expr s{0};
      for (int i = 0; i < n; ++i) {
        scalar_expr u = make_unique_variable_symbol(r.chance(0.5) ? number_set::real : number_set::unknown);
        s = s + u * gen(r, pool, 1);
      }
      out += s.to_string() + ";";
      out += s.diff(sym(0)).to_string() + ";";
      symbolic_function f{"h"};
      out += f(sym(0) * 2, pow(sym(1), 2)).diff(sym(0)).to_string() + ";";
      break;
    }
    case OP_PREDICATE: {
      scalar_expr e = gen(r, pool, r.range(2, 4));
      auto v = get_expressions_by_predicate(e, [](const scalar_expr& x) { return x.is_type<variable, power, built_in_function_invocation>(); });
      for (const auto& x : v) out += x.to_string() + ", ";
      break;
    }
    case OP_SUMS: {
      uint64_t s1 = r.next();
      int nv = r.range(2, 5), nt = r.range(4, 12);
      auto f = [&](scalar_expr x, scalar_expr y, scalar_expr z, scalar_expr w, scalar_expr u) {
        Rng q(s1);
        scalar_expr e = gen_sum(q, nv, nt), e2 = gen_sum(q, nv, nt / 2 + 1);
        const scalar_expr to[] = {x, y, z, w, u};
        for (int i = 0; i < 5; ++i) { e = e.subs(sym(i), to[i]); e2 = e2.subs(sym(i), to[i]); }
        return std::make_tuple(return_value(e), output_arg("d", e.diff(x) * e2), output_arg("g", e2.diff(y) + e));
      };
      samp(std::move(f), "sums", static_cast<unsigned>(1u << r.below(7)), true, r.range(0, 4), r.chance(0.7), out, arg("x"), arg("y"), arg("z"), arg("w"), arg("u"));
      break;
    }
    case OP_NUMBERS: {
      scalar_expr a = scalar_expr{r.range(-20, 20)} / r.range(1, 12), b{0.125 * r.range(-30, 30)};
      out += (a * b + a / (b + 7) - pow(a, 2) + pow(scalar_expr{r.range(2, 40)}, scalar_expr{1} / r.range(2, 4))).to_string() + ";";
      out += (pow(a + constants::imaginary_unit * 2, 3)).distribute().to_string() + ";";
      out += floor(a).to_string() + ";" + abs(a).to_string() + ";" + signum(b).to_string() + ";" + cos(constants::pi * a).to_string() + ";" + sqrt(a).to_string() + ";";
      out += scalar_expr::from_complex(0.5 * r.range(-3, 3), 2).to_string() + ";";
      out += (a < b).to_string() + ";" + (a == a).to_string() + ";" + wf::max(a, b).to_string() + ";" + atan2(a, b).eval().to_string() + ";";
      out += pow(scalar_expr{0}, a).to_string() + ";";
      break;
    }
    case OP_CONSTANTS: {
      // A few special cases each: what one of them sets up is new to most runs.
      for (int i = r.range(1, 5); i-- > 0;) {
        const scalar_expr a = special_number(r), b = r.chance(0.3) ? a : r.chance(0.3) ? -a : special_number(r);
        std::string s;
        try {
          scalar_expr e = a;
          switch (r.below(32)) {
            case 0: e = cos(a); break;
            case 1: e = sin(a); break;
            case 2: e = tan(a); break;
            case 3: e = acos(a); break;
            case 4: e = asin(a); break;
            case 5: e = atan(a); break;
            case 6: e = cosh(a); break;
            case 7: e = sinh(a); break;
            case 8: e = tanh(a); break;
            case 9: e = acosh(a); break;
            case 10: e = asinh(a); break;
            case 11: e = atanh(a); break;
            case 12: e = floor(a); break;
            case 13: e = signum(a); break;
            case 14: e = abs(a); break;
            case 15: e = exp(a); break;
            case 16: e = log(a); break;
            case 17: e = sqrt(a); break;
            case 18: case 19: e = pow(a, b); break;
            case 20: case 21: case 22: e = atan2(a, b); break;
            case 23: e = a + b; break;
            case 24: e = a - b; break;
            case 25: e = a * b; break;
            case 26: e = a / b; break;
            case 27: e = wf::max(a, b); break;
            case 28: e = wf::min(a, b); break;
            case 29: s = (r.chance(0.5) ? a < b : a <= b).to_string(); break;
            case 30: s = (a == b).to_string(); break;
            default: e = where(a < b, sym(0), sym(1)) + iverson(a >= b); break;
          }
          s += e.to_string() + ";" + std::to_string(static_cast<int>(determine_numeric_set(e)));
          s += ";" + (e * sym(0) + pow(sym(1), 2)).subs(sym(0), b).to_string() + ";" + e.eval().to_string();
        } catch (const std::bad_alloc&) {
          throw;
        } catch (const std::exception& e) {
          s += std::string("EXC:") + e.what();
        }
        out += s + "|";
      }
      break;
    }
    case OP_API: {
      const uint64_t which = r.below(21);
      switch (which < 17 ? which : 9) {
        case 0: {
          const scalar_expr e = gen(r, pool, 2) + make_unevaluated(gen(r, pool, 2)) * stop_diff(gen(r, pool, 2));
          out += e.to_string() + ";" + e.to_expression_tree_string() + e.diff(sym(0)).to_string() + ";" + e.subs(sym(1), gen(r, pool, 1)).distribute().to_string();
          break;
        }
        case 1: {
          int n = r.range(1, 3), m = r.range(1, 3);
          std::vector<scalar_expr> a;
          for (int i = 0; i < n * m; ++i) a.push_back(gen_sum(r, 3, 2) * leaf(r, pool));
          const matrix_expr A = matrix_expr::create(n, m, std::move(a)), S = make_matrix_of_symbols("m", n, m);
          out += (-A).to_string() + ";" + (A - S).to_string() + ";" + (A + S / sym(1)).to_string() + ";" + A.reshape(m * n, 1).to_string() + ";";
          out += A.collect({sym(0), sym(1)}).to_string() + ";" + A.subs(sym(0), scalar_expr{r.range(1, 3)}).eval().to_string() + ";";
          for (const scalar_expr& x : S.to_vector()) out += x.to_string() + ",";
          out += std::to_string(static_cast<int>(order_struct<matrix_expr>{}(A, S))) + (are_identical(A, S) ? "=" : "#");
          break;
        }
        case 2: {  // dimension errors
          const matrix_expr A = make_matrix_of_symbols("m", r.range(1, 3), r.range(1, 3)), B = make_matrix_of_symbols("n", r.range(1, 3), r.range(1, 3));
          switch (r.below(9)) {
            case 0: out += (A + B).to_string(); break;
            case 1: out += (A * B).to_string(); break;
            case 2: out += hstack({A, B}).to_string(); break;
            case 3: out += vstack({A, B}).to_string(); break;
            case 4: out += A.reshape(2, 2).to_string(); break;
            case 5: out += A.get_block(1, 0, 1, 2).to_string(); break;
            case 6: out += A.jacobian(B).to_string(); break;
            case 7: out += determinant(A).to_string(); break;
            default: out += A(r.range(0, 3), r.range(0, 3)).to_string() + A[r.range(0, 3)].to_string(); break;
          }
          break;
        }
        case 3: {
          const boolean_expr t{r.chance(0.5)};
          out += t.to_string() + t.to_expression_tree_string() + where(t, gen(r, pool, 1), sym(0)).to_string() + iverson(t).to_string() + t.subs(sym(0), sym(1)).to_string();
          const boolean_expr b = gen_bool(r, pool, 1);
          out += where(b, sym(0), scalar_expr{1}).to_string() + (are_identical(b, t) ? "=" : "#") + std::to_string(static_cast<int>(order_struct<boolean_expr>{}(b, t)));
          std::vector<scalar_or_boolean_pair> pairs;
          pairs.emplace_back(boolean_pair{b, boolean_expr{r.chance(0.5)}});
          out += substitute(where(b, gen(r, pool, 1), sym(1)), pairs, r.chance(0.5)).to_string() + substitute(b, pairs).to_string();
          break;
        }
        case 4: {
          quaternion q = quaternion::from_name_prefix("q"), p = quaternion::from_angle_axis(sym(0), make_vector(sym(1), sym(2), gen(r, pool, 1)));
          const quaternion a[] = {quaternion::from_x_angle(sym(0)), quaternion::from_y_angle(sym(0)), quaternion::from_z_angle(sym(0))};
          out += (-(q * p)).to_vector_wxyz().to_string() + (a[r.below(3)] * a[r.below(3)]).to_rotation_matrix().to_string();
          out += q.squared_norm().to_string() + q.norm().to_string() + (q.is_identical_to(-(-q)) ? "=" : "#");
          break;
        }
        case 5: {
          const quaternion q = quaternion::from_rotation_matrix(make_matrix_of_symbols("R", 3, r.chance(0.9) ? 3 : 2));
          out += q.to_vector_wxyz().subs(scalar_expr{"R_0_0"}, gen(r, pool, 1)).to_string();
          break;
        }
        case 6: {  // substitution of compound targets, powers and parts of sums
          const scalar_expr x = sym(0), y = sym(1), z = sym(2);
          const scalar_expr f = pow(x, scalar_expr{r.range(1, 7)} / r.range(1, 3)) * pow(y, r.range(1, 4)) * z + (x + y + z) * gen(r, pool, 1) + (x * 2 + y + cos(x + y));
          const scalar_expr targets[] = {pow(x, scalar_expr{r.range(1, 4)} / 2), x * y, x + y, x * y * y, pow(x, 2), x + y + 1, cos(x + y), scalar_expr{r.range(1, 3)}};
          out += f.subs(targets[r.below(8)], gen(r, pool, 1)).to_string() + ";";
          std::vector<scalar_or_boolean_pair> pairs;
          for (int i = r.range(2, 4); i-- > 0;) pairs.emplace_back(scalar_pair{targets[r.below(8)], leaf(r, pool)});
          out += substitute(f, pairs, r.chance(0.5)).to_string() + ";" + substitute(make_vector(f, x * y), pairs).to_string();
          break;
        }
        case 7: {  // visitors applied to compounds
          custom_type_registry reg{};
          const custom_type circle = std::get<0>(detail::record_arg_types(reg, type_list<symbolic::Circle>{})).inner();
          std::vector<scalar_expr> v;
          for (std::size_t i = 0; i < circle.total_size(); ++i) v.push_back((gen(r, pool, 1) + 1) * (sym(0) + sym(static_cast<int>(i % 3))));
          const compound_expr c = create_custom_type_construction(circle, std::move(v));
          out += distribute_visitor{}(c).to_string() + ";" + evaluate_visitor{}(c).to_string() + ";";
          std::vector<scalar_or_boolean_pair> pairs;
          pairs.emplace_back(scalar_pair{sym(0), gen(r, pool, 1)});
          if (r.chance(0.5)) pairs.emplace_back(scalar_pair{sym(1), sym(0)});
          out += substitute(c, pairs).to_string() + ";";
          const boolean_expr b = gen_bool(r, pool, 1);
          out += distribute_visitor{}(b).to_string() + ";" + evaluate_visitor{}(b).to_string();
          std::vector<any_expression> all{c, b, make_vector(sym(0), sym(1)), sym(0)};
          std::sort(all.begin(), all.end(), [](const any_expression& a, const any_expression& b) { return order_struct<any_expression>{}(a, b) == relative_order::less_than; });
          for (const any_expression& a : all) append_any(out, a);
          break;
        }
        case 8: {  // arguments of external functions that do not match
          std::vector<any_expression> args;
          for (int i = r.range(0, 3); i-- > 0;) {
            if (r.chance(0.3)) args.emplace_back(make_vector(sym(0), sym(1)));
            else if (r.chance(0.2)) args.emplace_back(gen_bool(r, pool, 0));
            else args.emplace_back(gen(r, pool, 1));
          }
          const external_function f{"ext", {argument{"a", scalar_type{numeric_primitive_type::floating_point}, argument_direction::input, 0},
                                            argument{"b", matrix_type{2, 1}, argument_direction::input, 1}},
                                    r.chance(0.5) ? type_variant{scalar_type{numeric_primitive_type::floating_point}} : type_variant{matrix_type{2, 2}}};
          out += f.name() + std::to_string(f.arg_position(r.chance(0.5) ? "b" : "c").has_value());
          if (r.chance(0.5)) args = {gen(r, pool, 1), make_vector(sym(0), sym(1))};
          append_any(out, f.create_invocation(std::move(args)));
          break;
        }
        case 9: {  // integers and rationals at the edge of their range
          auto edge = [&r]() -> int64_t {
            switch (r.below(6)) {
              case 0: return std::numeric_limits<int64_t>::max() - r.range(0, 2);
              case 1: return std::numeric_limits<int64_t>::min() + r.range(0, 2);
              case 2: return (int64_t(1) << r.range(50, 62)) + r.range(-1, 1);
              case 3: return -(int64_t(1) << r.range(50, 62)) + r.range(-1, 1);
              case 4: return r.range(-4, 4);
              default: return (int64_t(1) << r.range(20, 40)) * r.range(-9, 9) + r.range(-5, 5);
            }
          };
          auto number = [&]() -> scalar_expr {
            int64_t n = edge(), d = r.chance(0.4) ? 1 : edge();
            if (d == 0) d = 3;
            if (r.chance(0.1)) return scalar_expr{static_cast<double>(n) * 0.5};
            return r.chance(0.5) || d == 1 ? scalar_expr{rational_constant{n, d}} : scalar_expr{n} / scalar_expr{d};
          };
          for (int i = r.range(1, 4); i-- > 0;) {
            std::string s;
            try {
              const scalar_expr a = number(), b = number();
              scalar_expr e = a;
              switch (r.below(20)) {
                case 0: e = a + b; break;
                case 1: e = a - b; break;
                case 2: e = a * b; break;
                case 3: e = a / b; break;
                case 4: e = -a; break;
                case 5: e = abs(a) + signum(b); break;
                case 6: e = floor(a); break;
                case 7: e = pow(a, r.range(-4, 4)); break;
                case 8: e = a * sym(0) + b * sym(0); break;
                case 9: e = pow(sym(0), a) * pow(sym(0), b); break;
                case 10: e = pow(pow(sym(2), a), b); break;
                case 11: e = where(a < b, sym(0), sym(1)) + iverson(a == b); break;
                case 12: e = cos(constants::pi * a) + sin(constants::pi * b) + tan(constants::pi * a); break;
                case 13: e = atan2(a, b); break;
                case 14: e = wf::max(a, b) * sym(1); break;
                case 15: e = (pow(sym(0), a) + sym(1)).subs(pow(sym(0), b), sym(2)); break;
                case 16: e = (sym(0) * a + sym(1) * b + 1).collect(sym(0)); break;
                case 17: e = pow(sym(0) + a, 2).distribute() * b; break;
                case 18: e = (pow(sym(0), a) * b).diff(sym(0)); break;
                default: e = pow(a + constants::imaginary_unit * b, 2); break;
              }
              s += std::to_string(static_cast<int>(determine_order(a, b))) + std::to_string(static_cast<int>(determine_numeric_set(e)));
              s += e.to_string() + ";" + e.eval().to_string() + ";" + (e * sym(3)).to_expression_tree_string() + (e + a + b).subs(sym(0), b).to_string();
            } catch (const std::bad_alloc&) {
              throw;
            } catch (const std::exception& e) {
              s += std::string("EXC:") + e.what();
            }
            out += s + "|";
          }
          break;
        }
        case 10: {  // sequence of derivatives and nesting of unevaluated derivatives
          symbolic_function f{"f"};
          scalar_expr e = derivative::create(f(sym(0), sym(1)) * gen(r, pool, 1), sym(0), r.range(1, 2));
          if (r.chance(0.5)) e = derivative::create(e, sym(1), 1);
          out += e.to_string() + e.diff(sym(0)).to_string() + e.to_expression_tree_string() + e.subs(sym(1), gen(r, pool, 1)).to_string();
          break;
        }
        case 11: {  // errors of the public functions
          switch (r.below(7)) {
            case 0: out += sym(0).diff(gen(r, pool, 1)).to_string(); break;
            case 1: out += sym(0).diff(sym(0), -1).to_string(); break;
            case 2: out += matrix_expr::create(2, 2, {sym(0)}).to_string(); break;
            case 3: out += symbolic_function{""}.name(); break;
            case 4: out += scalar_expr{""}.to_string(); break;
            case 5: out += scalar_expr{std::numeric_limits<double>::quiet_NaN()}.to_string() + scalar_expr{std::numeric_limits<double>::infinity()}.to_string(); break;
            default: out += make_zeros(r.range(-1, 1), 1).to_string() + make_identity(r.range(-1, 1)).to_string(); break;
          }
          break;
        }
        case 12: {
          const matrix_expr A = make_matrix(2, 2, gen(r, pool, 1), sym(0), sym(1) * sym(0), gen(r, pool, 1));
          out += where(gen_bool(r, pool, 0), A, -A).diff(sym(0)).to_string() + where(sym(0) < sym(1), A, make_zeros(2, 2)).to_expression_tree_string();
          out += A.norm().diff(sym(0), 2).to_string() + diagonal_stack({A, make_identity(1), A}).transposed().to_string() + make_row_vector(sym(0), sym(1)).to_string();
          break;
        }
        case 13: {
          const scalar_expr e = gen(r, pool, 3);
          out += std::to_string(e.hash() == (e + 0).hash()) + e.collect(sym(0)).to_string() + wf::distribute(e).to_string();
          break;
        }
        case 14: {  // min/max/where chains
          scalar_expr e = sym(0);
          for (int i = r.range(2, 8); i-- > 0;) e = r.chance(0.5) ? wf::max(e, sym(static_cast<int>(r.below(6)))) : where(sym(static_cast<int>(r.below(3))) < e, e, gen(r, pool, 0));
          out += e.to_string() + e.diff(sym(1)).to_string();
          break;
        }
        case 15: {  // towers of powers and repeated squaring of sums
          scalar_expr e = sym(0) + sym(1);
          for (int i = r.range(1, 3); i-- > 0;) e = pow(e * (r.chance(0.5) ? sym(2) : e), r.chance(0.5) ? scalar_expr{r.range(2, 3)} : scalar_expr{1} / r.range(2, 3));
          out += e.to_string() + e.distribute().to_string() + e.collect(sym(0)).to_string();
          break;
        }
        default: {
          scalar_expr a = gen(r, pool, 2), b = gen(r, pool, 1);
          auto mk = [](std::size_t i) { return scalar_expr{"t" + std::to_string(i)}; };
          auto [e, reps] = eliminate_subexpressions(where(a < b, a * b, cos(a) + b) + external_function_1::call(a, b) * iverson(a < b) + make_unevaluated(a * b), mk, 2);
          out += e.to_string() + ";";
          for (const auto& [k, v] : reps) out += "; " + k.to_string() + "=" + v.to_string() + ";";
          break;
        }
      }
      break;
    }
    case OP_API_CODEGEN: {
      const unsigned m = static_cast<unsigned>(1u << r.below(7));
      const bool t = r.chance(0.7), bin = r.chance(0.7);
      const int passes = r.range(0, 3);
      const uint64_t s1 = r.next();
      switch (r.below(7)) {
        case 0: {
          auto f = [&](scalar_expr x, scalar_expr y) {
            Rng q(s1);
            auto swap = [&](const scalar_expr& e) { return e.subs(sym(0), x).subs(sym(1), y).subs(sym(2), x * y).subs(sym(3), y + 2).subs(sym(4), x - y).subs(sym(5), y * y); };
            const scalar_expr a = swap(gen(q, nullptr, 2)), b = swap(gen(q, nullptr, 2));
            return std::make_tuple(return_value(make_unevaluated(a * 2) + stop_diff(b) * x), output_arg("d", (stop_diff(a) * b * x).diff(x)), output_arg("u", pow(make_unevaluated(x + y), 3)));
          };
          samp(std::move(f), "uneval", m, t, passes, bin, out, arg("x"), arg("y"));
          break;
        }
        case 1: {
          auto f = [&](scalar_expr x, ta::static_matrix<3, 1> v) {
            Rng q(s1);
            const scalar_expr c = q.chance(0.5) ? constants::pi : constants::euler;
            return std::make_tuple(output_arg("c", c * 2), output_arg("n", scalar_expr{q.range(-3, 3)}), output_arg("z", ta::static_matrix<3, 1>{make_zeros(3, 1)}),
                                   optional_output_arg("f", scalar_expr{0.5 * q.range(-5, 5)} + x * (int64_t(1) << q.range(3, 60))), output_arg("i", iverson(x < v[0]) + iverson(v[1] == x)),
                                   output_arg("s", signum(x) * floor(v[2]) + exp(x) + pow(x, scalar_expr{q.range(-7, 7)} / 2)));
          };
          samp(std::move(f), "consts", m, t, passes, bin, out, arg("x"), arg("v"));
          break;
        }
        case 2: {
          auto f = [&](symbolic::Circle c, scalar_expr x) {
            Rng q(s1);
            const scalar_expr w = where(c.radius < x, external_function_1::call(c.radius, x), c.center.x * q.range(1, 3));
            return std::make_tuple(return_value(symbolic::Circle{symbolic::Point2d{w, c.center.y}, w * x}), optional_output_arg("o", w.diff(x)), optional_output_arg("p", symbolic::Point2d{x, w}));
          };
          samp(std::move(f), "comp", m, t, passes, bin, out, arg("c"), arg("x"));
          break;
        }
        case 3: {  // rebuild with external functions, conditionals and optional outputs
          auto f = [&](scalar_expr x, scalar_expr y) {
            Rng q(s1);
            const scalar_expr e = external_function_1::call(x, y * q.range(1, 4));
            const scalar_expr w = where(x < y, where(e < y, cos(x) + e, sin(y) * 3), where(y < 2, e * e, sqrt(abs(x)) + floor(y)));
            return std::make_tuple(return_value(w * 2 + e), output_arg("d", w + external_function_1::call(y, x)), optional_output_arg("o2", pow(w, 3) + atan2(x, y) + iverson(x < y)));
          };
          const function_description d = build_function_description(std::move(f), "fn", arg("x"), arg("y"));
          control_flow_graph cfg{d, optimization_params{static_cast<std::size_t>(passes), bin}};
          if (r.chance(0.5)) cfg = std::move(cfg).convert_conditionals_to_control_flow(t);
          std::unordered_map<std::string, bool> exists{};
          if (r.chance(0.5)) exists.emplace("o2", r.chance(0.5));
          rebuilt_expressions re = rebuild_expression_tree(cfg.first_block(), exists, r.chance(0.5));
          std::map<std::string, const any_expression*> sorted;
          for (const auto& [k, v] : re.output_expressions) sorted.emplace(k.name + std::to_string(static_cast<int>(k.usage)), &v);
          for (const auto& [k, v] : sorted) { out += k + ": "; append_any(out, *v); }
          for (const auto& [k, v] : re.intermediate_values) out += k.to_string() + "=" + v.to_string() + "\n";
          break;
        }
        case 4: {
          const std::string code = "code " + std::to_string(s1 % 1000) + "\n";
          out += cpp_code_generator{cpp_matrix_type_behavior::generic_span}.apply_preamble(code, "ns", "");
          out += cpp_code_generator{cpp_matrix_type_behavior::eigen}.apply_preamble(code, "gen", "#include <a>");
          out += rust_code_generator{}.apply_preamble(code);
          out += python_code_generator{r.chance(0.5) ? python_generator_target::numpy : r.chance(0.5) ? python_generator_target::jax : python_generator_target::pytorch,
                                       r.chance(0.5) ? python_generator_float_width::float64 : python_generator_float_width::float32, r.range(0, 8), r.chance(0.5)}.apply_preamble(code);
          break;
        }
        case 5: {  // a function whose body refers to symbols that are not arguments, or to functions that cannot be generated
          auto f = [&](scalar_expr x) {
            Rng q(s1);
            symbolic_function g{"g"};
            switch (q.below(5)) {
              case 0: return x + sym(1);
              case 1: return g(x) * 2;
              case 2: return derivative::create(g(x), x, 1);
              case 3: return x * constants::complex_infinity + constants::imaginary_unit;
              default: return x + make_unique_variable_symbol(number_set::real) * 0;
            }
          };
          samp(std::move(f), "bad", m, t, passes, bin, out, arg("x"));
          break;
        }
        default: {  // matrix valued conditionals and external functions of matrices
          auto f = [&](ta::static_matrix<2, 1> u, ta::static_matrix<2, 1> v) {
            Rng q(s1);
            const matrix_expr e = external_function_3::call(u, v).inner();
            const matrix_expr w = where(u[0] < v[1], e * q.range(1, 3), make_matrix(2, 2, u[0], v[0], u[1] * v[1], cos(u[0])));
            return std::make_tuple(output_arg("w", ta::static_matrix<2, 2>{w}), optional_output_arg("d", ta::static_matrix<2, 2>{w.diff(u[1])}), return_value(ta::static_matrix<2, 2>{w.transposed() * w}));
          };
          samp(std::move(f), "mats", m, t, passes, bin, out, arg("u"), arg("v"));
          break;
        }
      }
      break;
    }
    case OP_LU: {
      std::vector<scalar_expr> a;
      int n = r.range(2, 3);
      for (int i = 0; i < n * n; ++i) a.push_back(r.chance(0.3) ? scalar_expr{r.range(-2, 2)} : leaf(r, pool));
      auto [P, Lm, U, Q] = factorize_full_piv_lu(matrix_expr::create(n, n, std::move(a)));
      out += P.to_string() + ";" + Lm.to_string() + ";" + U.to_string() + ";" + Q.to_string() + ";";
      break;
    }
    case OP_CODEGEN_BIG: {
      auto f = [](ta::static_matrix<3, 1> a, ta::static_matrix<3, 1> b) {
        const quaternion q = quaternion::from_rotation_vector(a, scalar_expr{1e-16}) * quaternion::from_rotation_vector(b, scalar_expr{1e-16}).conjugate();
        matrix_expr w = q.to_rotation_vector(scalar_expr{1e-16});
        return std::make_tuple(output_arg("w", ta::static_matrix<3, 1>{w}), optional_output_arg("D", ta::static_matrix<3, 3>{w.jacobian(a)}));
      };
      samp(std::move(f), "big", static_cast<unsigned>(1u << r.below(7)), r.chance(0.7), r.range(1, 3), r.chance(0.7), out, arg("a"), arg("b"));
      break;
    }
    case OP_HASHCMP: {
      scalar_expr a = gen(r, pool, 3), b = gen(r, pool, 2);
      out += are_identical(a, b) ? "=" : "#";
      out += std::to_string(static_cast<int>(determine_order(a, b)));
      out += are_identical(a + b, b + a) ? "c" : "d";
      out += std::to_string((a * b).hash() == (b * a).hash());
      break;
    }
    default: break;
  }
}

}  // namespace

void run_op(const OpSpec& spec, const Pool* pool, std::string& out) {
  Rng r(spec.seed);
  try {
    op_body(spec.op, r, pool, out);
  } catch (const std::bad_alloc&) {
    throw;
  } catch (const std::exception& e) {
    out += std::string("EXC:") + e.what();
  }
  out += "\n";
}

scalar_expr random_scalar(Rng& r, const Pool* pool, int depth) { return gen(r, pool, depth); }
custom_type sample_custom_type() {
  custom_type_registry reg{};
  return std::get<0>(detail::record_arg_types(reg, type_list<symbolic::Point2d>{})).inner();
}
void generate_description(const function_description& d, unsigned backends, bool ternaries, std::string& out) {
  lower(d, backends, ternaries, 3, true, out);
}

void fill_pool(Pool& pool, uint64_t seed, int level) {
  Rng r(seed ^ 0x9001);
  pool.scalars.reserve(8);
  for (int i = 0; i < 3; ++i) pool.scalars.push_back(sym(i));
  if (level >= 1) for (int i = 0; i < 2; ++i) pool.scalars.push_back(sym(static_cast<int>(r.below(6))) * sym(static_cast<int>(r.below(6))) + r.range(1, 3));
  if (level >= 2) {
    for (int i = 0; i < 3; ++i) {
      try { pool.scalars.push_back(gen(r, nullptr, 3)); } catch (const std::bad_alloc&) { throw; } catch (const std::exception&) {}
    }
    pool.matrices.push_back(make_matrix(2, 2, gen(r, nullptr, 1), sym(0), sym(1), cos(sym(0))));
  }
}

// The index of a unique symbol is new on every call, and the hash computed from it also decides the
// order in which some terms are printed. Text that contains such symbols is therefore compared as a
// multiset of characters with the indices removed.
std::string normalise(const std::string& s) {
  std::string o;
  bool unique = false;
  for (size_t i = 0; i < s.size();) {
    size_t pre = 0;
    if (s.compare(i, 3, "$u_") == 0) pre = 3;
    else if (s.compare(i, 16, "UniqueVariable (") == 0) pre = 16;
    if (!pre) { o += s[i++]; continue; }
    unique = true;
    i += pre;
    while (i < s.size() && s[i] >= '0' && s[i] <= '9') ++i;
    o += "$U";
  }
  if (unique) {
    // The numbers of unique symbols decide the order of terms, and the position of a term decides how its
    // sign is printed ("-a + b", "b - a"): compare what does not depend on the order.
    o.erase(std::remove_if(o.begin(), o.end(), [](char c) { return c == ' ' || c == '+' || c == '-' || c == '(' || c == ')' || static_cast<unsigned char>(c) >= 0x80; }), o.end());
    std::sort(o.begin(), o.end());
  }
  return o;
}

std::vector<OpSpec> make_ops(uint64_t seed, int n, uint64_t mask) {
  Rng r(seed ^ 0x0b5);
  std::vector<OpSpec> v;
  for (int i = 0; i < n; ++i) {
    int op;
    do op = static_cast<int>(r.below(OP_COUNT)); while (!(mask >> op & 1));
    v.push_back(OpSpec{op, r.next() >> 8});
  }
  return v;
}

#define SAMPLES(X) \
  X(simple_multiply_add, "x", "y", "z") X(vector_rotation_2d, "theta", "v") X(vector_norm_3d, "v") X(heaviside, "x") \
  X(exclusive_or, "x", "y") X(signum_test, "x") X(abs_test, "x") X(floor_test, "x") X(cosh_test, "x") X(sinh_test, "x") \
  X(tanh_test, "x") X(acosh_test, "x") X(asinh_test, "x") X(atanh_test, "x") X(atan2_with_derivatives, "y", "x") \
  X(nested_conditionals_1, "x", "y") X(nested_conditionals_2, "x", "y") X(create_rotation_matrix, "w") \
  X(quaternion_from_matrix, "R") X(rotation_vector_from_matrix, "R") X(no_required_outputs, "x") X(custom_type_1, "p") \
  X(custom_type_2, "theta", "radius") X(nested_custom_type_1, "c", "p") X(nested_custom_type_2, "x", "y", "c") \
  X(external_function_call_1, "x", "y") X(external_function_call_2, "u", "v") X(external_function_call_3, "x", "v") \
  X(external_function_call_4, "a", "b") X(external_function_call_5, "c", "x", "y") X(external_function_call_6, "x", "y") \
  X(external_function_call_7, "x", "y") X(integer_argument_1, "x", "y") X(integer_output_values_1, "x", "y") \
  X(integer_struct_member_1, "inputs", "scale") X(integer_struct_member_2, "x", "y") X(duplicate_matrix_return, "x", "y")

namespace {
template <typename F, typename... N>
void one(F&& f, const char* name, unsigned m, bool t, int p, bool b, std::string& out, N... names) {
  samp(std::forward<F>(f), name, m, t, p, b, out, arg(names)...);
}
using sample_fn = void (*)(unsigned, bool, int, bool, std::string&);
#define DEF(fn, ...) [](unsigned m, bool t, int p, bool b, std::string& out) { one(&fn, #fn, m, t, p, b, out, __VA_ARGS__); },
const sample_fn samples[] = {SAMPLES(DEF)[](unsigned m, bool t, int p, bool b, std::string& out) { samp(&custom_type_3, "custom_type_3", m, t, p, b, out); }};
}  // namespace
int num_samples() { return static_cast<int>(sizeof(samples) / sizeof(samples[0])); }
void sample_codegen(int which, unsigned backends, bool ternaries, int passes, bool binarize, std::string& out) {
  samples[which](backends, ternaries, passes, binarize, out);
}
}  // namespace work
