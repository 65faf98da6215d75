#!/usr/bin/env python3
"""Source of /verif/properties.jsonl (run: python3 tools/props.py > properties.jsonl)."""
import json
K = "src/kernel/lib/"; C = "src/compiler/lib/"; M = "src/common/"
P = []
def p(id, title, stmt, over, otext, why, files, mech, state=None, obs=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if obs: a["observe_at"] = obs
    a["hook_needed"] = None
    P.append(dict(id=id, title=title, statement=stmt, quantifier=dict(over=over, text=otext), why_tests_cant=why, anchors=a))

# ---------------------------------------------------------------- kernel: data access
p("C01", "Var reductions deliver exactly the quantity that was requested",
  "A reduction over a slice returns, for each of sum, sum of squares, product, minimum and maximum, that quantity over all selected elements, whatever their signs and however the elements are shared out among threads. Asking the result for a quantity that was not requested throws; asking for one that was requested never does.",
  ["inputs", "schedules"], "all element values (all-negative and all-zero data included), all request masks, all thread counts",
  "The tests reduce one var with one positive fill value and all masks at once, so a swapped field, a wrong identity or a wrong cross-thread combination can coincide with the right answer.",
  [K+"yk_var.hpp", K+"yk_var.cpp", "include/aux/yk_var_api.hpp"],
  [("reduction result object: getters, identities, request mask", "yk_var.hpp red_res"), ("per-element update and per-thread join", "yk_var.hpp _reduce_elements_in_slice")],
  obs=["yk_var::reduce_elements_in_slice and the returned reduction_result getters"])
p("C02", "Host accesses and device copies of a var stay coherent",
  "Before the library hands any host reader an element of a var, the host copy is made current, and after any host write the device copy is considered stale; the same holds with host and device exchanged around stencil evaluation. No access path reads or overwrites a stale copy or leaves a modified copy unmarked.",
  ["histories", "configurations"], "all interleavings of API reads, API writes, solution runs and halo exchanges, in builds with and without device offload",
  "The tests run CPU-only builds, where the two copies are the same memory, so a missing copy or missing mark is invisible.",
  [K+"yk_var.hpp", K+"yk_var.cpp", K+"yk_var_apis.cpp", K+"offload.hpp", K+"generic_var.cpp", K+"context.cpp", K+"halo.cpp"],
  [("coherency state and its transitions", "offload.hpp Coherency"), ("sync-before-read / mark-after-write calls on the element and slice paths", "yk_var.hpp, yk_var_apis.cpp, generic_var.cpp"), ("device copy before a run", "context.cpp run_solution")])
p("C03", "Every change to var data is re-sent to neighbours before its halo is used",
  "Whenever elements of a var are changed through the API, by a slice operation, by filling a whole var or by evaluating a stencil, that var and step are marked as needing a halo exchange, both for the rank itself and (where other ranks may have changed theirs) for the neighbours. The marks are cleared only by completing an exchange of that var and step.",
  ["histories", "configurations"], "all sequences of writes and runs on any number of ranks, any step index",
  "Multi-rank tests only write vars before the first run, and a first run forces all vars dirty, so a missing mark between runs goes unnoticed.",
  [K+"yk_var.hpp", K+"yk_var.cpp", K+"yk_var_apis.cpp", K+"context.cpp", K+"halo.cpp", K+"stencil_calc.cpp"],
  [("set_dirty / set_dirty_in_slice / set_dirty_all", "yk_var.cpp"), ("update_var_info", "context.cpp"), ("clearing after the final phase of an exchange", "halo.cpp exchange_halos")],
  state=[("dirty flags", "per-step self/neighbour dirty bits", "yk_var.hpp YkVarBase")])
p("C04", "Out-of-range or unallocated accesses are rejected before memory is touched",
  "With strict index checking, element and slice calls throw, before reading or writing any element, when an index is outside the allocated or accessible range, when the var has no storage, or when a slice buffer is null or too small. Without strict checking, a write whose indices are all or partly out of range changes only the elements that are in range, reports how many it changed, and changes nothing when none is; are_indices_local is true exactly for indices that could be read.",
  ["inputs", "histories"], "all index tuples, slices, buffer sizes and storage states",
  "Tests use a few legal slices; an access that slips past a check only shows as silent corruption for particular indices.",
  [K+"yk_var_apis.cpp", K+"yk_var.cpp", K+"yk_var.hpp"],
  [("check_indices before element access", "yk_var_apis.cpp"), ("slice checks and buffer-size checks", "yk_var.hpp / yk_var.cpp")])
p("C05", "Per-dimension var queries and setters respect dimension kinds in every form",
  "A per-dimension query or setter on a var accepts exactly the kinds of dimension (step, domain, misc) its documentation allows, throws for all other dimension names, and reads or writes the quantity it is named for in that dimension. The by-name form and the all-dimensions (vector) form of one query give the same values.",
  ["inputs", "programs"], "every dimension name and kind of every var of every solution, every query",
  "Tests call a few queries on the domain dims of a few vars; wrong-kind calls and vector forms are hardly sampled.",
  [K+"yk_var_apis.cpp", K+"yk_var.hpp", "include/aux/yk_var_api.hpp"],
  [("generated getter/setter families", "yk_var_apis.cpp GET_VAR_API / SET_VAR_API"), ("checkDimType", "setup/common")])
# ---------------------------------------------------------------- kernel: run, MPI
p("C06", "Halo-exchange buffers are never reused or read before their transfer finished",
  "In every halo exchange each posted receive or send is completed before its buffer is unpacked, refilled or reused, a shared-memory buffer is written only after its previous contents were consumed and read only after they were written, each such permission is released exactly once, and no message count silently overflows.",
  ["schedules", "histories", "configurations"], "all message timings, all overlap/shared-memory/asynchronous settings, any number of exchanges",
  "Four local ranks with small messages deliver eagerly and in order, so a missing wait or a wrong release rarely shows.",
  [K+"halo.cpp", K+"utils.hpp", K+"setup.cpp"],
  [("exchange phases", "halo.cpp exchange_halos"), ("shared-memory lock hand-over", "utils.hpp SimpleLock, setup.hpp MPIBuf")])
p("C07", "A solution run follows the documented life cycle",
  "run_solution() on a solution that has not been prepared, or whose preparation failed, throws without running any stage, hook or timer; otherwise before-run hooks, initial halo exchange, the requested steps, and after-run hooks happen in that order, every step requested is evaluated exactly once, and each evaluated stage is followed by recording its outputs and exchanging what the next stage needs. The order holds for optimised and reference runs alike and for every schedule setting.",
  ["configurations", "histories"], "all option settings, step ranges, hook sets and call sequences",
  "Tests always prepare first, register few hooks and use one rank for most settings.",
  [K+"context.cpp", K+"setup.cpp", K+"soln_apis.cpp"],
  [("run_solution / run_ref", "context.cpp"), ("prepare_solution", "soln_apis.cpp/setup.cpp"), ("hooks", "soln_apis.cpp call_*_hooks")])
p("C08", "Ranks can never disagree on the sequence of collective operations",
  "Every collective MPI operation in the library is reached by all ranks of its communicator in the same order: whether one is executed never depends on the rank's own number, position, data, timing or error outcome.",
  ["configurations", "schedules"], "all rank counts and layouts, all timings, all local outcomes",
  "Tests use one or four symmetric ranks; a divergent collective hangs only in asymmetric layouts.",
  [K+"setup.cpp", K+"halo.cpp", K+"context.cpp", K+"alloc.cpp", K+"utils.cpp", K+"auto_tuner.cpp", K+"settings.cpp"],
  [("collective call sites", "setup.cpp, alloc.cpp, context.cpp, utils.cpp")])
p("C09", "Every setting takes effect on, and is reported from, its own quantity",
  "Each command-line option and each setter changes exactly the setting it names, in the dimension it names, for both the requested and the effective settings, and the matching query reports the value in effect. No option or setter reads, resets or overwrites another setting.",
  ["inputs", "configurations"], "all options, dimensions, values and sequences of settings",
  "Tests exercise a handful of options at default-compatible values; crossing two settings leaves results unchanged and only affects shape or speed.",
  [K+"soln_apis.cpp", K+"settings.cpp", K+"settings.hpp"],
  [("GET_SOLN_API / SET_SOLN_API", "soln_apis.cpp"), ("option table", "settings.cpp KernelSettings::add_options")])
p("C10", "Auto-tuning changes only block shapes and restores everything else",
  "However often and in whatever state the auto-tuner runs, it leaves every setting other than the block-size shapes it tunes, the debug output and the halo-exchange switch as it found them, applies its best result to the same shape it varied, and starts each search from cleared state.",
  ["histories", "configurations"], "all tuning targets, stop points and repeat runs",
  "Auto-tuning is time-dependent and mostly disabled in tests.",
  [K+"auto_tuner.cpp", K+"auto_tuner.hpp", K+"context.cpp"],
  [("target table and apply", "auto_tuner.cpp next_target / apply / apply_best"), ("save and restore around a tuning run", "auto_tuner.cpp run_auto_tuner_now")])
p("C11", "Performance accounting is balanced and resettable",
  "Every timer that a library operation starts it also stops before it returns, a timer is never stopped, cleared or started again by something called while it runs, the steps that are evaluated are counted, and the statistics returned are computed from their own quantities and cleared completely.",
  ["histories", "fault_sequences"], "all sequences of runs and clears",
  "Tests do not compare statistics across runs.",
  [K+"context.cpp", K+"context.hpp", K+"halo.cpp", K+"stencil_calc.cpp", M+"common_utils.hpp"],
  [("timer start/stop", "context.cpp, halo.cpp, stencil_calc.cpp"), ("clear functions and statistics", "context.hpp Stats::clear, soln_apis.cpp get_stats / clear_timers")])
p("C12", "Parallel regions of the runtime share no unsynchronised mutable data",
  "In every parallel region of the library, data written by one thread is private to that thread, is a distinct element selected by the region's own iteration, or is updated under a reduction, atomic or critical construct.",
  ["schedules"], "all thread counts and schedules",
  "Races in bookkeeping rarely manifest in short runs with two threads and do not change most results.",
  [K+"yk_var.cpp", K+"yk_var.hpp", K+"context.cpp", K+"stencil_calc.cpp", K+"setup.cpp", K+"generic_var.cpp", K+"halo.cpp"],
  [("OpenMP regions", "yask_for / omp pragmas in the kernel library")])
p("C13", "Library errors are reported as exceptions, never by ending the process",
  "No API call of the kernel or compiler library terminates the host process except the documented environment exit; every failure the library detects is thrown as the documented exception type, the library throws no other type, and a failure is never swallowed.",
  ["inputs", "fault_sequences"], "all API calls and failure causes",
  "Tests that trigger an error expect a nonzero exit, which both behaviours give.",
  [K+"factory.cpp", K+"setup.cpp", K+"alloc.cpp", M+"output.cpp", M+"common_utils.cpp", C+"Solution.cpp"],
  [("THROW_YASK_EXCEPTION", "common_utils.hpp"), ("yk_env::exit", "factory.cpp / setup.cpp")])
p("C14", "Storage is released by the routine that matches how it was acquired",
  "Every block of host, NUMA, shared-window or device memory, and every MPI handle the library acquires is released exactly once with the matching routine and size, at the latest when its owner is destroyed, and never while in use.",
  ["histories", "configurations"], "all allocation policies and life-cycle sequences",
  "Most tests end right after one solution and never free shared or NUMA memory with another policy.",
  [K+"alloc.cpp", K+"alloc.hpp", K+"setup.cpp", K+"generic_var.cpp", K+"utils.cpp", K+"utils.hpp"],
  [("allocators and deleters", "alloc.hpp/alloc.cpp"), ("window lock/unlock and free", "setup.cpp, alloc.cpp")])
p("C15", "Index arithmetic is correct for negative indices",
  "Element, vector, tile and step indices may be negative, and every division, remainder, rounding or wrapping the runtime applies to such an index rounds toward negative infinity, so that index-to-storage and index-to-tile mappings are the same function on both sides of zero.",
  ["inputs"], "all index values, including those left of the origin, reached through halos, negative steps and shifted first indices",
  "Most runs use non-negative indices, where truncating and flooring division agree.",
  [M+"idiv.hpp", K+"yk_var.hpp", K+"yk_var.cpp", K+"context.cpp", K+"stencil_calc.cpp"],
  [("floor division helpers", "idiv.hpp"), ("vector/element split and step wrap", "yk_var.hpp")])
p("C16", "Every storage layout maps indices to offsets one-to-one with an exact inverse",
  "For every number of dimensions and every dimension order, the storage layout maps the in-range index tuples one-to-one onto the offsets from zero to one less than the product of the sizes, and its inverse recovers each tuple exactly.",
  ["programs", "inputs"], "all generated layouts, all sizes and indices",
  "Tests instantiate a few layouts at small sizes.",
  ["utils/bin/gen_layouts.pl", K+"indices.hpp"],
  [("layout classes", "gen_layouts.pl")])
p("C17", "Generated scan loops visit every tile exactly once",
  "For every loop nest the loop generator emits, the parallel or serial loop visits each combination of per-dimension tile indices exactly once, and in every dimension the visited ranges partition the requested range without gaps, overlaps or overruns, for any begin, end, stride and alignment.",
  ["inputs", "configurations"], "all loop bounds, strides, alignments and loop specifications used by the build",
  "Tests sample a few sizes; a dropped or repeated edge tile appears only at particular remainders.",
  ["utils/bin/gen_loops.pl", M+"idiv.hpp", "src/kernel/Makefile"],
  [("loop code generator", "gen_loops.pl")])
# ---------------------------------------------------------------- common
p("C18", "Tuple and index arithmetic apply the named operation to every component",
  "Each element-wise, scalar and reducing operation on named tuples and on index vectors (add, subtract, multiply, divide, minimum, maximum, comparison, sum, product, ...) applies the operation of its name to each and only the corresponding components, with operands in the stated order, and leaves its operands unchanged unless documented otherwise.",
  ["inputs"], "all tuples, component counts and values",
  "The tuple tests check some operations at single values in which several operations coincide.",
  [M+"tuple.hpp", M+"tuple.cpp", K+"indices.hpp"],
  [("Tuple operations", "tuple.hpp / tuple.cpp"), ("Indices operations", "indices.hpp")])
p("C19", "SIMD vector arithmetic means the same as the scalar operation in every build",
  "For every supported element type, vector length and instruction set, each arithmetic, comparison, load, store and masked operation on a folded vector equals the scalar operation of the same name applied per lane, operands in the same order.",
  ["configurations", "inputs"], "all precision / instruction-set / folding configurations",
  "The build under test uses one precision and one instruction set; other branches are never compiled.",
  [K+"realv.hpp"],
  [("real_vec_t operators and intrinsic selection", "realv.hpp")])
p("C20", "All overloads of an API call have the same effect",
  "Where the API offers one operation in several forms (vector, initializer list, variadic, C-string or name based), every form performs the same operation with the caller's arguments passed unchanged, in order, and returns its result.",
  ["inputs"], "all API overload families",
  "Tests call one form of most operations.",
  [K+"yk_var.hpp", K+"context.hpp", "include/aux/yk_var_api.hpp", "include/aux/yk_solution_api.hpp", "include/yask_compiler_api.hpp", C+"Solution.hpp", C+"Var.hpp"],
  [("forwarding overloads", "yk_var.hpp, context.hpp, Solution.hpp")])
# ---------------------------------------------------------------- compiler
p("C21", "The operator written in a stencil is the one that is evaluated and generated",
  "For every operator and function of the stencil language, the expression the user writes, the node built for it by either interface, its compile-time evaluation, its printed form and its generated code all denote the same operation with operands in the same order.",
  ["programs"], "all stencil expressions over all operators and functions",
  "Test stencils use mostly addition and multiplication and fold few constants.",
  [C+"Expr.hpp", C+"Expr.cpp", C+"Print.cpp", C+"Cpp.cpp", "include/aux/yc_node_api.hpp"],
  [("operator overloads and factory functions", "Expr.cpp"), ("operator classes", "Expr.hpp"), ("expression printers", "Print.cpp")])
p("C22", "Expression copies are deep and expression equality compares everything",
  "A cloned expression shares no sub-expression with its original, so changing one never changes the other, and two expressions compare as the same only if operator, operand order (up to commutativity), constants, variables, indices and conditions all agree.",
  ["programs"], "all expression trees",
  "Tests do not mutate clones; false sharing or false equality silently changes generated code only for particular stencils.",
  [C+"Expr.hpp", C+"Expr.cpp", C+"VarPoint.hpp", C+"VarPoint.cpp"],
  [("copy constructors and clone", "Expr.hpp"), ("is_same", "Expr.hpp, Expr.cpp, VarPoint.cpp")])
p("C23", "Compiler passes see every part of every expression",
  "Every traversal of stencil expressions reaches every operand, condition and index sub-expression of every kind of node, so that dependency analysis, optimisation, counting and code generation miss nothing.",
  ["programs"], "all expression trees and all traversals",
  "Test stencils exercise few combinations of node kinds, conditions and nesting.",
  [C+"Visitor.hpp", C+"Expr.hpp", C+"ExprUtils.hpp", C+"ExprUtils.cpp", C+"Eqs.cpp", C+"Print.hpp", C+"Vec.hpp"],
  [("visitor dispatch and default recursion", "Visitor.hpp, Expr.hpp accept"), ("overriding visitors", "Eqs.cpp, ExprUtils.hpp, Print.cpp, Vec.cpp")])
p("C24", "Generating code twice from one solution gives identical output",
  "The text the stencil compiler emits is a function of the solution and its options alone: it never depends on addresses, iteration order of address-ordered containers, time, environment or earlier output.",
  ["programs", "schedules"], "all solutions, all runs",
  "Two runs in one environment often coincide by luck; address-dependent order varies with allocator and platform.",
  [C+"Eqs.cpp", C+"Eqs.hpp", C+"ExprUtils.hpp", C+"ExprUtils.cpp", C+"Cpp.cpp", C+"YaskKernel.cpp", C+"Print.cpp", C+"Var.cpp"],
  [("container choices on the output path", "compiler library")])
p("C25", "Dependence analysis compares like with like",
  "Two equations are made dependent exactly on the basis of which variable points one writes and the other reads or writes, considering points of the same variable, for conditions as well as right-hand sides; a dependence is never recorded in the reverse direction and indirect dependences are closed transitively.",
  ["programs"], "all sets of equations",
  "Tests have few multi-equation stencils with a unique legal order.",
  [C+"Eqs.cpp", C+"Eqs.hpp"],
  [("dependence collection", "Eqs.cpp Eqs::analyze_eqs / find_all_deps"), ("DepGroup closure", "Eqs.hpp")])

# ---------------------------------------------------------------- declined
p("N01", "Optimised runs compute the same result as the reference run",
  "For every stencil, problem size and setting, the optimised evaluation produces the same values (up to rounding) as direct sequential evaluation of the equations in dependence order.",
  ["inputs", "configurations", "programs"], "all stencils, sizes, settings", "Tests sample sizes and settings.",
  [K+"context.cpp", K+"stencil_calc.cpp", C+"Cpp.cpp"], [("run_solution vs run_ref", "context.cpp")])
p("N02", "Temporal blocking never reads a value before it is computed",
  "For all wave-front and temporal-block sizes, skew angles and step counts, every point is evaluated after all points it depends on and before they are overwritten.",
  ["inputs", "configurations"], "all tile sizes, angles, step counts", "Tests sample a few tile sizes.",
  [K+"context.cpp", K+"setup.cpp"], [("wave-front shifts", "context.cpp shift_mega_block / shift_micro_block")])
p("N03", "Results do not depend on how the domain is divided among ranks",
  "Any legal division of the global domain into ranks yields the same global result as one rank, and the ranks' sub-domains partition the global domain.",
  ["inputs", "configurations"], "all rank grids and local sizes", "Tests use 1 and 4 ranks.",
  [K+"setup.cpp"], [("setup_rank", "setup.cpp")])
p("N04", "Sender and receiver agree on the extent of every halo message",
  "For each pair of neighbouring ranks and each var, the region packed by one equals the region unpacked by the other in size, position and element order.",
  ["inputs", "configurations"], "all domain sizes, halos, rank layouts", "Tests use 4 equal ranks.",
  [K+"setup.cpp", K+"halo.cpp"], [("alloc_mpi_data", "setup.cpp/alloc.cpp")])
p("N05", "Vector folding does not change results",
  "Every legal folding and clustering of a stencil yields the same result as the unfolded stencil.",
  ["programs", "configurations"], "all foldings", "Tests sample a few foldings.",
  [C+"Vec.cpp", C+"CppIntrin.cpp"], [("vector block construction", "CppIntrin.cpp")])
p("N06", "Sub-domain and step conditions select exactly the points that satisfy them",
  "An equation with a domain or step condition is evaluated at exactly the points for which its condition holds, whatever bounding-box decomposition is used.",
  ["programs", "inputs"], "all conditions and domain sizes", "Tests use box-shaped conditions.",
  [K+"setup.cpp", K+"stencil_calc.cpp"], [("find_bounding_box", "setup.cpp")])
p("N07", "Finite-difference coefficients are accurate to the requested order",
  "The coefficient generator returns weights that differentiate all polynomials up to the stated degree exactly (up to rounding).",
  ["inputs"], "all orders and offsets", "Tests print a few.",
  [M+"fd_coeff2.cpp", "src/contrib/coefficients/fd_coeff.cpp"], [("fd_coeff", "src/contrib/coefficients")])
p("N08", "The auto-tuner's choice is never slower than the starting point",
  "The block shape chosen by the auto-tuner performs at least as well as the initial one under the measured load.",
  ["schedules", "configurations"], "all machines and loads", "Timing dependent.",
  [K+"auto_tuner.cpp"], [("search", "auto_tuner.cpp")])
for x in P:
    assert len(x["title"]) <= 80, (x["id"], len(x["title"]))
    print(json.dumps(x, ensure_ascii=False))
