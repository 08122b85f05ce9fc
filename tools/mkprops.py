import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,hook=None,state=None):
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":{"files":files,"state":state or [],"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":hook}})
TP="src/algorithm/two_phase/"
IM=TP+"tableau/inverse_maintenance/"
LU=IM+"carry/lower_upper/"
GF="src/data/linear_program/general_form/"
p("C01","Solver verdict and optimum are exact",
 "For every linear program with rational data given to the solver in its matrix form, solving reports 'infeasible' exactly when no point satisfies all rows and bounds, 'unbounded' exactly when feasible points with arbitrarily small objective exist, and otherwise returns a point that satisfies every row and bound exactly and attains the exact minimum of the objective. Both basis-inverse implementations give the same verdict and the same objective value, and redundant or contradictory rows are handled, not mistaken for one another.",
 ["inputs"],"all rational LPs in the solver's matrix form (every mix of equality, range, upper and lower rows, bounded and unbounded variables, redundant rows), both basis-inverse implementations",
 "A handful of example problems with known optimum are solved; every other problem, degenerate vertex, redundant row or unbounded ray is unsampled.",
 [TP+"mod.rs",TP+"phase_one.rs",TP+"phase_two.rs",TP+"tableau/mod.rs"],
 [("two-phase driver","solve_relaxation, phase_one::primal, phase_two::primal"),("entering column and ratio test","Tableau::select_primal_pivot_row, PivotRule"),("redundant row removal","RemoveRows")],
 ["OptimizationResult returned by solve_relaxation"])
p("C02","Every pivot keeps feasibility and never worsens the objective",
 "Starting from any basic feasible solution, when the solver brings a column with negative reduced cost into the basis, the leaving row it selects exists exactly when the column has a positive entry, keeps all basic values nonnegative, and the objective after the basis change is the one before plus step length times reduced cost, so it never increases. When no row can leave, the objective is unbounded below along that column.",
 ["inputs","histories"],"all tableaux reachable by any sequence of basis changes, all entering columns with negative reduced cost, including degenerate and tied ratios",
 "Tests pivot on a few fixed tableaux; the ratio test must be right for all columns and right-hand sides including ties and zeros.",
 [TP+"tableau/mod.rs",IM+"carry/mod.rs",TP+"tableau/kind/non_artificial.rs"],
 [("minimum ratio test","Tableau::select_primal_pivot_row"),("basic solution and objective update","Carry::update_b, Carry::change_basis")],
 ["basic solution, objective value and basis before and after a basis change"])
p("C03","Basis inverse, prices and basic solution stay exact over basis changes",
 "After any sequence of basis changes, every column or row the inverse-maintenance scheme produces equals the basis inverse applied to the original column or row exactly, the basic solution equals the basis inverse times the right-hand side, and reduced costs and objective equal the values computed from scratch from the current basis and costs. The two implementations of the scheme (explicit inverse rows, LU with updates) are observably interchangeable, also when built directly from a given basis and after a refactorisation.",
 ["histories","inputs"],"all sequences of basis changes from any starting basis on any rational problem, both implementations, before and after refactorisation",
 "Tests perform at most a few updates on 2x2 to 5x5 matrices; the invariant must survive every history of updates.",
 [IM+"carry/mod.rs",IM+"carry/basis_inverse_rows.rs",LU+"mod.rs",LU+"eta_file.rs",IM+"ops.rs"],
 [("rank-one update of explicit rows","BasisInverseRows::change_basis, normalize_pivot_row, row_reduce"),("Forrest-Tomlin style update","LUDecomposition::change_basis, EtaFile"),("price row","Carry::update_minus_pi_and_obj, create_minus_pi_from_artificial")],
 ["generate_column, generate_element, cost_difference, b, get_objective_function_value, basis_inverse_row"],
 "guarded re-export of EtaFile (cfg relp_verif)")
p("C04","LU factorisation reproduces the basis and solves it exactly",
 "For every invertible rational basis matrix the factorisation yields row and column permutations, a unit lower triangular and an upper triangular matrix whose product is the permuted basis exactly. Solving with the factors from the left or the right, also after replacing basis columns one at a time, gives the exact unique solution of the linear system, and repeating a solve gives the same answer.",
 ["inputs","histories"],"all nonsingular rational sparse matrices of every size, all right-hand sides, all sequences of column replacements that keep the basis nonsingular",
 "A few matrices up to 5x5 with a known answer are factored; Markowitz ordering and fill-in depend on the sparsity pattern, of which there are exponentially many.",
 [LU+"mod.rs",LU+"decomposition/mod.rs",LU+"decomposition/pivoting.rs",LU+"eta_file.rs"],
 [("elimination","decomposition::rows, subtract_multiple_of_row_from_other_row"),("pivot choice","Markowitz::choose_pivot"),("triangular solves","invert_upper_right, invert_upper_left, insert_or_shift_maybe_remove"),("row transformations","EtaFile::apply_left, apply_right, update_spike_pivot_value")],
 ["results of left and right solves"],"guarded re-export of EtaFile (cfg relp_verif)")
p("C05","Permutations are bijections, undone by their inverse, for all lengths",
 "Every permutation object maps positions 0..len one-to-one onto themselves, applying it forward then backward (or the reverse) to a position, to a sparse list of entries or to its sorted variant restores the original, and sorted variants return strictly increasing indices with every value kept with its index. Building the inverse gives the permutation with forward and backward exchanged.",
 ["inputs"],"all lengths, all permutations of each of the four kinds, all positions and all sparse entry lists",
 "Tests try a few concrete permutations of length at most 5; the cyclic rotation and swap have position-dependent cases.",
 [LU+"permutation/mod.rs",LU+"permutation/full.rs",LU+"permutation/identity.rs",LU+"permutation/rotate_to_back.rs",LU+"permutation/swap.rs"],
 [("index maps","FullPermutation, IdentityPermutation, RotateToBackPermutation, SwapPermutation: forward/backward"),("sparse maps","forward_sorted, backward_sorted, forward_unsorted, backward_unsorted")],
 ["forward, backward, *_sorted, *_unsorted"],"guarded re-export of the permutation types (cfg relp_verif)")
V="src/data/linear_algebra/vector/"
p("C06","Sparse and dense vectors compute the same exact linear algebra",
 "A sparse vector stores strictly increasing indices below its length with no stored zeros, and reading, setting, shifting, adding a multiple of another vector, scaling, dividing, removing indices, inner products and norms give exactly the result of the same operation on the plain list of numbers it represents. Dense vectors agree with that list as well.",
 ["inputs","histories"],"all vectors of all lengths and all sequences of operations on them, including operations that cancel to zero",
 "Tests use vectors of 3 to 5 entries with one operation each; merges and cancellations depend on the relative position of all the nonzeros.",
 [V+"mod.rs",V+"sparse.rs",V+"dense.rs"],
 [("merge of sorted entries","Sparse::add_multiple_of_row, inner_product"),("point updates","Sparse::set, shift_value, set_zero, get_data_index"),("inner product of sorted tuple lists","inner_product_of_sorted...")],
 ["values read back from the vectors"])
p("C07","Sparse matrices keep their entries through every construction and edit",
 "A sparse matrix holds one number per (row, column): building it from entries or columns or rows, transposing it to the other order, reading or setting an element, removing rows or columns, concatenating and changing row signs yield exactly the entries the same operation on the full table of numbers would, sorted, in range and without stored zeros.",
 ["inputs","histories"],"all matrices of all shapes, both storage orders, all operation sequences",
 "Tests use fixed matrices of at most 4x4; removal and transposition shift indices in a position-dependent way.",
 ["src/data/linear_algebra/matrix.rs"],
 [("construction and transposition","Order::new, from_test_data, from_minor_ordered_tuples, SparseMatrix::from"),("edits","set_value, remove_minor_indices, remove_majors, concatenate_*, change_row_signs")],
 ["entries read back from the matrix"])
p("C08","The solver's matrix view states exactly the given linear program",
 "The matrix the solver works on, assembled from constraint rows grouped by type and variable bounds, has for every column index exactly the entries of that variable or slack (right sign, right row, right bound row), the matching right-hand side, cost and row count, and its element access and its column access agree. Projecting its nonnegative solutions onto the original variables gives exactly the points satisfying the given rows and bounds, and the slack columns offered as an initial basis are identity columns of their rows.",
 ["inputs"],"all linear programs with any number of equality, range, upper, lower rows and any subset of upper bounded variables",
 "Tests compare the columns of one or two small instances; the offset arithmetic has one case per row group and column group.",
 [TP+"matrix_provider/matrix_data.rs",TP+"matrix_provider/column/mod.rs",TP+"matrix_provider/mod.rs"],
 [("column groups","MatrixData::column_type, column"),("row offsets","MatrixData::right_hand_side, bound_row_index, nr_rows"),("initial basis","pivot_element_indices")],
 ["MatrixProvider methods, reconstruct_solution"])
p("C09","Dropping redundant rows leaves every other row untouched",
 "When a set of rows is dropped from a problem, the filtered problem presents exactly the remaining rows in their original order: columns, right-hand side, bound rows and row count are those of the original with the dropped rows deleted, index translation between the two is order preserving and mutually inverse, and a slack whose row is gone no longer counts as an initial basis column. Solutions are reconstructed exactly as without the filter.",
 ["inputs"],"all problems and all sorted sets of dropped rows, including consecutive, first and last rows",
 "Tests drop one or two rows of a 3-row problem.",
 [TP+"matrix_provider/filter/generic_wrapper.rs",TP+"matrix_provider/filter/mod.rs",IM+"ops.rs"],
 [("index translation","get_underlying_index, delete_element_indices / remove_sparse_indices"),("filtered columns","RemoveRows::column, IntoFilteredColumn")],
 ["columns and right-hand side of the filtered provider"])
p("C10","Standardising a problem keeps its feasible set and objective",
 "Turning a general linear program into the solver's form (minimisation, split free variables, lower bounds at zero, nonnegative right-hand sides, rows grouped by type) gives a problem whose solutions, mapped back, are exactly the solutions of the original one with the same objective values (when maximising, the costs negated), for every mix of variable bounds, row types, ranges and objective sense.",
 ["inputs"],"all general-form problems: all bound kinds per variable, all row types, any signs, minimisation and maximisation, any constant term",
 "Tests standardise a few two-variable problems; shift, flip, split and negate interact per row and variable.",
 [GF+"mod.rs"],
 [("variable transformation","GeneralForm::transform_variables"),("row normalisation","make_b_non_negative, reorder_constraints_by_type"),("objective sense","make_minimization_problem"),("undo","reshift_solution")],
 ["standardize, derive_matrix_data, compute_full_solution_with_reduced_solution"],"guarded read access to general-form data (cfg relp_verif)")
p("C11","Presolve never changes the verdict or the optimum",
 "Presolving a problem preserves whether it is feasible, whether it is bounded and its optimal value: an answer found by presolve alone (infeasible, unbounded, or a complete solution) is the true one, tightened bounds and removed rows never cut off all optimal solutions or admit points the original forbids, and every variable removed is assigned a value that completes any solution of the smaller problem to a feasible solution of the original with the same objective.",
 ["inputs","histories"],"all general-form problems with any bounds, row types and sparsity, and every order in which reductions trigger one another",
 "Each rule is tested once on a tailor-made problem; the rules cascade through queues and cached activity bounds.",
 [GF+"presolve/mod.rs",GF+"presolve/updates.rs",GF+"presolve/rule/slack.rs",GF+"presolve/rule/bound_constraint.rs",GF+"presolve/rule/fixed_variable.rs",GF+"presolve/rule/domain_propagation.rs",GF+"presolve/counters.rs"],
 [("rules","presolve_fixed_variable, presolve_bound_constraint, presolve_slack, presolve_domain_propagation"),("bookkeeping","Updates, Counters, Queues")],
 ["presolve result, reduced problem, completed solution"],"guarded read access to general-form data (cfg relp_verif)")
p("C12","Reported solution assigns every original variable its consistent value",
 "The solution handed back names every variable of the original problem exactly once, in its original units (shifts, sign flips and splits of free variables undone, removed variables filled in from their definition), and its reported objective value equals the original objective evaluated at those values, constant term included, whether minimising or maximising.",
 ["inputs"],"all problems and all reduced solutions, all combinations of removed, free, flipped and shifted variables",
 "Tests reconstruct solutions of a few problems; the indices of removed, active and split variables shift independently.",
 [GF+"mod.rs","src/data/linear_program/solution.rs"],
 [("reconstruction","compute_full_solution_with_reduced_solution, compute_solution_value_with_bfs, reshift_solution"),("cost","GeneralForm::fixed_cost")],
 ["Solution.objective_value, Solution.solution_values"],"guarded read access to general-form data (cfg relp_verif)")
p("C13","Scaling and scaling back is the identity",
 "Scaling a problem multiplies each row, each column (and its bounds and cost), the objective and the right-hand side by positive factors consistently, so that the scaled problem has the same solutions up to those factors; scaling back restores every coefficient, bound, cost and right-hand side exactly, and a solution of the scaled problem maps back to a solution of the original.",
 ["inputs"],"all rational problems, including ones with only unit or zero entries, empty rows and columns",
 "Tests scale a few 2x2 problems.",
 [GF+"presolve/scale/mod.rs",GF+"presolve/scale/rational/mod.rs"],
 [("factor choice","Scalable for GeneralForm, combine_factors"),("application","scale, scale_back")],
 ["problem before and after scaling"],"guarded read access to general-form data (cfg relp_verif)")
p("C14","Numbers in problem files are read exactly",
 "Every decimal number in a problem file (optional sign, digits, optional decimal point) that fits in 64 bits is read as exactly the rational number it denotes, with no rounding; any other text, and any number too large or too precise for 64 bits, is rejected with an error rather than read as some value.",
 ["inputs"],"all texts of a number field: every sign, digit count and decimal count",
 "Tests parse about twenty numbers.",
 ["src/io/mps/number/parse.rs","src/io/mps/number/traits.rs","src/io/mps/number/mod.rs"],
 [("decimal parser","Raw::try_from, parse_digits, combine"),("conversion to rationals","From<Raw> for Rational64, Parse for Rational64")],
 ["parsed number"])
p("C15","Rows, right-hand sides and ranges of a problem file mean what the format says",
 "Reading a problem file (fixed or free format) yields exactly one constraint per L/G/E row, with the coefficients listed for it in the columns section (zero when absent; a coefficient listed as zero is not stored), the right-hand side listed for it (zero when absent; of several lists the tightest for L and G rows), and for a row with a range R the interval the format prescribes (L: [rhs-|R|, rhs], G: [rhs, rhs+|R|], E: [rhs, rhs+R] when R is positive and [rhs+R, rhs] when negative). The cost of each variable is the value listed for the N row, the objective is maximised exactly when the file says so, the variables are those of the columns section in that order, integer exactly when listed between markers or bounded by an integer bound. Rows are ordered by name; the order in which rows, values and entries are listed does not change the meaning. A file that can't be given a meaning (unknown or repeated rows, two values for one coefficient or cost, two ranges for a row, different right-hand sides for an E row or a row with a range, a value for the objective row in the RHS section, missing or second N row, sections out of order) is rejected with an error, which can be displayed; no text makes the reader panic.",
 ["inputs"],"all well-formed files: all row types, any order of entries, ranges on any row, one or more right-hand sides",
 "Tests parse three files; ranges on each row type and sign are not all reached.",
 ["src/io/mps/convert.rs","src/io/mps/mod.rs","src/io/mps/parse/mod.rs","src/io/mps/parse/fixed.rs","src/io/mps/parse/free.rs"],
 [("row types and ranges","compute_constraint_types, compute_b"),("columns","compute_constraints"),("parsing","parse::parse, fixed, free")],
 ["general-form problem built from the file"],"guarded read access to general-form data (cfg relp_verif)")
p("C16","Bound sections give every variable the bounds the format prescribes",
 "The lines of the bounds section, in any order and under any group names, give every variable the tightest of the bounds they state: LO and LI a lower, UP and UI an upper bound, FX both, BV 0 and 1, MI an upper bound of zero and no lower bound, PL a lower bound of zero, FR neither. A variable for which no line other than UP or UI is present has lower bound zero, and without UP or UI no upper bound. LI, UI and BV make the variable integer. A variable that is both FR and bounded, an unsupported (SC) or unknown type, an unknown variable or a missing value is rejected with an error.",
 ["inputs","histories"],"all sequences of bound lines for a variable, all bound types and values",
 "Tests set one bound of a few types; combinations of several bound lines are not enumerated.",
 ["src/io/mps/convert.rs","src/io/mps/mod.rs"],
 [("bounds","process_bound, replace_existing_with"),("defaults","compute_variable_info")],
 ["variables of the general-form problem built from the file"],"guarded read access to general-form data (cfg relp_verif)")
p("C17","Network problems have the incidence columns of their graph",
 "For a directed graph given by its arcs, the network representation has one column per arc with -1 at the node it leaves and +1 at the node it enters and nothing else, apart from the nodes removed, whose rows are deleted and later rows moved up. Costs and coefficients of networks are small integers whose arithmetic, comparison and conversion into the solver's rational numbers are exact, so the shortest distance and the maximum flow computed over such columns are those of the graph.",
 ["inputs"],"all directed graphs with any arcs and arc lengths or capacities, all sets of removed nodes",
 "Tests solve two fixed graphs with at most five nodes.",
 ["src/data/linear_program/network/representation.rs"],
 [("incidence matrix","IncidenceMatrix::new, column"),("coefficients","ArcIncidenceColumn, ArcDirection")],
 ["columns of the incidence matrix, optimal value of network problems"])
p("C18","Pricing selects an improving column whenever one exists",
 "A pricing rule returns a column only if its reduced cost is negative, and returns none only if no column outside the basis has a negative reduced cost (so stopping is optimality); the reported cost equals that column's reduced cost, the steepest rule returns a column whose reduced cost is minimal (in its own norm), and a rule with memory still examines every column before giving up.",
 ["inputs","histories"],"all tableaux and all histories of earlier selections",
 "Tests query the rules on one or two tableaux; the wrap-around of the rule with memory depends on history.",
 [TP+"strategy/pivot_rule.rs",TP+"tableau/mod.rs",TP+"phase_two.rs"],
 [("rules","FirstProfitable, FirstProfitableWithMemory, SteepestDescentAlongVariable, SteepestDescentAlongObjective: select_primal_pivot_column"),("reduced cost","Tableau::relative_cost")],
 ["selected column and cost"])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
