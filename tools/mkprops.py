"""Writes /verif/properties.jsonl (one source of truth for the property texts)."""
import json, os
B = "col_gen_estimator/_col_gen_classifier.py"
R = "col_gen_estimator/_bdr_classifier.py"
T = "col_gen_estimator/_dtree_classifier.py"
P = "col_gen_estimator/_parameter_tuner.py"
E = "examples/dtree_experiment.py"
PROPS = []


def prop(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state:
        a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe:
        a["observe_at"] = observe
    a["hook_needed"] = None
    PROPS.append({"id": id, "title": title, "statement": statement,
                  "quantifier": {"over": over, "text": text},
                  "why_tests_cant": why, "anchors": a})


prop("C01", "The optimality flag is set exactly when optimality was established",
     "After training, the classifier reports the master problem optimal exactly when, in its last iteration, every pricing problem of every level was asked with the dual values of the latest master solve and not one column was accepted by the master, and the time limit had not been hit. Ending through the iteration limit or the time limit leaves the flag false, and hitting the time limit is reported. Training data with a single class is refused with ValueError before the master is built.",
     ["histories", "configurations", "inputs"],
     "every behaviour (columns returned, acceptance answers, duals, clock readings) of every arrangement of pricing problems in levels, every limit setting that is unlimited or positive",
     "The tests see three short runs with one pricing arrangement; the flag depends on the whole history of column offers, acceptances and clock readings.",
     [B], [("training loop and its exit branches", B + ": ColGenClassifier.fit")],
     [("mp_optimal_", "optimality flag", B), ("time_limit_reached_", "time limit flag", B)],
     ["clf.mp_optimal_, clf.time_limit_reached_, clf.iter_ after fit"])
prop("C02", "Levelled pricing protocol: cheap levels first, every column offered once",
     "In each iteration the master is solved once, every pricing problem is then updated with the duals of that solve, and pricing problems are asked level by level in their declared order with those same duals and their own parameter string; a later pricing problem is asked only while no column of this iteration has been accepted. Every column a pricing problem returns is offered to the master exactly once, in the order returned, and the per-pricing-problem counts equal the number of its columns that the master accepted. The number of improving iterations equals the number of master solves reported as improved.",
     ["histories", "configurations"],
     "every number of levels and pricing problems within the bound and every behaviour of them and of the master",
     "Tests only check the totals of one or two real runs; order, freshness of duals and accounting are properties of every call history.",
     [B], [("level loop, column loop, counters", B + ": ColGenClassifier.fit")],
     [("num_col_added_sp_", "accepted columns per pricing problem", B), ("num_improving_iter_", "improving iterations", B)],
     ["recorded call sequence on master and pricing problems"])
prop("C03", "Iteration and time limits bound training; the final IP is solved once",
     "With a positive iteration limit the master relaxation is solved at most that many times, and with a positive time limit no pricing problem is asked once the measured time since the start (or since the last timer reset requested by the master) exceeds it; limits that are negative never end training. Training ends as soon as a full pass produced no accepted column, and then, if the master is an integer problem, its integer version is solved exactly once after the last column was added, and never otherwise; a failed integer solve is reported as an error and not as a fitted model.",
     ["histories", "configurations", "schedules"],
     "all positive/negative limit values, all non-decreasing clock readings, all pricing behaviours within the bound",
     "Tests never set a time limit and use one iteration limit; the clock and column history are free.",
     [B], [("limit checks, timer reset, final integer solve", B + ": ColGenClassifier.fit")],
     None, ["call sequence on master; clf.iter_, clf.is_fitted_"])
prop("C04", "Rule prediction equals the DNF the classifier reports",
     "For every binary input matrix, the boolean rule classifier predicts for each sample the larger of the two training labels exactly when some clause of its explanation has all its features equal to one in that sample (an empty clause is satisfied by every sample), and the smaller label otherwise, whatever the two training labels are.",
     ["inputs", "configurations"],
     "all 0/1 matrices, all explanations (sets of clauses) and both label encodings within the bound",
     "The tests predict four training rows for one explanation.",
     [R], [("predict", R + ": BooleanDecisionRuleClassifier.predict"), ("clause satisfaction", R + ": BDRMasterProblem.satisfies_clause")],
     None, ["clf.predict(X)", "master_problem.explanation"])
prop("C05", "The rule master is the published covering LP for any data and column history",
     "For every binary data set, complexity budget C, penalty p and any sequence of distinct clauses added, the rule master is exactly the published problem over the initial empty clause plus the added clauses: minimise p times the sum of one penalty variable per positive sample plus, per clause, the number of negative samples satisfying it; subject to each positive sample being penalised or covered, total complexity (one plus clause length) at most C, and non-negative variables, those of clauses integer. Building it again changes nothing, adding an empty column is refused and changes nothing, and the classifier passes its C and p through.",
     ["inputs", "histories", "configurations"],
     "all 0/1 matrices and label vectors, all C and p, all clause sequences within the bound",
     "Tests inspect three coefficient vectors of a single 4x4 data set.",
     [R], [("model construction", R + ": BDRMasterProblem.generate_mp"), ("column addition", R + ": BDRMasterProblem.add_column"),
           ("coefficients", R + ": get_objective_coeff_mp, get_clause_coeffs")],
     [("solver_", "the LP handed to the solver", R)], ["variables, bounds, objective and constraints of master_problem.solver_"])
prop("C06", "Exact rule pricing finds a clause iff one with negative reduced cost exists",
     "For every data set and every non-negative duals, the pricing model handed to the solver has as its optimum exactly the minimum reduced cost over all clauses with at most D features, also after any sequence of earlier calls with other duals; given an optimal solution the generator returns precisely the clause of that solution when its reduced cost is below -1e-6 and nothing otherwise.",
     ["inputs", "histories"],
     "all 0/1 matrices, labels, duals >= 0 and sequences of pricing calls within the bound",
     "One test solves one pricing problem; the model-vs-formula equivalence ranges over data, duals and clauses.",
     [R], [("pricing model", R + ": BDRSubProblem.create_submip"), ("objective refresh", R + ": BDRSubProblem.update_objective"),
           ("clause extraction", R + ": BDRSubProblem.generate_columns")],
     None, ["columns returned by generate_columns", "pricing model in solver_"])
prop("C07", "Heuristic rule pricing returns exactly the improving clauses up to size K",
     "For every data set and every non-negative duals the rule heuristic returns every clause of between 1 and K features whose reduced cost is below -1e-6, each exactly once, and no other clause.",
     ["inputs"], "all 0/1 matrices, label vectors and duals >= 0 within the bound, K up to the number of features",
     "Two tests use one data set with one set of duals.",
     [R], [("enumeration and reduced cost", R + ": BDRHeuristic.generate_columns")], None, ["columns returned by generate_columns"])
prop("C08", "Rule pricing and rule master agree on the reduced cost of every clause",
     "For every data set and every dual solution the LP solver may report for the rule master, the value the exact and heuristic pricing assign to a clause equals that clause's reduced cost in the master, computed from the column the master would add for it and the reported duals.",
     ["inputs", "histories"],
     "all data, all sign-feasible duals and all clauses within the bound, with any columns already present",
     "No test connects the master's columns and duals to the pricing objective.",
     [R], [("dual extraction and sign convention", R + ": BDRMasterProblem.solve_rmp"), ("column", R + ": BDRMasterProblem.add_column"),
           ("pricing objective", R + ": BDRSubProblem, BDRHeuristic")],
     None, ["solve_rmp return value", "pricing objective", "master column coefficients"])
prop("C09", "The integer master solution is decoded into exactly the selected columns",
     "For every integer solution the solver may return, the rule classifier's explanation contains exactly the clauses whose variable is positive, and the tree classifier's selected paths are exactly the paths whose variable is positive, for any column history; the integer model solved is the current master with every column added so far. A solve without a solution is reported as an error.",
     ["inputs", "histories"],
     "all integer solutions of all masters within the bound, all column histories",
     "Tests only see the decoded result of one solver run.",
     [R, T], [("decoding", R + ": BDRMasterProblem.solve_ip"), ("decoding", T + ": DTreeMasterProblem.solve_ip")],
     None, ["master_problem.explanation", "master_problem.selected_paths"])
prop("C10", "Leaf, path and node geometry describe one complete binary tree",
     "For every depth and leaf, the nodes recorded for a leaf or path are exactly the nodes on the root-to-leaf walk of the complete binary tree, each listed once, and a node is recorded as taking the left (right) branch exactly when the walk goes to its left (right) child; parent and child links set up by row and node preprocessing describe that same tree, with leaves numbered from the left.",
     ["inputs", "configurations"], "all depths and leaf numbers within the bound",
     "Tests check two leaves of one depth.",
     [T, E], [("leaf creation", T + ": Leaf.create_leaf"), ("path creation", T + ": Path.set_leaf"), ("node links", E + ": preprocess_nodes"),
              ("node links", T + ": DTreeMasterProblem.preprocess_rows"), ("leaf and path walks", E + ": get_all_leaves_paths, get_path_for_leaf")],
     None, ["leaf.left_nodes/right_nodes, path.node_ids, node.parent/left_child/right_child"])
prop("C11", "Every sample follows one path of a consistent tree and gets its label",
     "For every assignment of one split per node, and every sample, exactly one of the resulting root-to-leaf paths is followed, namely the one reached by going left exactly when the feature value is at most the threshold; the tree classifier predicts for every sample the training label encoded by the target of the followed path.",
     ["inputs", "configurations"], "all feature values (including values equal to a threshold), thresholds, split assignments and targets within the bound",
     "Tests predict six training rows with one tree.",
     [T], [("path following", T + ": row_satisfies_path"), ("predict", T + ": DTreeClassifier.predict")], None, ["row_satisfies_path, clf.predict"])
prop("C12", "Set-based row and cut coverage equals routing row by row",
     "For every data set, split set and path, the rows found through the per-split row sets are exactly the rows that follow the path when their feature values are compared to the thresholds, and the cuts found through the per-split cut sets are exactly the generated cuts that follow the path; the per-split row sets built from the data partition the rows by feature <= threshold. Looking coverage up changes none of these sets.",
     ["inputs"], "all matrices, thresholds, leaves, split choices and cut rows within the bound",
     "No test compares set lookup with routing.",
     [T, E], [("set intersection", T + ": get_satisfied_rows, get_satisfied_cuts"), ("row sets", E + ": add_rows_to_splits"), ("routing", T + ": row_satisfies_path")],
     None, ["returned sets"])
prop("C13", "The tree master equals the published LP, built at once or column by column",
     "For every data set, tree, candidate splits and any history of initial paths and added columns, the tree master maximises the sum of path costs over non-negative path variables with exactly one path per leaf, split consistency between the leaves below every node, and at most one path per row for every row not dropped; adding a path later gives the same problem as having it initially. Rows dropped by preprocessing because they reach at most two leaves do not change which path selections are feasible.",
     ["inputs", "histories", "configurations"], "all data, thresholds, candidate splits and path histories within the bound",
     "Tests count constraints of one instance.",
     [T], [("model construction", T + ": DTreeMasterProblem.generate_mp"), ("column addition", T + ": DTreeMasterProblem.add_column"), ("row dropping", T + ": preprocess_rows")],
     [("solver_", "the LP handed to the solver", T)], ["variables, objective and constraints of master_problem.solver_"])
prop("C14", "An integer master solution is one valid tree worth its training hits",
     "Every integer feasible solution of the tree master selects exactly one path per leaf, all selected paths use the same split at every common node, so that they form one complete decision tree and every training row follows exactly one selected path; when path costs are the numbers of correctly labelled rows, the objective equals the number of training rows the tree predicts correctly.",
     ["inputs", "histories"], "all integer feasible points of all masters within the bound",
     "Only the predictions of one trained tree are checked.",
     [T], [("leaf, consistency and row constraints", T + ": DTreeMasterProblem.generate_mp, add_column")], None,
     ["feasible set of master_problem.solver_", "selected_paths", "clf.predict"])
prop("C15", "Lazily added row constraints are right, needed, bounded and stay right",
     "When row constraints are added lazily, each round adds constraints only for rows that are kept, not yet present and whose followed paths' values in the current solution sum to a number that differs from one by more than 1e-6, adds the first ones up to ten per round, and reports how many it added; each added constraint says that at most one of all current paths followed by that row is chosen, and columns added later enter exactly the constraints of the rows that follow them. No other row constraint or column is changed by a round.",
     ["inputs", "histories"], "all data, LP solutions, and interleavings of column additions and cut rounds within the bound",
     "No test exercises lazily added constraints.",
     [T], [("separation", T + ": DTreeMasterProblem.add_beta_cuts, violated_row_constraint"), ("later columns", T + ": DTreeMasterProblem.add_column"),
           ("coverage bookkeeping", T + ": compute_satisfied_paths, preprocess_rows")], None, ["constraints of master_problem.solver_"])
prop("C16", "Exact tree pricing models value every path by its reduced cost",
     "For every data set, leaf, candidate splits, row weights and duals, the exact tree pricing models (integer-program and constraint-program versions, and the older one per target) have as feasible choices exactly one candidate split per node of the leaf and one target, and the best objective over the remaining variables equals the reduced cost of that path (up to a constant, and scaled and rounded coefficient-wise, in the constraint-program version); the path returned for a solution (an optimal one for the integer programs, every one shown to the callback for the constraint program) has those splits, that target, that leaf and the weighted number of correctly labelled rows as cost, and a path is returned only if its reduced cost exceeds 1e-6. This also holds after updates with other duals and further cuts.",
     ["inputs", "histories"], "all data, thresholds, candidate sets, weights, targets, duals and update sequences within the bound; all feasible solver solutions",
     "Tests solve two small pricing problems with fixed duals.",
     [T], [("integer program", T + ": DTreeSubProblem"), ("constraint program and solution callback", T + ": DTreeSubProblemSat, PathGenerator"), ("old model", T + ": DTreeSubProblemOld")],
     None, ["pricing model", "paths returned by generate_columns"])
prop("C17", "Tree pricing and tree master agree on the reduced cost of every path",
     "For every data set, tree and dual solution the LP solver may report for the tree master, the reduced cost that the heuristic and the exact pricing assign to a path equals the path's cost minus the duals of the master constraints its column enters, computed from the column the master actually adds, including rows without a constraint, lazily added rows and generated cuts.",
     ["inputs", "histories"], "all data, duals, candidate splits, paths and cut histories within the bound",
     "One test compares the heuristic value for one path; nothing ties it to the master's column.",
     [T], [("dual extraction", T + ": DTreeMasterProblem.solve_rmp"), ("column", T + ": DTreeMasterProblem.add_column"), ("reduced cost", T + ": DTreeSubProblemHeuristic.get_reduced_cost, pricing models")],
     None, ["solve_rmp return value", "get_reduced_cost", "column coefficients"])
prop("C18", "Heuristic tree pricing returns only valid, improving, distinct paths",
     "Every path the random tree pricing heuristic returns belongs to an existing leaf and its root-to-leaf nodes, uses a candidate split at each node and no split twice, carries a target that is the weighted majority label among the rows it covers (any valid target when it covers none) with that weighted count as cost, and has reduced cost above 1e-6; no two returned paths of a call are the same, and the numbers of successes and failures recorded sum to the number of attempts.",
     ["inputs", "schedules", "configurations"], "all data, duals, weights, candidate splits and all outcomes of the random choices within the bound",
     "Tests run the random generator once on one data set.",
     [T], [("random path construction and filtering", T + ": DTreeSubProblemHeuristic.generate_columns")], None, ["paths returned by generate_columns"])
prop("C19", "Preprocessing rows loses no information, wherever it is cut short",
     "For every data set, splits and candidate lists, preprocessing drops a row from the pricing problems only when an equally labelled row that takes the same side on every split selectable at every node either can reach stays, and that row's weight counts exactly the rows it stands for, so that for every selectable path and target the weighted count over kept rows equals the true count; a row is dropped from the master only when it reaches at most two leaves or another kept row is followed by exactly the same selectable paths, and every row dropped from the pricing problems is dropped from the master too. Recorded reachable leaves are exactly those reachable with selectable splits; all this holds wherever the time limit cuts the work short.",
     ["inputs", "schedules"], "all matrices, labels, thresholds, candidate lists and all clock behaviours within the bound",
     "No test covers preprocessing at all.",
     [E, T], [("row preprocessing", E + ": preprocess"), ("row preprocessing", T + ": DTreeMasterProblem.preprocess_rows")],
     [("weight, removed_from_sp, removed_from_master", "what stays", E)], ["returned data rows"])
prop("C20", "Running statistics are the exact mean and sample variance",
     "After any sequence of pushed values and clears, the running statistic reports the number of values since the last clear, their arithmetic mean (0 when there are none), their sample variance (0 with fewer than two values) and its square root as standard deviation.",
     ["inputs", "histories"], "all sequences of real values and clears within the bound",
     "The test pushes three fixed numbers.",
     [P], [("online update", P + ": RunningStat")], None, ["num_data_values, mean, variance, standard_deviation"])
prop("C21", "The parameter tuner explores, then exploits the best-scoring values",
     "For every score history the tuner returns only registered values and credits a score to the value chosen last (or the one named), keeping per-value counts and total consistent; while exploration calls remain a two-valued parameter follows its switch-bit pattern and others are drawn at random; afterwards values tried fewer than four times are chosen first, and then only values whose score plus a tenth of its standard deviation reaches the best final score, where a final score is the mean plus the bonus divided by the count.",
     ["histories", "schedules"], "all sequences of choices and real-valued scores and all outcomes of the random draws within the bound",
     "Two tests follow one seeded history each.",
     [P], [("selection", P + ": Parameter.get_best_value"), ("scoring", P + ": Parameter.adjust_score")], None, ["get_best_value, counts_, final_scores_"])
prop("C22", "Solving a pricing model applies the tuned parameters and scores them once",
     "Every solve through the pricing base class runs the given model once with the given callback and time limit and with the parameter values the tuner chose, records the measured time and gap, and credits each tuned parameter exactly once with minus the sum of a time score and a gap score: time over limit plus zero when optimal, one plus the relative gap when only feasible (one when objective and bound have opposite signs), and two otherwise.",
     ["inputs", "histories"], "all solver statuses, times, objective values and bounds (not both zero when merely feasible) and tuner states",
     "No test observes scores or parameters.",
     [B], [("solve and score", B + ": BaseSubproblem.solve_model"), ("tunable parameters", B + ": BaseSubproblem.get_tunable_params")], None,
     ["solve_times_, gaps_, tunable parameters, solver parameters at Solve"])
prop("C23", "The candidate catalogue built from CART trees is faithful",
     "For every collection of fitted binary trees, splits get one id per distinct feature/threshold pair, ids are consecutive and never change when further trees are merged; every internal node of a tree is mapped to its position in the complete tree with the id of exactly its own split; candidate lists contain each split at most once with the number of times it was seen and remember the last one; reduction keeps for every node the most frequently seen ones up to the quota and marks as removed exactly the splits no node keeps.",
     ["inputs", "histories"], "all tree shapes up to the depth bound, all features/thresholds, all merge orders and quotas within the bound",
     "No test covers this code.",
     [E], [("catalogue", E + ": get_all_splits, merge_all_splits"), ("node mapping", E + ": get_all_nodes, merge_all_nodes, merge_all_nodes_last_split"), ("reduction", E + ": reduce_splits"), ("lists", E + ": get_splits_list, get_nodes_list, get_leaves_list, get_paths_list, get_is_leaves")],
     None, ["returned dictionaries and lists"])
prop("C24", "Constructor parameters are stored and take effect on the next fit",
     "For every value of every constructor parameter, the rule classifiers report it back unchanged, a clone has equal parameters, and after parameters are changed through the estimator interface the next training uses the changed values and the new training data, whether or not the estimator was trained before. The tree classifier, too, reports every constructor parameter as given and can be cloned.",
     ["configurations", "histories"], "all values of C, p and the limits, all sequences of parameter changes and trainings within the bound",
     "The estimator-wide scikit-learn check is skipped for these classifiers because they take 0/1 inputs; no test changes a parameter after construction.",
     [R], [("parameter storage", R + ": BooleanDecisionRuleClassifier.__init__, BooleanDecisionRuleClassifierWithHeuristic.__init__"), ("training", B + ": ColGenClassifier.fit")], None,
     ["get_params, set_params, clone, the master built by fit"])
prop("C25", "Generated cuts are valid for every tree and priced consistently",
     "For every set of paths and split thresholds, the cut generation model admits exactly the assignments of rows to split sides consistent with some real feature value per feature and marks exactly the paths such a row follows; every solution whose followed paths sum to more than one in the current solution becomes one equality over exactly the paths it follows, later columns enter it exactly when the cut row follows them, and the pricing models mark it exactly when the path does.",
     ["inputs", "histories"], "all paths, thresholds, LP solutions, cut rows and column orders within the bound",
     "No test enables generated cuts.",
     [T], [("cut model", T + ": DTreeMasterProblem.create_cut_gen_model, add_column"), ("collection", T + ": CutGenerator"), ("addition", T + ": DTreeMasterProblem.add_cuts"), ("pricing", T + ": add_cut_rows, DTreeSubProblemHeuristic.update_subproblem")],
     None, ["cut_gen_model_, cut constraints in solver_, pricing rows"])
prop("C26", "Path equality is an equivalence that ignores node order only",
     "Two complete paths compare equal exactly when they have the same leaf, target, cost and number of nodes and assign the same split to the same nodes, whatever the order in which nodes are listed; the relation is reflexive, symmetric and transitive, and comparing changes neither path.",
     ["inputs"], "all pairs and triples of paths with distinct nodes within the bound",
     "One test compares a handful of variations.",
     [T], [("comparison", T + ": Path.is_same_as")], None, ["Path.is_same_as"])
prop("C27", "Warm-start paths form a valid tree with true majority costs",
     "For every data set and choice of last-seen splits, the paths built to warm-start training contain one path per leaf along that leaf's root-to-leaf nodes using each node's last-seen split, and each path's target is a majority label among the rows following it with the number of such rows as cost (the first label and 0 when no row follows it); the per-leaf variant gives the same for the leaves whose nodes all carry a split that is known and not removed, and gives nothing for the others.",
     ["inputs", "configurations"], "all matrices, labels, thresholds, split choices and removed marks within the bound",
     "No test covers this code.",
     [E], [("initial tree", E + ": get_all_leaves_paths"), ("extra paths", E + ": get_path_for_leaf"), ("routing", E + ": row_satisfies_path")], None, ["returned leaves and paths"])

prop("C28", "A tree training uses its instance and parameters, whatever was trained before",
     "A training of the tree classifier builds the published master over exactly the initial paths, leaves, nodes, splits, row flags and weights it is given, with its row-constraint, cut and pricing options, and one exact pricing problem per leaf (or per leaf and target) that values paths correctly; the paths, rows and cuts added during it are right, and it changes neither the given list of initial paths nor the given instance. All this also holds after any earlier trainings on the same objects (that generated paths, lazily added rows or cuts) by another classifier, a clone, or the same classifier with changed parameters or instance.",
     ["histories", "configurations"], "all data, weights, costs, LP solutions and sequences of up to two earlier trainings within the bound",
     "Every test trains a fresh instance once, with fixed data.",
     [T, B], [("training", T + ": DTreeClassifier.fit, DTreeClassifier.__init__"), ("master", T + ": DTreeMasterProblem.generate_mp, compute_satisfied_paths, add_column, add_cuts, add_beta_cuts")], None,
     ["the master and pricing models after fit, initial_paths, Row, Split and Node objects"])

prop("C29", "No training step cuts off a valid tree or admits an invalid one",
     "After any history of added paths, lazily added row constraints and generated cuts, in any order, the integer points of the tree master are exactly the complete, consistent trees that the known paths can form, each worth the sum of the costs of its paths: no step excludes a tree that was available or lets in a selection of paths that is not a tree.",
     ["histories", "inputs"], "all data, LP solutions, cuts found and orders of up to five steps within the bound",
     "The one training test of the tree classifier uses neither lazy rows nor cuts and checks a single solution.",
     [T], [("model", T + ": DTreeMasterProblem.generate_mp, add_column"), ("lazy rows", T + ": DTreeMasterProblem.add_beta_cuts, get_satisfied_path_ids"), ("cuts", T + ": DTreeMasterProblem.add_cuts, CutGenerator, get_satisfied_cuts")], None,
     ["solver_ of the tree master"])
prop("C30", "Training errors are what the solved integer program says",
     "For a complete training followed by prediction: the tree classifier's predictions on the training rows are right exactly as often as the objective of the integer solution says, and every sample follows exactly one selected path and gets its label; the rule classifier's explanation has distinct clauses of total complexity at most C, and p times the positives it misses plus the number of clauses satisfied by each negative is never more than the objective, so its weighted training errors are bounded by it.",
     ["inputs", "configurations"], "all data, C, p, integer solutions and priced columns within the bound",
     "Tests compare single trainings with fixed predictions; none relates errors to the objective.",
     [R, T, B], [("training", B + ": ColGenClassifier.fit"), ("rules", R + ": BDRMasterProblem, BooleanDecisionRuleClassifier.predict"), ("trees", T + ": DTreeMasterProblem, DTreeSubProblemSat.generate_columns, DTreeSubProblemOld.generate_columns, DTreeClassifier.predict")], None,
     ["predict, explanation, selected_paths, the objective of the final program"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in PROPS:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
