#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the one list below (run by hand, outputs are committed)."""
import json
import os

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, technique, note, observe=()):
    assert len(title) <= 80, title
    P.append((dict(id=id, title=title, statement=" ".join(statement.split()),
                   quantifier=dict(over=over, text=" ".join(text.split())), why_tests_cant=" ".join(why.split()),
                   anchors=dict(files=files, mechanism=[dict(name=n, where=w) for n, w in mech],
                                observe_at=list(observe), hook_needed=None)), technique, " ".join(note.split())))


T = "ml/tree/"
GUEST, HOST = T + "hetero_decision_tree_guest.py", T + "hetero_decision_tree_host.py"
BG, BH = T + "hetero_secureboosting_tree_guest.py", T + "hetero_secureboosting_tree_host.py"
SESSION = ("Real guest and host classes run as concurrent parties over simulated sockets with a seeded hostile schedule; "
           "only the sockets, gmpy2, numba and the kernel's randomness are stand-ins.")

prop("C01", "Every split is the best admissible split over all parties' features",
     """Whenever training splits a node, the chosen (party, feature, bin) has the largest gain
     G_L^2/(H_L+lambda)+G_R^2/(H_R+lambda)-G^2/(H+lambda) among all candidate bins of all parties' sampled features
     that leave at least min_leaf_node rows (by the library's own rule) on both sides, the guest winning ties. The candidate
     bins of a column are its quantiles i/bin_num. A node becomes a leaf exactly when the depth limit is reached, it has too few rows to split, or no admissible candidate
     gains more than min_impurity_split. The split recorded in the model
     routes the training rows exactly as the bin it stands for.""",
     ["inputs", "configurations", "schedules"],
     "every table, label vector, objective, tree parameter, number of hosts, key, row order and message schedule",
     "the 12 stable tests exercise the table class only; no test trains anything, and the optimum of a split depends on all rows of all parties",
     [GUEST, HOST, T + "splitter.py", T + "creterion.py", T + "feateur_histogram.py", BG, BH],
     [("guest/host best split and federated comparison", GUEST), ("split search on histograms", T + "splitter.py"),
      ("gain", T + "creterion.py")],
     "runtime monitoring: online replay of each trained tree against an exhaustive split search over the raw data",
     SESSION + " The oracle shares no code with the library; gains closer than 1e-6 are treated as ties, as the code documents.",
     ["trees_ of guest and hosts after fit"])
prop("C02", "Leaf weights, boosted scores and loss history follow the stated objective",
     """Every leaf's weight is -sum(g)/(sum(h)+lambda) over exactly the training rows that reach it, with g and h the
     derivatives of the configured loss at the current scores. After every round each row's score is the previous score plus
     learning_rate times the weight of its leaf (each row once per tree, one tree per class in multi-class), starting
     from the loss's initial score. The reported loss history is the mean loss of those scores after each round.""",
     ["inputs", "configurations", "schedules"],
     "every table, labels, objective, learning rate, subsample rate, tree parameters, number of hosts and schedule",
     "no existing test trains a model; the arithmetic goes through encryption, remote histograms and subtraction, so single examples do not settle it",
     [BG, GUEST, T + "creterion.py", "ml/loss/cross_entropy.py", "ml/loss/regression_loss.py"],
     [("gradient computation and score update", BG), ("leaf weight", GUEST)],
     "runtime monitoring: replay of the trained model's rounds with an independent GBDT oracle",
     SESSION + " Tolerance 1e-6 relative.", ["trees_, tree weights, loss history, F after fit"])
prop("C03", "Federated prediction equals walking the trained trees on the joined rows",
     """For every row of every table given to predict (training rows, unseen rows, any order or subset, any keys), the
     output is the row's label, the predicted class or value, and the score(s) obtained by walking each tree on that row's own
     features at whichever party owns the split, plus the initial score. Exactly one output per input key comes back, and a row's
     output does not depend on the other rows. Fitting and predicting leave the tables of the caller as they were.""",
     ["inputs", "configurations", "schedules"],
     "every trained model, prediction table, threshold and schedule of the parties",
     "no existing test predicts; the walk alternates between parties for every row, and the number of hops depends on the data",
     [GUEST, HOST, BG, BH],
     [("federated traversal", GUEST + " predict / " + HOST + " predict"), ("output rows", BG + " predict")],
     "runtime monitoring: every prediction row compared with a direct traversal of the trees over all parties' raw data",
     SESSION + " Tolerance 1e-6 relative.", ["predict() outputs"])
prop("C04", "Training is lossless: spreading columns over parties does not change the model",
     """The same columns and labels distributed differently over guest and hosts (any number of hosts, encryption mode,
     batch size, row order, schedule) give the same scores, loss history and predictions for every row. They also equal those of
     the repository's single-machine trainer (xgboost/) on the joined table. Only runs in which two splits tie for the best may differ.""",
     ["inputs", "configurations", "schedules"],
     "every table and pair of partitions of its columns among two to four parties, against the local trainer",
     "no existing test trains either variant; the claim compares whole runs, not single calls",
     [BG, BH, GUEST, HOST, "xgboost/hetero_secureboosting_tree_guest.py", "xgboost/hetero_decision_tree_guest.py"],
     [("plain and federated trainers", "ml/tree, xgboost")],
     "runtime monitoring: differential runs (two federations and the local trainer) compared row by row",
     SESSION + " Runs with two candidate splits within 3e-6 of the best gain are skipped, as decided by exhaustive search.")
prop("C05", "The wire discloses no labels, gradients, weights, features, thresholds or keys",
     """No byte sent between parties contains, outside a ciphertext, a raw feature value, a label or class name, a
     row's gradient, a node's gradient sums, a gain, a leaf weight, a score, a split threshold of another party or any private key material. Every
     per-row gradient pair the guest sends is encrypted under its Paillier key of the configured length, and
     in strict mode each ciphertext is freshly randomised and sent once. Sessions that differ only in secrets of one
     party, and not in tree structure or the rows' positions, look the same outside ciphertexts to the others, but for each host's own best split per node.""",
     ["inputs", "configurations", "schedules"],
     "every session: tables, labels, objectives, encryption modes, tree parameters, schedules",
     "no existing test looks at a message; a leak shows only in the bytes of a full session",
     [GUEST, HOST, BG, BH, "federation/transfer_inst.py", "ml/secureprotol/encrypt.py", "ml/secureprotol/encrypt_mode.py"],
     [("masking before sync", GUEST), ("split encoding by host", HOST)],
     "runtime monitoring: captured traffic is decoded and searched for secret values (taint by value)",
     SESSION + " Row keys, node membership, tree shape and split owners are permitted to be seen.",
     ["all bytes between parties"])
prop("C06", "Paillier encryption is correct, additively homomorphic, randomised and key-bound",
     """Decrypting any program of encryptions, additions, subtractions, negations, sums, and multiplications or divisions by plain
     numbers over integers and floats gives the value the same program has on the plain numbers, to encoding precision, and
     leaves its operands unchanged. Encrypting equal values twice gives different ciphertexts, keys are products of two distinct
     primes with exactly the requested length, and mixing ciphertexts of different keys, decrypting with another key, or encrypting non-numbers is
     refused. Lists, nested containers and pickled ciphertexts decrypt element by element to what was encrypted. Raw encryption is
     a bijection on the residues modulo n: c = (1+n)^m r^n for the random value r that is given or drawn.""",
     ["inputs", "programs"],
     "all keys, plain values within the message space, and finite programs over ciphertexts",
     "no existing test encrypts; correctness depends on number-theoretic edge cases (signs, exponents, CRT branches) that need many keys and values",
     ["ml/secureprotol/fate_paillier.py", "ml/secureprotol/encrypt.py", "ml/secureprotol/gmpy_math.py", "ml/secureprotol/fixedpoint.py"],
     [("raw encryption, CRT decryption", "ml/secureprotol/fate_paillier.py"), ("container encryption", "ml/secureprotol/encrypt.py")],
     "runtime monitoring: random ciphertext programs judged by an exact-fraction model",
     "Exact model with error bounds; gmpy2 is a pure Python stand-in, so gmpy2 itself is trusted.")
prop("C07", "Fixed-point numbers encode, compute and compare as the numbers they stand for",
     """Encoding any finite int, float or numpy scalar within range and decoding it gives it back (integers exactly, floats
     to their double precision, or to the precision asked for), whatever the modulus. Sums, differences, products, quotients, comparisons and
     exponent changes of encoded numbers agree with the exact arithmetic of the values, operands unchanged, and stay in the
     operands' modulus. Values out of range, exponent changes that would lose digits, and non-numbers are refused.""",
     ["inputs", "programs"], "all values in range, moduli, precisions, and operation sequences",
     "no existing test touches fixed-point numbers; errors show at particular magnitudes, signs and exponents",
     ["ml/secureprotol/fixedpoint.py"],
     [("encode/decode/align", "ml/secureprotol/fixedpoint.py")],
     "runtime monitoring: random operation sequences judged by an exact-fraction model",
     "Products go through floats in this library and are therefore judged to 50 bits.")
prop("C08", "The encryption mode changes the cost of encryption, never what is encrypted",
     """In strict, fast and balance mode alike, every table returned by an EncryptModeCalculator holds under each key
     ciphertexts that decrypt to that key's current values, whatever was encrypted in earlier rounds and in whatever row order.
     Strict encrypts everything afresh each time, fast only the first time, balance afresh with the configured probability.
     The input tables are not modified.""",
     ["inputs", "histories", "configurations"], "all modes, rates, row shapes and sequences of tables over the same keys",
     "no existing test uses the calculator; the result depends on the history of earlier rounds",
     ["ml/secureprotol/encrypt_mode.py"],
     [("incremental re-encryption", "ml/secureprotol/encrypt_mode.py")],
     "runtime monitoring: a counting encrypter and decryption of every returned table",
     "Rows may drop out from one call to the next but not join, as in training.")
prop("C09", "Quantiles are never further from their rank than the error bound documents",
     """For every stream of finite numbers and every error e, a quantile summary of N numbers answers quantile p with one of those numbers whose
     rank lies in floor((p-2e)N)..ceil((p+2e)N), in whatever order they came, however often it was queried or compressed in between,
     after merging partial summaries, and for sparse columns counting the zeros that are not stored. Split points found by quantile binning are distinct, ascending values of
     their column, at most bin_num-1 of them, each at one of the quantiles i/bin_num, and every such quantile has one. Cells that are no
     numbers and listed abnormal values count for nothing, as zeros neither, and fitting twice gives the same points.""",
     ["inputs", "histories", "configurations"],
     "all streams, orders, errors, buffer sizes, merge trees, interleavings of insert and query, dense and sparse tables",
     "no existing test touches the summaries; the bound concerns compressed state that only builds up over thousands of insertions in particular orders",
     ["ml/feature/quantile_summaries.py", "ml/feature/binning/quantile_binning.py", "ml/feature/binning/base_binning.py"],
     [("summary", "ml/feature/quantile_summaries.py"), ("split points", "ml/feature/binning/quantile_binning.py")],
     "runtime monitoring: every answer's rank compared with the exact sorted data",
     "Values that sparse storage drops (below 1e-6) count as zero, which is the library's rule.")
prop("C10", "Binning puts each value in the bin its split points define, and alters no more",
     """Converting a table with split points puts each selected value v, in dense and sparse tables alike, into bin number
     'how many split points are smaller than v' (0-based), whatever the values and whether or not the table is the one fitted.
     Keys, labels, ids, weights, unselected columns, sparse structure, header and the caller's own table stay as they were. The bin reported for
     the unstored zeros of each sparse column and the split points returned for each column are the ones of that column.
     Selecting columns that do not exist or were not fitted is refused.""",
     ["inputs", "configurations"],
     "all tables, representations, split points, column selections",
     "no existing test bins anything; values on and beside split points and zeros of sparse rows are where it can go wrong",
     ["ml/feature/binning/base_binning.py", "ml/feature/binning/quantile_binning.py", "ml/feature/sparse_vector.py"],
     [("convert_feature_to_bin", "ml/feature/binning/quantile_binning.py"), ("sparse and dense row conversion", "ml/feature/binning/base_binning.py")],
     "runtime monitoring: every cell of every converted table against a counting oracle, inputs against a snapshot",
     "A sparse vector is assumed to store only values that are non-zero by the library's 1e-6 rule.")
prop("C11", "Gradient histograms account for every row of every open node exactly once",
     """For every binned table, assignment of rows to tree nodes, gradient table (plain or Paillier) and feature selection, the histogram cell (node, feature, bin)
     holds the sums of g and h and the number of exactly those rows that are in the node and whose bin is at most that bin (cumulatively), with unstored zeros counted in their column's
     zero bin. Rows of finished or other nodes and rows without gradients contribute nothing, deselected features get empty
     histograms, and the last cell of each feature is the node's total.""",
     ["inputs", "configurations"],
     "all binned sparse tables, node assignments, gradients, feature selections and node numberings",
     "no existing test builds a histogram; a row lost or counted twice shows only for particular zeros, nodes and selections",
     [T + "feateur_histogram.py", T + "splitter.py"],
     [("histogram accumulation", T + "feateur_histogram.py")],
     "runtime monitoring: each cell recomputed by a direct sum over the rows, plain and under encryption",
     "Encrypted sums are judged after decryption at 1e-9 relative.")
prop("C12", "Tables behave as finite maps, and operations never change their operands",
     """Any program of table operations gives what it gives on plain key-value maps: map, mapValues, filter, join (common keys),
     union (all keys, the combining function, by default the left value, deciding common ones and given copies of the left values), subtractByKey, mapPartitions,
     mapReducePartitions, reduce, take, first, count and collect. No operation alters the rows or schema of its operands or
     returns one of them as its result, and malformed data is refused.""",
     ["inputs", "programs"],
     "all keys, values and finite programs over several tables sharing history",
     "the 12 existing tests run single operations on a few rows; interaction of operations, aliasing and unusual keys need programs",
     ["computing/d_table.py", "computing/_computing.py"],
     [("DTable operations", "computing/d_table.py")],
     "runtime monitoring: a model of plain dictionaries runs in step with every program; all live tables compared after each step",
     "Functions passed to the tables are pure, except that a union's may combine in place; reductions are associative and commutative.")
prop("C13", "Transport delivers every object intact, once, in order, to its addressee only",
     """Every object a party sends over the transport, of any picklable kind and size, arrives equal to what was sent, exactly once, in the order sent, and only at the
     host or hosts addressed, however TCP splits, merges or delays the bytes; hosts are numbered in the order they connected, and collecting from all lists the answers in that order.
     A connection that ends inside a message raises an error at the receiver instead of delivering something else or hanging, and sending to or receiving
     from a host index that does not exist is refused.""",
     ["inputs", "schedules", "fault_sequences"],
     "all conversations, object sizes, segmentations, back-pressure patterns and cut points, one to five hosts",
     "no existing test opens a socket; partial reads and cut connections never happen on a quiet loopback",
     ["federation/transfer_inst.py"],
     [("message framing", "federation/transfer_inst.py")],
     "runtime monitoring: simulated TCP with adversarial segmentation and faults, deliveries checked against the sent sequence; real loopback runs beside it",
     "Both ends follow the same conversation, as the training protocol does.")
prop("C14", "Parties stay in step: sessions end, nothing is left over, no schedule matters",
     """On valid input every federated training and prediction ends at every party, with every byte sent also received, and all
     parties holding the same tree structures, with each party keeping the split thresholds of exactly its own nodes.
     The model and predictions do not depend on how the parties are scheduled or their messages fragmented. When a party dies, the
     others end too, with an error or with the undisturbed result, never hanging and never with a different model.""",
     ["schedules", "crash_points", "inputs"],
     "all sessions, message schedules, back-pressure limits, and points at which one party dies",
     "no existing test runs two parties; deadlocks, left-over messages and crashes are questions of schedule",
     [GUEST, HOST, BG, BH, "federation/transfer_inst.py"],
     [("guest protocol", GUEST), ("host protocol", HOST)],
     "runtime monitoring: seeded cooperative scheduler that decides deadlock by logic, byte accounting, crash injection",
     SESSION + " Hosts connect in the same order in compared runs; a dead party's connections are closed by its system.")
prop("C15", "Losses, gradients, link functions and label checks match their definitions",
     """For every label, score and loss parameter, including extreme scores, each loss's gradient and hessian (cross entropies, lse, lae, Huber, Fair, log-cosh, Tweedie) are finite and
     equal the textbook derivatives, array and scalar forms agree, the reported loss is the mean loss of the rows, and the initial score is zero for classification, the
     mean label for regression, and about the median for lae. Sigmoid, softmax, softplus, tanh, softsign and log-logistic equal their definitions without overflowing.
     Label checkers report exactly the distinct classes, refusing more than 1000, and regression labels must be numbers.""",
     ["inputs"], "all labels, scores (up to overflow), parameters, tables, keys",
     "no existing test evaluates a loss; wrong branches show at extreme scores or particular parameters",
     ["ml/loss/cross_entropy.py", "ml/loss/regression_loss.py", "ml/optim/activation.py", "ml/utils/classfiy_label_checker.py"],
     [("losses", "ml/loss"), ("links", "ml/optim/activation.py")],
     "runtime monitoring: closed-form and numeric-difference oracles on every value",
     "lae's hessian is 1 by convention; softmax's is the diagonal. The Tweedie loss/gradient mismatch is a known finding.")
prop("C16", "Parameter checks accept exactly what is documented and parsing overrides by name",
     """check() of every parameter class accepts each documented value, in any letter case where the value is a name, normalises only that case, and raises for a value
     of the wrong type, out of range or of unknown name. A new parameter object has the documented defaults and
     shares no mutable state with any other object. Parsing a configuration sets exactly the named fields that exist, nested ones
     included, leaves the configuration and all other fields alone, and refuses nesting deeper than five levels and configurations that are no dictionaries.""",
     ["inputs", "configurations"], "all parameter classes, fields, values, letter cases and nested configurations",
     "no existing test constructs a parameter; acceptance concerns whole value spaces and shared defaults show only across objects",
     ["ml/param/boosting_tree_param.py", "ml/param/base_param.py", "ml/param/encrypt_param.py", "ml/param/encrypted_mode_calculation_param.py",
      "ml/param/feature_binning_param.py", "ml/param/predict_param.py", "ml/param/cross_validation_param.py", "ml/utils/param_extract.py"],
     [("check()", "ml/param"), ("parsing", "ml/utils/param_extract.py")],
     "runtime monitoring: random valid and single-fault objects against a table of the documented domains",
     "Where docstring and code disagree in type only, no value of the disputed type is tried.")
prop("C17", "A tree exported to its protobuf model and loaded again is the same tree",
     """Exporting any guest or host tree as its model (meta and parameters), through serialised bytes, and loading it into a new tree object restores every
     node (id, site, feature, threshold, weight, leaf flag, children), the thresholds kept per node and the tree settings.
     Exporting does not change the tree, exporting again gives the same model, loaded trees share no state with the model, and a federation whose trees went through
     export and load predicts as before.""",
     ["inputs", "histories"], "all trees (deep, one-leaf, extreme numbers), both roles, and federations using reloaded trees",
     "no existing test exports a tree; a field lost in the round trip shows only where it differs from the schema's zero",
     [GUEST, HOST, "arch/api/boosting_tree_model_meta_pb2.py", "arch/api/boosting_tree_model_param_pb2.py", T + "decision_tree.py"],
     [("get_model/load_model", GUEST), ("get_model/load_model", HOST)],
     "runtime monitoring: field by field comparison of round trips; predictions of federations with reloaded trees",
     "Fields a node does not have (the feature of a leaf) come back as the schema's zero.")
prop("C18", "The command-line programs train and test on exactly the rows of the given files",
     """Reading a CSV file yields its ids, labels, header and values exactly. Splitting for any ratio, seed and shuffling puts each row in exactly one
     part, int(n*ratio) of them in the training part, the same rows at all parties, in file order when not shuffled. guest.py and host.py, run together on files listing the same rows, train on the
     training part and predict the test part with rows paired across parties, and print the true accuracy of those predictions.""",
     ["inputs", "configurations", "schedules"], "all CSV files (formats, ids, widths), ratios, seeds, one to three hosts",
     "no existing test runs the programs or reads a file; a misaligned split silently trains on wrong pairs",
     ["i_o/utils.py", "guest.py", "host.py"],
     [("CSV readers", "i_o/utils.py"), ("data_split and main", "guest.py, host.py")],
     "runtime monitoring: generated files, whole programs as simulated parties and as real processes; tables seen by fit/predict compared with the files",
     "Files list the same rows in the same order, as the repository's own data do.")
prop("C19", "Summary statistics and the vector helpers are exact for every table",
     """Mean, variance, standard deviation, minimum and maximum of every column equal the exact ones up to rounding, without the listed abnormal values and cells that are no numbers, and median and quantiles have
     the rank the summary's error allows, whatever the keys, row order, number of rows or magnitude of the values, asked once or again, for all or some columns. Statistics merged from
     parts equal those of the whole; columns that do not exist are left out or refused. Sparse vectors answer cells, counts and copies by what they store. The dot product, the elementwise reduce_add (None being neutral) and the norms equal their definitions and leave their arguments alone, and tables without rows are refused where checked.""",
     ["inputs", "histories"], "all tables, abnormal value lists, column choices, merges, vectors",
     "no existing test computes a statistic; cancellation, sign and merge order errors need unusual values",
     ["ml/statistic/statics.py", "ml/utils/fate_operator.py", "ml/utils/abnormal_detection.py", "ml/statistic/data_overview.py"],
     [("statistics", "ml/statistic/statics.py"), ("helpers", "ml/utils/fate_operator.py")],
     "runtime monitoring: exact-fraction statistics and order statistics against every answer",
     "Variances below 1e-6 are reported as 0 and dot() ignores entries below 1e-5, both by the code's constants.")
prop("C20", "Feature sampling is per tree, of the stated size; importances count real splits",
     """Every tree of every party admits exactly max(1, int(rate*n)) of its n features, drawn afresh for each tree and spread over all
     features, and splits only on admitted ones. The reported feature importances, by number of splits or by gain as configured, are
     those of the splits actually in the trees, per party and feature; the local trainer counts likewise. Feature names map to the column index in the header.""",
     ["inputs", "configurations", "histories"], "all tables, sampling rates, numbers of trees, importance types",
     "no existing test trains; spread and freshness are properties of many draws",
     [BG, BH, GUEST, HOST, T + "boosting_tree.py", "xgboost/hetero_secureboosting_tree_guest.py"],
     [("sample_valid_features", BG + ", " + BH), ("feature importance", BG)],
     "runtime monitoring: admitted features logged per tree, statistical spread over hundreds of draws, importances recounted from trees and gains",
     SESSION + " Spread tests have a false-alarm probability below 1e-9 per run.")
prop("C21", "Training stops exactly when the convergence rule says, at all parties together",
     """With early stopping on, training ends after the first round whose loss differs from the previous round's by less than tol, and never before the
     second round; otherwise, and with stopping off, it runs num_trees rounds of one tree, or one per class. Guest, hosts and the local trainer obey the same rule, all parties train equally many trees, and the loss
     history has one entry per round. The three convergence rules (loss difference, absolute loss, weight difference) judge every sequence by their definition and leave their input alone.""",
     ["inputs", "histories", "configurations"], "all loss sequences, tolerances, tree counts, tasks",
     "no existing test trains; stopping is a property of the loss history",
     ["ml/optim/convergence.py", BG, BH, "xgboost/hetero_secureboosting_tree_guest.py"],
     [("convergence rules", "ml/optim/convergence.py"), ("round loop", BG)],
     "runtime monitoring: rules against their definition on random sequences; number of rounds of whole sessions against the losses replayed from the model",
     SESSION + " Steps within 1e-9 of the tolerance may go either way.")
prop("C22", "RSA and affine ciphers and the big-number helpers compute what they promise",
     """Affine ciphertexts decrypt to the plaintext (to the encoder's precision), and sums, differences and integer multiples of them decrypt to the same on plaintexts; operands stay as
     they were, and adding anything but a ciphertext or 0, or multiplying by a non-integer, is refused. RSA decrypts what it encrypted, multiplies under encryption, and with no or half a key answers None. Encrypting lists, tables
     and nested arrays works element by element, and powmod, invert, getprimeover and isqrt are exact for integers of any size, invert refusing numbers without inverse.""",
     ["inputs", "programs"], "all keys, plaintexts within range, expressions, containers and operand sizes",
     "no existing test encrypts; errors sit at particular sizes, signs and parities",
     ["ml/secureprotol/affine.py", "ml/secureprotol/affine_encoder.py", "ml/secureprotol/encrypt.py", "ml/secureprotol/gmpy_math.py"],
     [("affine cipher", "ml/secureprotol/affine.py"), ("RSA and containers", "ml/secureprotol/encrypt.py"), ("modular helpers", "ml/secureprotol/gmpy_math.py")],
     "runtime monitoring: random expressions judged by an exact-fraction model, helpers by their defining equations",
     "Affine results stay inside the signed range the modulus leaves; gmpy2 is a pure Python stand-in.")
prop("C23", "A component's run() dispatches as documented and tags every output row",
     """run() checks and applies the given parameters, loads a model when one is given, then fits on training data and predicts it (rows tagged 'train'), predicts evaluation data
     given with it ('validation') or alone ('test'), and otherwise fits or transforms plain data; cross validation and one-vs-rest replace this when configured, and a component told not to run
     hands its data through. Each step runs under the flow id of its task and step. The output is the union of the tagged rows with the prediction schema, equal to what the
     trained model predicts for each row, also after a second run on further evaluation data. Models are exported under their own
     meta and parameter names, and metrics reach the tracker under their names and flow.""",
     ["inputs", "configurations", "histories"], "all parameter dictionaries, combinations of data sets and stages, and whole federated jobs",
     "no existing test calls run(); the outcome depends on combinations of data sets, parameters and stages",
     ["ml/model_base.py", T + "boosting_tree.py", "ml/utils/param_extract.py", BG, BH],
     [("run and _run_data", "ml/model_base.py")],
     "runtime monitoring: recording components against a dispatch model, and whole federated jobs driven through run() judged row by row",
     SESSION + " Training and evaluation rows have different keys.")
#MORE


def main():
    have = [p for p in P if os.path.exists(os.path.join(V, "checks", p[0]["id"].lower() + ".py"))]
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p, _, _ in P:
            f.write(json.dumps(p) + "\n")
    cmd = "python3-vt -B run.py %s --tier %s"
    checks = [dict(property=p["id"], quick_cmd=cmd % (p["id"], "quick"), thorough_cmd=cmd % (p["id"], "thorough"),
                   technique=t, level="exploration", level_note=n) for p, t, n in have]
    na = [dict(property=p["id"], reason="check not built yet") for p, _, _ in P if p["id"] not in [h[0]["id"] for h in have]]
    m = dict(version=1, setup_cmd="python3-vt -B tools/selftest.py", checks=checks, not_applicable=na,
             notes="One driver (run.py) runs every check: seeded cases in 8 worker processes, judged by the monitors in "
                   "checks/. No hooks in /repo: observation is from outside (simulated sockets, public objects).")
    with open(os.path.join(V, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


main()
