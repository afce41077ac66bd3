"""Writes /verif/properties.jsonl (kept as a script so that the text is reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mechanism, observe=None, state=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
                  quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files,
                               mechanism=[dict(name=n, where=w) for n, w in mechanism],
                               state=[dict(name=n, meaning=m, where=w) for n, m, w in (state or [])],
                               observe_at=observe or [], hook_needed=None)))

NOTEST = "The only tests cover the table class on one fixed table; nothing exercises this code at all. "

prop("C01", "Table operations agree with the same operation on a plain keyed mapping",
 "A table built from key/value pairs holds exactly those pairs (duplicate keys and malformed items are rejected), and one built without keys numbers its items from 0. "
 "count, first, take, collect, map, mapValues, mapPartitions, mapReducePartitions, reduce, filter, join, union and subtractByKey give exactly the result of the same operation on a plain insertion-ordered mapping: join keeps the common keys and passes the left value first, union combines common keys the same way and keeps all others, subtractByKey removes exactly the other table's keys, reduce folds every value once. "
 "No operation changes either operand table.",
 ["inputs", "histories"], "every pair of tables with every combination of equal and distinct keys and arbitrary values, every callback result, and sequences of operations on one table",
 "The 12 tests use one fixed three-row table and one callback per method; key collisions between operands, non-commutative callbacks and operand mutation are sampled at a single point or not at all.",
 ["computing/d_table.py", "computing/_computing.py"],
 [("operations build new tables from the private dict", "computing/d_table.py:DTable"), ("duplicate-key check on construction", "computing/d_table.py:DTable.__init__")],
 ["return value of each table operation"])

prop("C02", "Messages arrive intact, in order and only at the addressed party",
 "Whatever way the network splits the byte stream, each object sent is received unchanged, exactly once and in sending order, and receiving never consumes bytes of the next message; if the peer closes the connection in mid-message or between messages, receiving raises instead of hanging or returning a partial object. "
 "When the guest sends to index -1 every host gets the object and when it sends to a valid index only that host does; receiving mirrors this (a list in host order for -1), and any other index raises ValueError with nothing sent or received.",
 ["schedules", "inputs", "fault_sequences"], "every fragmentation of the stream by the network, every message length, every number of hosts and index, and a close at every byte",
 NOTEST + "Real sockets on a loop-back almost never return short reads, so fragmentation and mid-message close would not be hit by tests either.",
 ["federation/transfer_inst.py"],
 [("16-byte decimal length header, then payload", "federation/transfer_inst.py:TransferInst.send_data"), ("read loop", "federation/transfer_inst.py:TransferInst.recv_data"), ("index routing", "federation/transfer_inst.py:TransferInstGuest")],
 ["object returned by receive, bytes written per connection"])

prop("C03", "Fixed-point encoding keeps the encoded number",
 "Encoding any finite number that fits the plaintext space and decoding it returns that number (integers exactly, floats to double precision, magnitudes below 1e-200 as zero), for the default modulus and for any other modulus; a number that does not fit is rejected with ValueError, and decoding a value in the overflow gap or at/above the modulus is rejected rather than misread. "
 "Sums, differences, products and quotients of encoded numbers (with each other or with plain numbers, on either side) decode to the same operation on the numbers whatever their exponents (to double precision, as long as the operands aligned to a common exponent and the result fit the plaintext space), raising the exponent of an encoding keeps its value, and the six comparisons order encodings as they order the numbers.",
 ["inputs"], "every scalar (all mantissas, all exponents in the stated range, both signs), every modulus used, every pair of operands and exponents",
 NOTEST + "Rounding and wrap-around faults show only for particular mantissa/exponent/sign combinations.",
 ["ml/secureprotol/fixedpoint.py"],
 [("exponent chosen from the float's binary exponent", "ml/secureprotol/fixedpoint.py:FixedPointNumber.encode"), ("negative numbers as residues above n - max_int", "ml/secureprotol/fixedpoint.py:FixedPointNumber.decode")],
 ["decoded value"])

prop("C04", "Paillier decryption inverts encryption and ciphertext arithmetic",
 "Decrypting an encryption of a number with the matching private key gives back that number for every random obfuscator and every valid prime pair, in either order of the primes; a ciphertext belonging to another public key is refused, both for decryption and for addition. "
 "Adding two ciphertexts, adding or subtracting a plain number on either side, and multiplying or dividing by a plain number decrypt to the same operation on the plain numbers, for all signs and exponent differences while the result fits the plaintext space. "
 "A ciphertext handed out securely has been re-randomised without changing its plaintext.",
 ["inputs", "configurations"], "every plaintext residue, every obfuscator and every ciphertext for the enumerated small keys (bit-precise), and all plaintext pairs / exponents for the homomorphic layer",
 NOTEST + "Errors in the negative-number shortcut, CRT recombination or exponent alignment affect only parts of the plaintext space.",
 ["ml/secureprotol/fate_paillier.py", "ml/secureprotol/gmpy_math.py", "ml/secureprotol/encrypt.py", "ml/secureprotol/fixedpoint.py"],
 [("g = n+1 encryption with inverse shortcut for negative plaintexts", "ml/secureprotol/fate_paillier.py:PaillierPublicKey.raw_encrypt"), ("CRT decryption", "ml/secureprotol/fate_paillier.py:PaillierPrivateKey.raw_decrypt"), ("exponent alignment", "ml/secureprotol/fate_paillier.py:PaillierEncryptedNumber")],
 ["decrypted value"])

prop("C05", "RSA and affine ciphers decrypt what they encrypt",
 "For every RSA key triple, decrypting an encryption of a message below the modulus returns the message, and encrypting or decrypting without the needed key part returns nothing. "
 "For every affine key with invertible multiplier, decrypting an encryption returns the encoded number to its encoding precision, sums and differences of ciphertexts and products with a plain integer decrypt to the same operation on the plain numbers while the result, as an integer of the encoding, lies between -n/10 and 9n/10 (negative results included), and unsupported operand types are refused with TypeError.",
 ["inputs", "configurations"], "every message for enumerated small RSA keys; every affine key, plaintext and integer multiplier within the stated widths",
 NOTEST + "Key values are random, and the sign threshold and multiplier bookkeeping fail only for particular values.",
 ["ml/secureprotol/encrypt.py", "ml/secureprotol/affine.py", "ml/secureprotol/affine_encoder.py", "ml/secureprotol/gmpy_math.py"],
 [("a*x+b mod n with a multiplier counter", "ml/secureprotol/affine.py:AffineCipherKey"), ("powmod", "ml/secureprotol/encrypt.py:RsaEncrypt")],
 ["decrypted value"])

prop("C06", "Every encryption mode yields ciphertexts of the current data",
 "In each round, under the strict, fast and balanced modes and whatever re-encryption choices are drawn, decrypting the table returned by the encryption-mode calculator gives, key for key and component for component, the data passed in that round, for array, tuple, list and scalar rows (every round passing the same keys). "
 "The first round, and in strict mode every round, encrypts every value afresh; later rounds in fast mode only add the changes to the ciphertexts, and in balanced mode encrypt afresh with the configured rate. The caller's table is never modified.",
 ["inputs", "histories", "schedules"], "every sequence of rounds up to the bound, every data value, every random draw of the balanced mode",
 NOTEST + "The stale-ciphertext faults need several rounds and a particular sequence of random draws.",
 ["ml/secureprotol/encrypt_mode.py"],
 [("difference of the new and previous data is added to the previous ciphertexts", "ml/secureprotol/encrypt_mode.py:EncryptModeCalculator.encrypt")],
 ["decrypted rows per round"], [("previous data and ciphertexts", "what the next difference is taken against", "ml/secureprotol/encrypt_mode.py")])

prop("C07", "Quantile queries stay within the documented rank error",
 "For any inserted numbers, in any order, buffer size and compression schedule, a query for quantile p returns an inserted value whose rank lies between floor((p-2e)N) and ceil((p+2e)N), where e is the error parameter and N the number of values; a p outside [0,1] is rejected and abnormal values are ignored. "
 "For data with implicit zeros the same bound holds with the zeros counted as values (the answer may then be 0, also for a p exactly on an edge of the zeros; stored values are 0 or at least 1e-6 in magnitude). "
 "Merging summaries counts every value of both exactly once; its answers are values of either, keep the bound with 3e in place of 2e and do not decrease with p.",
 ["inputs", "histories"], "every sequence of values (all orderings and ties) up to the bound, every buffer size, error and split into merged parts",
 NOTEST + "Rank faults depend on the order in which buffers are flushed relative to the values already summarised.",
 ["ml/feature/quantile_summaries.py"],
 [("sampled list with g/delta as in Greenwald-Khanna", "ml/feature/quantile_summaries.py:QuantileSummaries"), ("implicit-zero handling", "ml/feature/quantile_summaries.py:SparseQuantileSummaries")],
 ["value returned by query"])

prop("C08", "Binning puts every value in the bin its thresholds define",
 "The thresholds fitted for a column are strictly increasing and at most bin_num-1 of them; every value, dense or sparse, is replaced by the number of thresholds below it (the first threshold not smaller than the value), so that comparing bins is the same as comparing values against a threshold. "
 "The bin reported for absent (zero) entries is the bin of 0, thresholds and zero-bins are reported for the right column, and entries keep their column and row.",
 ["inputs", "configurations"], "every small table of values (dense and sparse, negatives, zeros, ties, missing entries), every bin count in the bound, column subsets",
 NOTEST + "Misplaced boundary values, unsorted thresholds or a wrong zero bin need specific value patterns.",
 ["ml/feature/binning/base_binning.py", "ml/feature/binning/quantile_binning.py", "ml/feature/sparse_vector.py"],
 [("linear search for the first threshold >= value", "ml/feature/binning/base_binning.py:Binning.get_bin_num"), ("zero bin per column", "ml/feature/binning/base_binning.py:Binning.get_sparse_bin"), ("thresholds from quantile queries", "ml/feature/binning/quantile_binning.py:QuantileBinning.fit_split_points")],
 ["binned rows, thresholds and zero bins returned to the trainer"])

prop("C09", "Histograms hold the gradient, hessian and count sums of each bin",
 "For each tree node in the batch and each usable feature, histogram entry b is the sum of gradients, the sum of hessians and the number of the samples that are in that node and not finished and whose bin for that feature is at most b; samples with no stored entry count in the feature's zero bin. "
 "Samples of other nodes never contribute, unusable features get no entries, and the result does not depend on sample order or on how rows are stored (a missing usable-feature list means every feature is usable).",
 ["inputs", "configurations"], "every assignment of samples to nodes and bins (stored or implicit), all gradient and hessian values, all usable-feature masks within the bound",
 NOTEST + "A wrong zero-bin correction or node filter changes only particular combinations of sparsity, node and feature mask.",
 ["ml/tree/feateur_histogram.py"],
 [("explicit entries plus correction for implicit zeros", "ml/tree/feateur_histogram.py:FeatureHistogram.batch_calculate_histogram"), ("prefix sums", "ml/tree/feateur_histogram.py:FeatureHistogram.accumulate_histogram")],
 ["histograms returned to the tree builder"])

prop("C10", "The split search returns the best admissible split",
 "For any histograms, the guest's split is one of maximal gain GL^2/(HL+l)+GR^2/(HR+l)-G^2/(H+l) among the splits of usable features whose two sides both have at least the minimum leaf count in nodes with at least the minimum sample count and whose gain exceeds the minimum gain, and reports that split's feature, bin, left sums and gain; when there is none it reports no split. "
 "The host's candidate list contains exactly the admissible (feature, bin) pairs with matching encrypted left sums in the same order, and a node's output weight is -G/(H+l).",
 ["inputs", "configurations"], "every histogram content (sums, counts), usable-feature mask, regularisation and minimum within the bound",
 NOTEST + "Wrong constraint boundaries or tie handling appear only for particular counts and sums.",
 ["ml/tree/splitter.py", "ml/tree/creterion.py"],
 [("exhaustive scan over features and bins", "ml/tree/splitter.py:Splitter"), ("gain and weight formulas", "ml/tree/creterion.py:XgboostCriterion")],
 ["split information returned per node"])

prop("C11", "The federated choice takes the best split over guest and all hosts",
 "For each node the guest picks, for each host, the candidate of largest gain above the minimum (or tells it there is none), and then the overall choice is the guest's own split unless some host's best gain exceeds it by more than 1e-6, in which case it is a host split of largest gain with that host's name, feature, left sums and gain. "
 "Results stay matched to their node and host for any number of nodes and hosts.",
 ["inputs", "configurations"], "every set of candidate sums and gains of the guest and up to the bound of hosts, nodes and candidates, including ties and empty lists",
 NOTEST + "Host selection errors need at least two hosts or nodes with particular gain orders.",
 ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/splitter.py"],
 [("best candidate per host", "ml/tree/hetero_decision_tree_guest.py:find_host_split"), ("guest versus hosts", "ml/tree/hetero_decision_tree_guest.py:find_best_split_guest_and_host")],
 ["split chosen per node, message returned to each host"])

prop("C12", "A trained tree is well formed and its leaves carry the optimal weights",
 "After training, the node with id i is at position i, every inner node has two children that follow it in breadth-first order, every other node has exactly one parent, and the depth never exceeds the configured maximum. "
 "Each training sample ends in exactly one leaf - the one reached by comparing its values with the thresholds - and receives that leaf's weight; every node's weight is -G/(H+lambda) over exactly the samples routed to it, and no split leaves fewer than the minimum number of samples on a side or gains no more than the configured minimum.",
 ["inputs", "configurations"], "every small training set (all bin placements, gradient values), numbers of hosts, depth and node-batch limits within the bound",
 NOTEST + "Numbering, dispatch and sibling-sum faults need several levels and mixed guest/host ownership.",
 ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/node.py"],
 [("level-wise growth with sibling sums by subtraction", "ml/tree/hetero_decision_tree_guest.py:update_tree_node_queue"), ("sample routing per level", "ml/tree/hetero_decision_tree_guest.py:redispatch_node")],
 ["tree and leaf weights after fit"])

prop("C13", "Federated training equals training on the joined data",
 "A tree trained by a guest and any number of hosts over a vertical partition of the features predicts, for every training sample, the same weight as a tree trained with the same settings by a single trainer that holds all columns, whenever gains are not within the 1e-6 tie tolerance. "
 "The encryption mode, key, node-batch size and split of columns between parties do not influence the model.",
 ["inputs", "configurations"], "every small data set and vertical partition, every gradient/hessian assignment, batch limit and host count within the bound",
 NOTEST + "Losslessness is a statement about all data sets and partitions.",
 ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "ml/tree/splitter.py", "ml/tree/feateur_histogram.py"],
 [("same histograms, gains and routing at every party", "ml/tree/hetero_decision_tree_guest.py:fit"), ("host side", "ml/tree/hetero_decision_tree_host.py:fit")],
 ["leaf weights per sample"])

prop("C14", "Prediction walks a sample to the leaf the model defines, also after reload",
 "For every trained or loaded model and every sample, federated prediction ends and returns the weight of the leaf reached by comparing the sample's value (absent entries as 0) with each node's threshold, going left on less-or-equal, whatever mixture of guest and host nodes the path has; on the training samples this is the leaf they reached in training. "
 "Exporting a tree at either party and loading it into a fresh tree preserves every node field, threshold and setting that prediction and further training of that party use.",
 ["inputs", "configurations", "histories"], "every small tree shape with arbitrary node ownership (guest, several hosts), thresholds and sample values; export/import of all values",
 NOTEST + "Hand-over between several hosts and absent values are never run.",
 ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py", "arch/api/boosting_tree_model_param_pb2.py", "arch/api/boosting_tree_model_meta_pb2.py"],
 [("guest drives, hosts walk their own nodes", "ml/tree/hetero_decision_tree_guest.py:predict"), ("host walk", "ml/tree/hetero_decision_tree_host.py:traverse_tree"), ("model messages", "arch/api")],
 ["predicted weight per sample"])

prop("C15", "Training and prediction never deadlock and stay in lock-step",
 "In training and in prediction, for every data-dependent course (early leaves, empty levels, node batches, early stopping, several classes), every receive by one party is matched by exactly one send of the expected kind by the other, both parties finish, and no message is left over. "
 "All parties build the same number of trees and stop after the same round.",
 ["schedules", "inputs", "configurations"], "every data-dependent control path of guest and hosts within the bound, every interleaving of the parties (channels are FIFO and receives block)",
 NOTEST + "A missing or extra message on a rare path shows up only as a hang on that path.",
 ["ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py", "ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_decision_tree_host.py"],
 [("paired sync calls", "ml/tree/hetero_decision_tree_guest.py, ml/tree/hetero_decision_tree_host.py"), ("stop flag", "ml/tree/hetero_secureboosting_tree_guest.py:sync_stop_flag")],
 ["completion of both parties, empty channels"])

prop("C16", "Hosts never see labels, gradients, gains or guest thresholds in the clear",
 "Apart from ciphertexts under the guest's key, the messages a host receives in training and prediction are determined by the tree structure, the samples' node positions, the number of classes, the stop decision and the choice among its own candidates; they do not otherwise depend on labels, scores, gradients, hessians, gains, node sums, leaf weights, or the guest's thresholds. "
 "Every value derived from a label or gradient is sent only encrypted, and the guest's private key is never sent.",
 ["inputs", "configurations"], "every pair of runs with different labels/gradients/guest thresholds and the same tree structure and positions within the bound",
 NOTEST + "Absence of leakage is a statement about all values and all messages; functional tests never look at message contents.",
 ["ml/tree/hetero_decision_tree_guest.py", "ml/tree/hetero_secureboosting_tree_guest.py"],
 [("node queue masked to ids", "ml/tree/hetero_decision_tree_guest.py:sync_tree_node_queue"), ("gains and gradients encrypted", "ml/tree/hetero_decision_tree_guest.py:find_host_split"), ("tree sent to hosts", "ml/tree/hetero_decision_tree_guest.py:sync_tree")],
 ["every object sent from the guest"])

prop("C17", "The guest never sees host feature values or thresholds",
 "The messages a host sends in training and prediction are determined by which of its samples fall in which bins: they do not depend on the feature values or threshold values behind those bins, except through the branch each sample takes. "
 "Split candidates carry neither the threshold nor the number of a bin, and the exported guest model contains neither thresholds nor bins of a host's split.",
 ["inputs", "configurations"], "every pair of runs whose host data have the same bin positions but different values and thresholds, within the bound",
 NOTEST + "Absence of leakage is a statement about all values and all messages; functional tests never look at message contents.",
 ["ml/tree/hetero_decision_tree_host.py", "ml/tree/hetero_secureboosting_tree_host.py"],
 [("thresholds kept in the host's own mask dictionary", "ml/tree/hetero_decision_tree_host.py:encode")],
 ["every object sent by a host"])

prop("C18", "Loss gradients and hessians are the derivatives of the loss",
 "For each objective, the gradient is the derivative and the hessian the second derivative of the per-sample loss with respect to the raw score (for the absolute error: the sign of the residual with zero inside the 1e-6 band, hessian 1), with the binary cross entropy taken through the sigmoid and the multi-class one through the softmax (diagonal hessian). "
 "The per-sample losses are the documented formulas (squared, absolute, pseudo-Huber, Fair, log-cosh, negative log-likelihood; a certain and right prediction costs nothing), reported losses are their mean over the table, and scalar and array inputs agree.",
 ["inputs"], "every label, score and objective parameter in the stated ranges",
 NOTEST + "Derivatives are identities over all real scores; a wrong sign or factor on one branch is invisible to spot checks on the other.",
 ["ml/loss/cross_entropy.py", "ml/loss/regression_loss.py", "ml/optim/activation.py"],
 [("closed-form gradients", "ml/loss/regression_loss.py, ml/loss/cross_entropy.py")],
 ["gradient, hessian and loss values"])

prop("C19", "Boosting adds the learning-rate-scaled trees and stops when it converges",
 "Training starts from the objective's initial score (zeros for classification, label mean or median for regression) and after each tree the score of each sample, in that tree's class only, grows by learning rate times the tree's output; prediction starts from the same initial score and adds the same terms, so it reproduces the training scores. "
 "When early stopping is on, training stops exactly after the first round whose loss differs from the previous round's by less than the tolerance, otherwise all trees are built; feature importance sums split counts or gains per party and feature over all trees.",
 ["inputs", "histories", "configurations"], "every sequence of tree outputs and losses, learning rate, class count and tolerance within the bound",
 NOTEST + "Cross-class or cross-sample aliasing of scores and off-by-one stopping need several rounds and classes.",
 ["ml/tree/hetero_secureboosting_tree_guest.py", "ml/optim/convergence.py", "ml/loss/regression_loss.py", "ml/loss/cross_entropy.py"],
 [("score accumulation", "ml/tree/hetero_secureboosting_tree_guest.py:accumulate_f"), ("difference convergence", "ml/optim/convergence.py:DiffConverge")],
 ["scores, loss history, number of trees, importances"])

prop("C20", "Activations compute their formulas, stay in range and never overflow",
 "For every finite score the activation functions equal their mathematical definitions (sigmoid, softmax, hard sigmoid, softsign, softplus, tanh, log-logistic), sigmoid and softmax outputs lie in [0,1], softmax sums to one and is unaffected by adding a constant to all scores, and all are monotone where the definition is. "
 "Sigmoid, softmax and log-logistic never exponentiate a positive number, so no score overflows.",
 ["inputs"], "every real score (every vector of scores up to the length bound)",
 NOTEST + "Overflow and range failures occur only for extreme or boundary scores.",
 ["ml/optim/activation.py", "ml/loss/cross_entropy.py"],
 [("branch on the sign / subtract the maximum", "ml/optim/activation.py")],
 ["returned value"])

prop("C21", "Class labels survive the round trip from training to prediction",
 "Training maps the distinct labels one-to-one onto 0..k-1 in sorted order and uses a binary objective for two classes and one score per class for more; more than 1000 classes, or a non-numeric regression label, is rejected. "
 "A prediction row is [true label, predicted label, score, per-class detail]: binary predicts the larger label exactly when its probability exceeds the threshold, multi-class predicts the label of the highest-scoring class, the detail lists each class's probability summing to one, and regression reports the score itself.",
 ["inputs", "configurations"], "every set of labels (types, order of appearance, ties), every score vector and threshold within the bound",
 NOTEST + "Label/class mismatches depend on the order labels appear and on ties at the threshold.",
 ["ml/tree/hetero_secureboosting_tree_guest.py", "ml/utils/classfiy_label_checker.py"],
 [("sorted class list and mapping", "ml/tree/hetero_secureboosting_tree_guest.py:check_label"), ("prediction rows", "ml/tree/hetero_secureboosting_tree_guest.py:predict")],
 ["prediction table"])

prop("C22", "Parameter checks accept exactly the documented domain",
 "Each parameter object's check accepts every combination of values in its documented types and ranges and raises ValueError (nothing else) for a value outside them: trees (criterion, depth, minimum sizes, batch limit, importance type, tolerance), boosting (task, objective and its parameters, learning rate, tree count, feature rate, bins), encryption, encryption mode, binning, prediction, evaluation and cross-validation. "
 "Accepted case-insensitive names are normalised, and no other field is altered by a check.",
 ["inputs", "configurations"], "every value of every field: all integers and reals, every other built-in type, accepted and unknown names",
 NOTEST + "Boundary values (0, 1, limits) and wrong types for each field are not sampled.",
 ["ml/param/base_param.py", "ml/param/boosting_tree_param.py", "ml/param/encrypt_param.py", "ml/param/encrypted_mode_calculation_param.py", "ml/param/feature_binning_param.py", "ml/param/predict_param.py", "ml/param/evaluation_param.py", "ml/param/cross_validation_param.py"],
 [("check methods", "ml/param/*.py:check")],
 ["acceptance or ValueError, field values after check"])

prop("C23", "CSV loading and the train/test split keep rows whole and parties aligned",
 "Reading a CSV returns, per data row in file order, its id, its label (labelled files) and its features as numbers in the column order of the header without the id and label columns. "
 "The train/test split puts every row in exactly one part, gives the first part floor(n*ratio) rows (all rows go to the second part when that is 0), and makes the same choice at the guest and at every host for the same number of rows.",
 ["inputs", "configurations"], "every table shape within the bound with arbitrary cell values; every row count, ratio and shuffle outcome",
 NOTEST + "Guest/host alignment is a relation between two programs over all sizes.",
 ["i_o/utils.py", "guest.py", "host.py"],
 [("positional id/label columns", "i_o/utils.py"), ("seeded shuffle at each party", "guest.py:data_split, host.py:data_split")],
 ["header, ids, features, labels; the two parts"])

prop("C24", "Column statistics equal their definitions",
 "For any table, the reported mean, variance, standard deviation, maximum and minimum of each selected column are those of its values (abnormal values ignored; variances below 1e-6 reported as 0), and merging partial statistics gives the statistics of the union. "
 "Quantile points and medians are values of the column within the documented rank error.",
 ["inputs", "configurations"], "every column of values up to the bound (any magnitude and sign), any partition into merged parts, any column selection",
 NOTEST + "Nothing runs this module at all; extreme values and merge orders matter.",
 ["ml/statistic/statics.py"],
 [("running sums", "ml/statistic/statics.py:SummaryStatistics"), ("per-column dispatch", "ml/statistic/statics.py:MultivariateStatisticalSummary")],
 ["returned statistics"])

prop("C25", "Training and prediction leave the caller's data unchanged",
 "Binning, training and prediction at either party leave the ids, labels and feature values of the tables passed in as they were, so predicting on the training table after training, or predicting twice, gives the same result as on a fresh copy. "
 "The internal sparse form used for both keeps exactly the entries of magnitude at least 1e-6, with their column and value, and the original shape; an empty table is rejected.",
 ["inputs", "histories"], "every dense or sparse row of values within the bound, every order of fit and predict calls",
 NOTEST + "Aliasing shows only when the same table object is used twice.",
 ["ml/tree/boosting_tree.py", "ml/feature/binning/base_binning.py", "ml/feature/sparse_vector.py", "ml/feature/instance.py"],
 [("dense to sparse conversion", "ml/tree/boosting_tree.py:BoostingTree.data_format_transform"), ("bin conversion", "ml/feature/binning/base_binning.py:_convert_sparse_data, _convert_dense_data")],
 ["caller's tables after each call"])

prop("C26", "Configuration and the run workflow reach the model as given",
 "A configuration dictionary overrides exactly the named fields, at any nesting level, of the model's parameters and leaves all others at their defaults; anything that is not a dictionary is rejected, and the model then works with exactly those settings. "
 "A setting outside its documented domain is rejected. Running a model on data trains on the training table, and its output holds one prediction row per training and per evaluation sample, each marked with its origin (train, validation or test); a model told not to run passes its data through.",
 ["inputs", "configurations"], "every subset of overridden fields with arbitrary values, every combination of training/evaluation/other data and run/model options",
 NOTEST + "The combinations of stages and options are never run.",
 ["ml/model_base.py", "ml/utils/param_extract.py", "ml/tree/boosting_tree.py"],
 [("recursive override", "ml/utils/param_extract.py:ParamExtract"), ("stage dispatch", "ml/model_base.py:ModelBase._run_data")],
 ["parameter values, output table"])

prop("C27", "Only the sampled features are used, and enough are sampled",
 "For every tree each party draws max(1, floor(rate*n)) distinct features of its n, uniformly among all of its features, and every split of that tree at that party uses a drawn feature. "
 "Different trees draw anew, and the rate bounds 0 and 1 mean one feature and all features.",
 ["inputs", "configurations", "schedules"], "every rate in [0,1], number of features and outcome of the random draw within the bound",
 NOTEST + "Depends on random draws.",
 ["ml/tree/hetero_secureboosting_tree_guest.py", "ml/tree/hetero_secureboosting_tree_host.py", "ml/tree/splitter.py"],
 [("random choice without replacement", "ml/tree/hetero_secureboosting_tree_guest.py:sample_valid_features")],
 ["usable-feature mask per tree, features of splits"])

prop("C28", "Numeric helper functions compute their definitions",
 "The vector helpers return the inner product of rows with a weight vector (entries of magnitude below 1e-5 may be skipped), the element-wise sum where a missing operand is neutral, and the p-norm, rejecting p below 1. "
 "The convergence criteria report convergence exactly when the loss change, the loss, or the relative weight change is below (or, for the loss itself, not above) the tolerance, and remember the last value they saw; modular power and inverse agree with their number-theoretic definition for all sizes.",
 ["inputs", "histories"], "every vector up to the length bound, every sequence of losses or weights up to the bound, all moduli in the bound",
 NOTEST + "Boundary and multi-step behaviour is not sampled.",
 ["ml/utils/fate_operator.py", "ml/optim/convergence.py", "ml/secureprotol/gmpy_math.py"],
 [("helpers", "ml/utils/fate_operator.py"), ("criteria", "ml/optim/convergence.py")],
 ["returned value"])

prop("C29", "Stand-alone training equals federated training on divided columns",
 "The stand-alone trainer (package xgboost), given all columns in one table, needs no other party and no channel: it trains well-formed trees with the optimal leaf weights and the splits a trainer with all columns picks, "
 "and its scores, losses, number of rounds, feature importances, feature masks and prediction rows follow the same definitions as the federated models, also after saving and reloading trees; "
 "when gains are clearly different, its scores, losses and number of trees are those of federated training with the same columns divided between the parties.",
 ["inputs", "configurations"], "every gradient, feature value, label, tolerance, tree model and random draw within the bounds of the cases",
 NOTEST + "Nothing runs the package; it duplicates the guest's code and can drift from it.",
 ["xgboost/hetero_secureboosting_tree_guest.py", "xgboost/hetero_decision_tree_guest.py"],
 [("training loop", "xgboost/hetero_secureboosting_tree_guest.py:HeteroSecureBoostingTreeGuest.fit"), ("tree building", "xgboost/hetero_decision_tree_guest.py:HeteroDecisionTreeGuest.fit")],
 ["trees, scores, losses and prediction rows of the stand-alone trainer"])

prop("C30", "The guest and host programs train, predict the rest and report the accuracy",
 "Started with their command-line arguments, the guest program and the host programs each open one channel with the given port (the guest waiting for the given number of hosts), train once on the first part of the split of their file, then predict the remaining rows once with the trained models, and finish; "
 "a host takes part under the number given to it, and any task other than CLASSIFICATION is rejected with ValueError. "
 "The guest program prints the accuracy, which is the share of the remaining rows whose predicted label equals the label in the file. The second entry point of each program trains once on all rows of its own party's file of data/breast_hetero.",
 ["inputs", "configurations"], "every outcome of the predictions, every cell value left free, several shuffles, ratios and numbers of hosts",
 NOTEST + "Nothing runs the programs; they tie all parts together and need several processes.",
 ["guest.py", "host.py"],
 [("guest program", "guest.py:test_hetero_secure_boost_guest"), ("host program", "host.py:test_hetero_seucre_boost_host")],
 ["order of calls, channels opened, rows trained on and predicted, the printed accuracy"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
