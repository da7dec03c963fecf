"""The properties: one entry per check or per not-applicable property."""
G = '/repo is decided on its compiled code'
IN, PR, HI, CF, SC = 'inputs', 'programs', 'histories', 'configurations', 'schedules'
P = {}


def p(id, title, statement, over, quant, why, files, mech, observe=None, na=None):
    P[id] = dict(title=title, statement=statement, over=over, quant=quant, why=why, files=files, mech=mech, observe=observe, na=na)


p('C01', 'Ragged tensors behave as nested lists',
  'Building, indexing, slicing, selecting from, concatenating, padding, comparing, converting and printing a ragged tensor gives exactly what the same operation on nested lists gives, for every number of axes, empty sublists and every element type. The row splits, row ids and sizes it reports always describe the same nesting.',
  [IN], 'every nesting within the bounds (2 to 4 axes, empty sublists included), every element value, every index and option',
  'Tests use a handful of hand-written nestings; empty sublists at the edges, an axis in the middle or a missing cached size only show for particular shapes.',
  ['k2/csrc/ragged_ops.cu', 'k2/csrc/ragged.cu', 'k2/csrc/ragged_ops_inl.h', 'k2/python/csrc/torch/v2/ragged_any.cu', 'k2/python/csrc/torch/v2/any.cu'],
  [('construction and composition of shapes', 'k2/csrc/ragged_ops.cu'), ('Python ragged tensor', 'k2/python/csrc/torch/v2/ragged_any.cu')])
p('C02', 'Ragged reductions, sorting and uniqueness act on each sublist',
  'Sum, maximum, minimum, argmax, log-sum, softmax-style normalisation, sorting with its order map, duplicate removal with its counts and the pruning and filtering functions act on each sublist separately and give what the same operation on that list gives. Empty sublists give the stated default value.',
  [IN], 'every nesting within the bounds (2 to 4 axes, empty sublists anywhere), all values including ties and duplicates, and every option',
  'Tests compare a few literal tensors; results depend on ties, duplicates across sublist boundaries and where the empty sublists are.',
  ['k2/csrc/ragged_ops_inl.h', 'k2/csrc/ragged_ops.cu', 'k2/python/csrc/torch/v2/ragged_any.cu', 'k2/python/k2/ragged/__init__.py'],
  [('reductions and sorting per sublist', 'k2/csrc/ragged_ops_inl.h'), ('unique sequences', 'k2/csrc/ragged_ops.cu')])
p('C04', 'Trimming and sorting an FSA keep what it accepts',
  'Removing states that are unreachable or cannot reach the final state, sorting arcs and sorting states topologically keep every accepted string with its weight, and the result really is connected, arc-sorted or topologically sorted. Arc maps and attributes refer each remaining arc to the arc it came from.',
  [IN], 'every FSA or batch of FSAs within the bounds: any arcs, cyclic or not, duplicated arcs, empty FSAs',
  'Tests compare printed results for a few fixed FSAs; which states go and in which order depends on the whole graph.',
  ['k2/csrc/connect.cu', 'k2/csrc/host/connect.cc', 'k2/csrc/top_sort.cu', 'k2/csrc/host/arcsort.h', 'k2/csrc/fsa_algo.cu', 'k2/python/k2/fsa_algo.py'],
  [('connect', 'k2/csrc/connect.cu'), ('topological sort', 'k2/csrc/top_sort.cu'), ('arc sort', 'k2/csrc/fsa_algo.cu')])
p('C05', 'Intersection and composition multiply weights and match labels',
  'intersect() and intersect_device() accept exactly the strings both inputs accept, with the sum of their weights, and without special epsilons as many paths as the product of the path counts; compose() relates x to z when some y links them. Arc maps, labels, scores and attributes of every result arc come from the matched arcs.',
  [IN], 'every pair of FSAs or batches within the bounds (cycles, epsilons on both sides, duplicates, empty FSAs, broadcasting), every map and option, every string up to the length bound',
  'Tests intersect a few hand-made pairs; missing or doubled paths need epsilons on both sides, duplicated labels or an unusual batch.',
  ['k2/csrc/host/intersect.cc', 'k2/csrc/intersect.cu', 'k2/csrc/fsa_algo.cu', 'k2/python/k2/fsa_algo.py', 'k2/python/k2/utils.py'],
  [('host intersection', 'k2/csrc/host/intersect.cc'), ('device intersection', 'k2/csrc/intersect.cu'), ('composition', 'k2/python/k2/fsa_algo.py'), ('attributes', 'k2/python/k2/utils.py')])
p('C06', 'Union, closure, reversal and inversion compute their language',
  'The union of FSAs accepts the strings of any of them, the closure every concatenation of accepted strings, the reversal every reversed string and inversion the swapped pairs, each with the right weight. Every arc of the result keeps the scores and attributes of the arc it came from, and added arcs are free.',
  [IN], 'every FSA within the bounds (with epsilons, without arcs, without states where allowed) and every string up to the length bound',
  'Tests print the result for one or two FSAs; the new arcs and renumbered states depend on where arcs enter the final state.',
  ['k2/csrc/fsa_algo.cu', 'k2/csrc/reverse.cu', 'k2/csrc/host/aux_labels.cc', 'k2/python/k2/fsa_algo.py', 'k2/python/k2/utils.py'],
  [('union', 'k2/csrc/fsa_algo.cu'), ('closure', 'k2/csrc/fsa_algo.cu'), ('reverse', 'k2/csrc/reverse.cu'), ('invert', 'k2/python/k2/fsa_algo.py')])
p('C07', 'Determinization keeps the best weight of every string',
  'determinize() gives an automaton with at most one arc per state and label that accepts the same strings, each with the best weight among its paths, with or without weight pushing. The arc map and attributes of each path of the result spell a path of the input with that weight, also in a batch.',
  [IN], 'every labelling and scoring of the structures within the bounds, every push type, every batch with empty members, every string up to the length bound',
  'Tests compare random samples of paths; ties, duplicated labels and members after the first of a batch decide.',
  ['k2/csrc/host/determinize.cc', 'k2/csrc/host_shim.cu', 'k2/csrc/fsa_algo.cu', 'k2/python/k2/fsa_algo.py', 'k2/python/k2/utils.py'],
  [('determinization', 'k2/csrc/host/determinize.cc'), ('batches', 'k2/csrc/fsa_algo.cu'), ('attributes', 'k2/python/k2/utils.py')])
p('C08', 'Epsilon removal and epsilon self-loops keep the language',
  'remove_epsilon() leaves no epsilon arc and keeps the best weight of every string; remove_epsilon_and_add_self_loops(), add_epsilon_self_loops() and remove_epsilon_self_loops() add or remove exactly the free loops they name. Each arc of the result combines the labels, scores and attributes of a consecutive run of input arcs.',
  [IN], 'every labelling and scoring of the structures within the bounds, with cycles, in batches with empty members, every string up to the length bound',
  'Tests sample random FSAs; chains of epsilons, epsilon cycles, several ways between two states and batch offsets decide.',
  ['k2/csrc/rm_epsilon.cu', 'k2/csrc/host/rmepsilon_pruned.cc', 'k2/csrc/fsa_algo.cu', 'k2/python/k2/fsa_algo.py'],
  [('device epsilon removal', 'k2/csrc/rm_epsilon.cu'), ('self-loops', 'k2/csrc/fsa_algo.cu')])
p('C03', 'An FSA is what its arcs say: construction, properties, conversions',
  'An arc tensor, a string or an OpenFst text is accepted exactly if it describes an FSA or batch, and then gives its arcs, labels, scores and attributes. The property bits are exactly those the definition gives, also after labels or scores are set. Copies, renamed or converted attributes, members of a batch and texts read back keep everything.',
  [IN, HI], 'every arc tensor, label assignment, batch, attribute operation and text within the bounds',
  'Tests build a few fixed FSAs; a wrong property bit needs a particular order of arcs or a member after an empty one, and a wrong text a particular combination of columns.',
  ['k2/csrc/fsa.cu', 'k2/csrc/fsa_utils.cu', 'k2/python/k2/fsa.py', 'k2/python/csrc/torch/fsa.cu', 'k2/python/k2/utils.py'],
  [('properties', 'k2/csrc/fsa.cu'), ('text formats', 'k2/csrc/fsa_utils.cu'), ('attributes', 'k2/python/k2/fsa.py')])
p('C09', 'Tropical scores, best paths and their gradients',
  'For every sorted acyclic batch, forward, backward and total scores are the best path weights to, from and through the states, and shortest_path() returns one path of that weight, with its attributes, per FSA that has a path. Their gradients, and those of the arc scores, are subgradients: they count the arcs of best paths.',
  [IN], 'every score assignment of every structure within the bounds, every batch with empty or dead members, every other score assignment for the subgradient inequality',
  'Tests compare a few graphs with fixed numbers; dead states, parallel arcs, ties and offsets after an empty member decide.',
  ['k2/csrc/fsa_utils.cu', 'k2/csrc/fsa_algo.cu', 'k2/python/k2/autograd.py', 'k2/python/k2/fsa.py', 'k2/python/k2/fsa_algo.py'],
  [('scores and their derivatives', 'k2/csrc/fsa_utils.cu'), ('shortest path', 'k2/csrc/fsa_algo.cu'), ('autograd', 'k2/python/k2/autograd.py')])
p('C10', 'Log-semiring scores, posteriors and their gradients',
  'For every sorted acyclic batch, the log-semiring forward, backward and total scores are the logs of the sums over all paths to, from and through the states, and arc posteriors the share of paths through each arc. Their gradients are the exact derivatives, also after scores are set again, whatever was computed before.',
  [IN, HI], 'every real score assignment of every structure within the bounds, every batch with empty or dead members, every order of computing and setting scores within the bound',
  'Tests compare a few graphs with fixed numbers; a derivative wrong for parallel arcs, dead ends or a second member of a batch, or a stale cache, passes.',
  ['k2/csrc/fsa_utils.cu', 'k2/csrc/ragged_ops_inl.h', 'k2/python/k2/autograd.py', 'k2/python/k2/fsa.py'],
  [('scores and their derivatives', 'k2/csrc/fsa_utils.cu'), ('caches', 'k2/python/k2/fsa.py'), ('autograd', 'k2/python/k2/autograd.py')])
p('C11', 'Gradients flow through every FSA operation to the arcs a result came from',
  'For every operation that makes an FSA from others, and for operations applied one after another, each score and float attribute of the result is the sum of those of its source arcs, and the gradient of any weighted sum of results reaches each source arc as often as it was used, both inputs of an intersection included.',
  [IN, HI], 'every labelling, scoring and weighting of the results within the bounds, every operation and pair of operations listed, every batch with empty members',
  'Tests check the gradient of a few operations with one fixed FSA; an index that is off after an added arc or an empty member gives a wrong number, not an error.',
  ['k2/python/k2/utils.py', 'k2/python/k2/autograd_utils.py', 'k2/python/k2/ops.py', 'k2/python/k2/fsa.py', 'k2/python/csrc/torch/index_add.cu'],
  [('propagation', 'k2/python/k2/utils.py'), ('score gradients', 'k2/python/k2/autograd_utils.py'), ('index_select', 'k2/python/k2/ops.py')])
p('C12', 'Intersection with network output keeps exactly the arcs within the beam',
  'intersect_dense() and, with an unlimited search beam, intersect_dense_pruned() return exactly the arcs of the product of graph and score rows that lie on a path within the output beam of the best, with their scores, frame numbers and attributes. Limits only narrow the beam; gradients reach graph and scores; segments share or map graphs freely.',
  [IN, CF], 'every score assignment of every graph structure and segment layout within the bounds, every beam and limit listed, with and without maps, partial results and truncation',
  'Tests compare total scores of a few random cases with a beam large enough not to matter; what is kept at the beam, per segment and with empty or dead graphs, decides.',
  ['k2/csrc/intersect_dense.cu', 'k2/csrc/intersect_dense_pruned.cu', 'k2/python/k2/dense_fsa_vec.py', 'k2/python/k2/autograd.py', 'k2/csrc/fsa.cu'],
  [('exact intersection', 'k2/csrc/intersect_dense.cu'), ('pruned intersection', 'k2/csrc/intersect_dense_pruned.cu'), ('gradients', 'k2/python/k2/autograd.py'), ('score rows', 'k2/python/k2/dense_fsa_vec.py')])
p('C13', 'Decoding in chunks gives what decoding everything at once gives',
  'OnlineDenseIntersecter.decode() with any split of the frames of a sequence into chunks, beside any other sequences, new or continued and in any order, returns after each chunk a lattice of all its frames so far: every arc of a path within the beams, with its score and attributes, and none of a path outside the output beam.',
  [IN, HI], 'every score assignment, every graph structure, chunk plan, pair of beams and partial setting listed',
  'Tests run one recording through a fixed chunk size and compare it with the offline result; a history that is mixed up between streams, or pruned wrongly at a boundary, needs sequences that come and go and close scores.',
  ['k2/csrc/intersect_dense_pruned.cu', 'k2/python/csrc/torch/fsa_algo.cu', 'k2/python/k2/online_dense_intersecter.py', 'k2/csrc/ragged_ops.cu'],
  [('chunks and their states', 'k2/csrc/intersect_dense_pruned.cu'), ('interface', 'k2/python/k2/online_dense_intersecter.py')])
p('C14', 'Graphs made from symbols accept exactly the alignments of those symbols',
  'linear_fsa() and linear_fst() give the chain of their labels. ctc_topo() and ctc_graph() have one path for each alignment of blanks and runs that spells the symbols, and none for others; blanks separate equal symbols unless modified. Self-loops keep labels, outputs and scores. levenshtein_alignment() gives a cheapest alignment and the distance.',
  [IN], 'every symbol sequence, batch layout with empty sequences, input string and output string within the bounds',
  'Tests print a few graphs; repeated symbols, an empty sequence in a batch, or a duplicate path that counts an alignment twice, go unseen.',
  ['k2/csrc/fsa_algo.cu', 'k2/csrc/fsa_utils.cu', 'k2/python/k2/fsa_algo.py', 'k2/python/csrc/torch/fsa_algo.cu'],
  [('graphs', 'k2/csrc/fsa_algo.cu'), ('self-loops and alignment', 'k2/python/k2/fsa_algo.py')])
p('C15', 'Selecting, joining, expanding and replacing keep every arc and its data',
  'index_fsa(), cat(), create_fsa_vec() and members of a batch copy FSAs with all attributes; expand_ragged_attributes() turns arcs into chains that write the same values; replace_fsa() puts an FSA in place of each arc with its label. index_select(), index_add() and index_and_sum() follow their indexes, ignore -1, and pass gradients back.',
  [IN], 'every batch with empty members, label assignment, index tensor, attribute length and memory layout within the bounds',
  'Tests use random tensors or one literal example; an empty member, a missing final -1, a repeated index or a strided tensor decides.',
  ['k2/csrc/fsa_algo.cu', 'k2/csrc/tensor_ops.cu', 'k2/python/k2/ops.py', 'k2/python/k2/utils.py', 'k2/python/k2/fsa_algo.py', 'k2/python/csrc/torch/index_select.cu', 'k2/python/csrc/torch/fsa_algo.cu'],
  [('replacement and expansion', 'k2/csrc/fsa_algo.cu'), ('index operations', 'k2/csrc/tensor_ops.cu'), ('attributes', 'k2/python/k2/ops.py')])
p('C16', 'RNN-T decoding keeps exactly the hypotheses within beam and limits',
  'RnntDecodingStreams.advance() extends every stream by blank or a graph arc and keeps exactly the states within the beam and the best ones allowed by max_states and max_contexts; get_contexts() names their symbol histories. Streams may join and leave between frames. The lattice has exactly these arcs, with scores, labels, attributes and gradients.',
  [IN, HI], 'every score assignment, every graph structure, order of streams, history length, number of requested frames and limit listed',
  'Tests decode random log-probs and look at shapes; a hypothesis dropped at a limit, mixed up between streams, or an attribute taken from another stream goes unseen.',
  ['k2/csrc/rnnt_decode.cu', 'k2/csrc/ragged_ops.cu', 'k2/python/k2/rnnt_decode.py', 'k2/python/csrc/torch/rnnt_decode.cu'],
  [('advance and lattice', 'k2/csrc/rnnt_decode.cu'), ('attributes and gradients', 'k2/python/k2/rnnt_decode.py')])
p('C17', 'Transducer losses sum over exactly the allowed alignments',
  'mutual_information_recursion() and the full, simple, smoothed and pruned RNN-T losses are minus the log of the sum over all alignments inside the boundaries, of the regular, modified or constrained kind, and their gradients and occupations are the exact derivatives. Pruning ranges start at 0, move on without gaps, reach the last symbol and leave an alignment; pruned_ranges_to_lattice() gives the alignments within.',
  [IN], 'every real score assignment for every shape, boundary, symbol sequence, kind, blank, penalty and reduction listed; every occupation in the grid for the ranges',
  'Tests compare with one other implementation on random numbers; a boundary, a padded frame, a repeated symbol or symbols as many as frames decides.',
  ['k2/python/k2/rnnt_loss.py', 'k2/python/k2/mutual_information.py', 'k2/python/csrc/torch/mutual_information_cpu.cu', 'k2/python/csrc/torch/mutual_information.cu', 'k2/python/csrc/torch/pruned_ranges_to_lattice.cu'],
  [('losses and pruning', 'k2/python/k2/rnnt_loss.py'), ('recursion', 'k2/python/csrc/torch/mutual_information_cpu.cu')])
p('C18', 'CTC losses and decoded words follow from exactly the alignments',
  'ctc_loss() is minus the log of the sum over all alignments of each target within its frames, with its derivative for every score, for all reductions, delay penalties and target lengths. get_lattice() and one_best_decoding() give the best alignment; get_aux_labels() reads its words, plain or ragged, without epsilons and final symbols.',
  [IN], 'every score assignment in the given ranges for every batch of targets, lengths, order of supervisions, kind of topology, reduction and penalty listed',
  'Tests compare with one torch loss on random numbers; a repeated symbol, a supervision out of order, an empty target, a missing path or a ragged word decides.',
  ['k2/python/k2/ctc_loss.py', 'k2/python/k2/decode.py', 'k2/csrc/intersect_dense.cu', 'k2/csrc/intersect_dense_pruned.cu', 'k2/python/k2/autograd.py'],
  [('loss', 'k2/python/k2/ctc_loss.py'), ('decoding', 'k2/python/k2/decode.py')])
p('C19', 'Paths sampled from lattices represent them, and their errors are expected',
  'random_paths() gives complete paths, each as often as its share of the total score says; prune_on_arc_post() keeps the arcs whose share reaches the threshold. Nbest lists hold different word sequences of the lattice with its scores and gradients; top_k() and intersect() give the best; whole_lattice_rescoring() swaps language model scores. mwer_loss() is the expected number of word errors of the sampled paths, with its derivative.',
  [IN], 'every real score assignment for every lattice structure, batch, number of paths, word layout, scale and reduction listed',
  'Tests look at one lattice or at shapes; a dead end, a path without words, words that repeat, lists of unequal length and the boundaries between shares decide.',
  ['k2/python/k2/nbest.py', 'k2/python/k2/mwer_loss.py', 'k2/csrc/fsa_utils.cu', 'k2/csrc/fsa_algo.cu', 'k2/python/k2/fsa_algo.py'],
  [('sampling and pruning', 'k2/csrc/fsa_utils.cu'), ('lists', 'k2/python/k2/nbest.py'), ('expected errors', 'k2/python/k2/mwer_loss.py')])
p('C20', 'Operations leave their operands as they are and give the same result again',
  'No operation on FSAs, batches, dense or ragged tensors, and no loss or sampling changes an operand - arcs, scores, labels, attributes, properties, gradient flags - unless its name ends in an underscore; a second call gives the same result; setting scores or labels of a result changes neither operand nor other results; answers do not depend on what was asked or set before.',
  [IN, HI], 'every label and score assignment for the structures, operations and sequences of up to 2 steps listed',
  'Tests look at the result of one call; a cache that survives a change, memory shared with the result, or a score scaled in place shows only in what is asked next.',
  ['k2/python/k2/fsa.py', 'k2/python/k2/fsa_algo.py', 'k2/python/k2/autograd.py', 'k2/python/k2/nbest.py', 'k2/python/k2/utils.py', 'k2/python/csrc/torch/fsa_algo.cu', 'k2/csrc/fsa_algo.cu', 'k2/csrc/fsa_utils.cu'],
  [('caches and attributes', 'k2/python/k2/fsa.py'), ('operations', 'k2/python/k2/fsa_algo.py')])
p('C21', 'Words are matched with the longest history they share with a scored sentence',
  'get_best_matching_stats() finds for every query word the key words that share the longest run of words back from them, sentence starts included, within its own collection only, and gives their number, the length of the run up to max_order (max_order at the start of a sentence), and the mean and variance of the scores of exactly those keys.',
  [IN], 'every token sequence over the alphabet and every positive score assignment for the collections and layouts of keys listed',
  'Tests look at two texts; which suffixes tie, repeat or end at a sentence start, and which positions are keys, decides what is found.',
  ['k2/csrc/nbest.cu', 'k2/csrc/nbest.h', 'k2/python/csrc/torch/nbest.cu', 'k2/python/k2/utils.py'],
  [('suffix array, intervals and statistics', 'k2/csrc/nbest.cu')])
p('C22', 'Swoosh activations are the documented functions with their derivative',
  'swoosh_l() and swoosh_r(), their forward and forward_and_deriv versions give log(1 + exp(x - shift)) - 0.08 x - offset and its derivative for every element, whatever the shape and memory layout of the input; with dropout an element is 0 or scaled; the gradient passed back is that of the result times the derivative, within its 8 bits.',
  [IN], 'every real x in -8..8 and every positive gradient for the shapes and layouts listed',
  'Tests compare values on one contiguous tensor; the layout of the incoming gradient, a dropped element or the ends of the 8-bit range decide.',
  ['k2/python/csrc/torch/v2/autograd/swoosh.cu'],
  [('forward and backward', 'k2/python/csrc/torch/v2/autograd/swoosh.cu')])
p('C23', 'A symbol table is a one-to-one map between ids and symbols',
  'After any additions, with or without an id, merging, writing and reading back, a SymbolTable maps each id to one symbol and back, epsilon at 0 included; an id or symbol that would stand for two is refused and changes nothing; a symbol without an id gets one that is free; tables are equal exactly if they hold the same pairs; merging leaves both operands alone.',
  [IN, HI], 'every sequence of up to 3 additions to every table of up to 3 symbols, every pair of tables of up to 3 symbols, all ids and symbols within the ranges',
  'Tests add a few fixed symbols; which ids clash, and what the next free id is after a merge or an explicit id, depends on the history.',
  ['k2/python/k2/symbol_table.py'],
  [('symbol tables', 'k2/python/k2/symbol_table.py')])
