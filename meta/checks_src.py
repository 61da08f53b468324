NOTES = "No hooks in /repo: schedules and faults are injected from outside with the interpreter's tracing facility."
NOT_APPLICABLE = {}
EX = "model checking of the real code: exhaustive stateless exploration (every choice sequence) of "
CHECKS = {
 "C01": (EX + "every tree shape x threshold/leaf assignment x boundary row x input encoding within the bounds, each answer compared with the native tree as reference model",
         "bounded: tree sizes, threshold and leaf alphabets as listed in the evidence"),
 "C02": (EX + "every ensemble of enumerated member trees, feature subsets and class subsets within the bounds, compared with the native ensemble",
         "bounded: number of members, member shapes, feature subsets"),
 "C03": (EX + "every grid of stage trees, initial estimators, losses and learning rates within the bounds, compared with the native model",
         "bounded: stages, tree shapes, leaf alphabets"),
 "C04": (EX + "every small booster (JSON-constructed trees, missing directions, thresholds, base scores, feature names) within the bounds, compared with the native booster",
         "bounded: tree shapes, alphabets; single-precision tolerance"),
 "C05": (EX + "every coefficient/intercept table over a small alphabet, class count, label kind and probability mode, on every row of a grid and every sparse encoding, compared with the native model",
         "bounded: coefficient and row alphabets"),
 "C06": (EX + "every parameter table of the Bayes models and every prior over small alphabets on rows reaching extreme magnitudes, compared with the native model",
         "bounded: table sizes and alphabets"),
 "C07": (EX + "every small matrix over a value alphabet x parameter setting x encoding, compared with the native transformer",
         "bounded: matrix shapes and alphabets"),
 "C08": (EX + 'every fitted encoder over a pool of columns and categories x every row and row pair, known and unknown, compared with the native encoder',
         'bounded: column pool, number of columns and rows per batch'),
 "C09": (EX + 'every missing pattern of small fit and transform matrices x strategy x marker x indicator option, compared with the native transformer',
         'bounded: matrix shapes and alphabets'),
 "C10": (EX + 'every document over a fragment alphabet x every combination of vectorizer options, compared with the native vectorizer',
         'bounded: fragment alphabet and document length'),
 "C11": (EX + 'every token string up to a length over 1-4 byte characters, every small document and option combination, compared with the native hasher',
         'bounded: token and document length; constructed hash extremes included'),
 "C12": (EX + 'every small dictionary over colliding keys x fit sets x options, compared with the native vectorizer (sums of duplicates as the native sparse mode)',
         'bounded: keys, values and batch sizes'),
 "C13": (EX + 'every composition of pipeline and union steps up to a depth, compared with the native composition',
         'bounded: menu of steps, depth'),
 "C14": (EX + 'every small matrix x every dense and sparse encoding through every sparse-capable model and helper, encodings compared with each other and with an independent densification',
         'bounded: matrix shapes and alphabets'),
 "C15": (EX + 'every pair of small matrices x form x encoding, compared with the native pairwise metrics',
         'bounded: matrix shapes and alphabets'),
 "C16": (EX + "every small supervised model (written bit for bit in fastText's file format) x every line over a fragment alphabet x k x threshold, compared with native fastText",
         "bounded: matrices' alphabet, line length; ties may be ordered either way"),
 "C17": (EX + "every small model x every word and line over a fragment alphabet, compared with native fastText's ids and vectors",
         "bounded: matrices' alphabet, line length"),
 "C18": (EX + 'every model x pickle protocol replayed in a bare interpreter, and every subset of numpy-typed hyper-parameters and labels, with a walk over everything reachable from the converted object',
         "bounded: 76 models, 36 estimators' options"),
 "C19": (EX + 'every history of operations (requests, refused calls, edits of results and arguments, calls on siblings) up to a depth, and breadth-first search of the reachable object states to a fixpoint, every answer compared with that of a fresh model',
         'bounded: menu of operations, history depth'),
 "C20": (EX + 'every interleaving of two real threads up to a preemption bound under a controlled scheduler, plus observation of the shared state at every step (independence), each answer compared with the single-threaded one',
         'bounded: preemptions; switches between source lines (thorough: bytecodes)'),
 "C21": (EX + 'every interruption point (an exception raised before every executed source line) of every request, then every request asked again and the state compared',
         'bounded: one interruption per run (thorough: pairs); between source lines (thorough: bytecodes)'),
 "C22": (EX + 'every parameter table over a lattice of magnitudes and every row over a lattice of magnitudes for every probabilistic model, checked against the axioms of a distribution',
         'bounded: magnitude lattice, table sizes'),
 "C23": (EX + 'every estimator class and the full product of answer-affecting options, every version string of a grammar: either refused or answers compared with the native model',
         'bounded: option values listed per estimator'),
 "C24": (EX + 'every model x method x malformed request of a complete menu of malformations, and every well-formed batch of probe rows',
         'bounded: widths, batch sizes'),
 "C25": (EX + 'every batch (sequence with repetition) over a row pool up to a length, compared with the answers to the rows alone',
         'bounded: row pool and batch length'),
 "C26": (EX + 'every single-part edit of the native and converted object graphs and every history of convert/edit/refit/use operations up to a depth, all earlier snapshots re-examined after each step',
         'bounded: history depth; edits through Python-visible state'),
 "C27": (EX + 'every sequence of pickle/copy/deepcopy/use operations up to a depth on every model and on every small sparse matrix, behaviour and full state compared after each step',
         'bounded: sequence depth, matrix sizes'),
 "C28": (EX + 'every small matrix, pair of matrices, column selection, vector and scalar over an alphabet through every helper, compared with numpy/scipy',
         'bounded: shapes and alphabets'),
 "C29": (EX + 'every assignment of label alphabets and orders to every classifier kind, predicted values and types compared with the native labels',
         'bounded: label alphabets, up to 3 (thorough 4) classes'),
}
