"""Source of properties.jsonl (run meta/build.py)."""

P = []


def add(id, title, statement, over, quant, why, files, mech, observe=None, state=None, hook=None):
    P.append(
        {
            "id": id, "title": title, "statement": statement,
            "quantifier": {"over": over, "text": quant},
            "why_tests_cant": why,
            "anchors": {
                "files": files,
                "state": state or [],
                "mechanism": [{"name": n, "where": w} for n, w in mech],
                "observe_at": observe or [],
                "hook_needed": hook,
            },
        }
    )


PS = "pure_sklearn/"

add(
    "C01", "Decision trees answer exactly as the native tree",
    "A converted decision tree or extra tree (classifier or regressor, binary or multiclass, any class labels) returns for every finite row the same prediction, class probabilities and log-probabilities as the scikit-learn tree it was made from. "
    "This includes rows that lie on, or within rounding distance of, a split threshold, tied leaves, any tree shape or node numbering, and rows given as sparse data with or without explicitly stored zeros.",
    ["inputs", "configurations"],
    "all tree shapes, split features/thresholds and leaf contents; all finite rows, dense or sparse",
    "The tests compare a few fitted iris trees on the training rows only: no row sits on a threshold, every tree is numbered depth-first, no leaf is tied, labels are always 0..k-1.",
    [PS + "tree/_classes.py"],
    [("leaf search", PS + "tree/_classes.py:_DecisionTreeBase._get_leaf_node"), ("leaf decoding", PS + "tree/_classes.py:DecisionTreeClassifierPure")],
    ["predict", "predict_proba", "predict_log_proba of a converted tree"],
)
add(
    "C02", "Forests and bagging aggregate their members as the native ensemble",
    "A converted random forest, extra-trees or bagging classifier returns the same class probabilities, log-probabilities and labels as the native ensemble for every finite row and any number of members. "
    "This holds for tied votes, for members that use a subset, reordering or repetition of the features, for members of any supported probabilistic kind, and for members that saw only some of the classes when they were trained.",
    ["inputs", "configurations"],
    "all small collections of members, feature subsets and class subsets; all rows of a threshold grid",
    "The tests only use bootstrap=False on iris, so every member sees every class, and compare only the last method's values on the training rows.",
    [PS + "ensemble/_bagging.py", PS + "ensemble/_forest.py"],
    [("averaging", PS + "ensemble/_bagging.py:_BaseBaggingPure.predict_proba"), ("feature subsets", PS + "ensemble/_bagging.py:_feat_slice")],
    ["predict", "predict_proba", "predict_log_proba of a converted ensemble"],
)
add(
    "C03", "Gradient boosting answers exactly as the native model",
    "A converted gradient boosting classifier returns the same class probabilities, log-probabilities and labels as the native model for every finite row. "
    "This holds for binary and multiclass targets, for deviance and exponential loss, for every learning rate and number of stages, for the default and supported custom initial estimators, and however large the raw scores become.",
    ["inputs", "configurations"],
    "all small stage/tree/leaf-value combinations, both losses, initial estimators and learning rates; all rows of a threshold grid",
    "The tests never reach exponential loss (its guard looks at the 3-class target) and only use training rows with small raw scores and the default initial estimator.",
    [PS + "ensemble/_gb.py", PS + "ensemble/_gb_losses.py"],
    [("stage accumulation", PS + "ensemble/_gb.py:_raw_predict"), ("link functions", PS + "ensemble/_gb_losses.py")],
    ["predict", "predict_proba", "predict_log_proba"],
)
add(
    "C04", "XGBoost classifiers answer exactly as the native booster",
    "A converted XGBoost classifier (gbtree booster, binary:logistic or multi:softprob) returns the same class probabilities and labels as the native model, to single precision, for every row of finite or missing (NaN) values. "
    "This holds for any number of features, any feature names, any base score, pruned or early-stopped boosters, and rows that lie exactly on a split threshold.",
    ["inputs", "configurations"],
    "all small boosters (tree shapes, features, thresholds, default directions, leaf values, base scores); all rows of a threshold grid including NaN",
    "The tests use four iris features, no missing values, no value equal to a threshold, default base score and no pruning.",
    [PS + "xgboost/_classes.py", PS + "tree/_classes.py"],
    [("booster import", PS + "xgboost/_classes.py:_build_estimators"), ("tree import", PS + "tree/_classes.py:_DecisionTreeBase.__init__"), ("margin sum and link", PS + "xgboost/_classes.py:predict_proba")],
    ["predict", "predict_proba"],
)
add(
    "C05", "Linear classifiers answer exactly as the native model",
    "A converted LogisticRegression, RidgeClassifier, SGDClassifier, Perceptron, PassiveAggressiveClassifier or LinearSVC returns the native decision values and labels for every finite row, dense or sparse, and where it offers probabilities the native probabilities and log-probabilities. "
    "This holds for binary and multiclass targets with any labels, with or without intercept, for one-vs-rest and multinomial probability models, and for scores that are exactly zero or tied.",
    ["inputs", "configurations"],
    "all coefficient/intercept assignments over a small alphabet, every estimator and probability mode, all rows over a small alphabet",
    "The tests check fitted iris models on the training rows: scores are never zero or tied, labels are 0..k-1, and few combinations of solver and multi_class occur.",
    [PS + "linear_model/_base.py", PS + "linear_model/_logistic.py", PS + "linear_model/_stochastic_gradient.py", PS + "svm/_classes.py"],
    [("scores", PS + "linear_model/_base.py:decision_function"), ("labels", PS + "linear_model/_base.py:predict"), ("probabilities", PS + "linear_model/_logistic.py:predict_proba")],
    ["decision_function", "predict", "predict_proba", "predict_log_proba"],
)
add(
    "C06", "Naive Bayes and dummy classifiers answer exactly as the native model",
    "A converted GaussianNB, MultinomialNB, ComplementNB or prior-strategy DummyClassifier returns the same labels, probabilities and log-probabilities as the native model for every finite row of the domain the native model accepts. "
    "This holds for any class labels, any number of classes, any priors including zero ones, and rows arbitrarily far from every class.",
    ["inputs", "configurations"],
    "all small class/prior/parameter assignments; all rows over an alphabet reaching extreme magnitudes",
    "The tests use iris training rows (likelihoods never underflow) and labels 0..k-1 only.",
    [PS + "naive_bayes.py", PS + "dummy.py"],
    [("joint likelihood", PS + "naive_bayes.py:_joint_log_likelihood"), ("normalisation", PS + "naive_bayes.py:predict_log_proba"), ("prior answer", PS + "dummy.py:DummyClassifierPure")],
    ["predict", "predict_proba", "predict_log_proba"],
)
add(
    "C07", "Scalers and normalizers transform exactly as the native ones",
    "A converted StandardScaler, MinMaxScaler, MaxAbsScaler or Normalizer, and the stand-alone normalize function, produce for every finite matrix the same values as scikit-learn. "
    "This holds for every parameter setting, for constant or zero columns, all-zero rows and negative values, for both axes of normalize, and for sparse input wherever it is accepted.",
    ["inputs", "configurations"],
    "all matrices up to 3x3 over a small signed alphabet including zero; every parameter combination; dense and sparse encodings",
    "Most existing tests drop the result of the comparison (no assert), and their single matrix has no zero row, constant column or dominant negative value.",
    [PS + "preprocessing/_data.py"],
    [("scaling", PS + "preprocessing/_data.py:transform"), ("zero handling", PS + "preprocessing/_data.py:_handle_zeros_in_scale"), ("norms", PS + "preprocessing/_data.py:normalize_pure")],
    ["transform", "normalize_pure"],
)
add(
    "C08", "Categorical encoders place every category as the native encoder does",
    "A converted OneHotEncoder or OrdinalEncoder maps every row of known categories to the same vector as scikit-learn, for any number of columns and categories, string or numeric, and any batch. "
    "Unknown categories become all-zero blocks when the encoder was told to ignore them and are refused otherwise; dense and sparse output carry the same values and width.",
    ["inputs", "configurations"],
    "all tables of up to 4 columns and 3 categories per column, all batches of up to 3 rows including unknown values, both encoders and both output kinds",
    "The tests transform only the training table, which has two columns and no unknown category.",
    [PS + "preprocessing/_encoders.py", PS + "preprocessing/_label.py"],
    [("column offsets", PS + "preprocessing/_encoders.py:OneHotEncoderPure.transform"), ("unknown handling", PS + "preprocessing/_encoders.py:_transform")],
    ["transform"],
)
add(
    "C09", "Imputation and missing indicators match the native transformers",
    "A converted SimpleImputer or MissingIndicator returns the same matrix as scikit-learn for every input whose missing pattern the native transformer accepts: filled values, dropped columns, indicator columns and their order. "
    "This holds for every strategy, missing-value marker (NaN, numbers, strings), indicator setting and pattern of missing entries at fit and at predict time, and newly missing features are refused exactly when the native indicator refuses them.",
    ["inputs", "configurations"],
    "every missing pattern of small fit and transform matrices (including all-missing and never-missing columns), every strategy, marker and indicator option",
    "The tests transform the data they were fitted on, with random missing cells, so fit-time and predict-time patterns never differ and no column is entirely missing.",
    [PS + "impute/_base.py"],
    [("imputation", PS + "impute/_base.py:SimpleImputerPure.transform"), ("indicator", PS + "impute/_base.py:MissingIndicatorPure.transform")],
    ["transform"],
)
add(
    "C10", "Count and TF-IDF text features match the native vectorizers",
    "A converted CountVectorizer, TfidfVectorizer or TfidfTransformer produces for every collection of documents the same matrix as scikit-learn. "
    "This holds for word, character and word-bounded character analysis, every n-gram range, case and accent handling, stop-word list, token pattern, binary and sublinear counts, idf on or off, every norm, bytes or text input, and documents that are empty, unknown or contain repeated, accented or unusual whitespace characters.",
    ["inputs", "configurations"],
    "all strings up to a length bound over an alphabet of case, accent, space and punctuation characters; every vectorizer option in small combinations",
    "The tests transform the six training sentences with default options.",
    [PS + "feature_extraction/text.py"],
    [("analysis", PS + "feature_extraction/text.py:_VectorizerMixinPure"), ("counting", PS + "feature_extraction/text.py:_count_vocab"), ("weighting", PS + "feature_extraction/text.py:TfidfTransformerPure")],
    ["transform"],
)
add(
    "C11", "Hashed text features match the native hashing vectorizer",
    "A converted HashingVectorizer produces for every collection of documents the same matrix as scikit-learn: same columns, signs, multiplicities of repeated and colliding tokens, and normalisation. "
    "This holds for tokens of any length and any Unicode content, every number of features, and sign, binary and norm options.",
    ["inputs", "configurations"],
    "all token strings up to a length bound over an alphabet of 1-4 byte characters (covering every block/tail length), all small documents with repeats and collisions, every option combination",
    "The tests hash six sentences of distinct ASCII words into 256 buckets, without repeated tokens.",
    [PS + "feature_extraction/_hash.py", PS + "feature_extraction/text.py"],
    [("hash", PS + "feature_extraction/_hash.py:_hash"), ("bucket accumulation", PS + "feature_extraction/_hash.py:_hashing_transform")],
    ["transform"],
)
add(
    "C12", "Dictionary features match the native DictVectorizer",
    "A converted DictVectorizer maps every collection of feature dictionaries to the same matrix as scikit-learn, sparse or dense, in the same column order. "
    "This holds for numeric, boolean and string values, unknown features, empty dictionaries, a single dictionary instead of a list, custom separators and data types, and keys that collapse onto the same feature.",
    ["inputs", "configurations"],
    "all small collections of dictionaries over a key/value alphabet containing collisions; every separator, sort, dtype and sparse option",
    "The tests transform four dictionaries of integers they were fitted on.",
    [PS + "feature_extraction/_dict_vectorizer.py"],
    [("feature lookup", PS + "feature_extraction/_dict_vectorizer.py:transform")],
    ["transform"],
)
add(
    "C13", "Pipelines and feature unions compose as the native ones",
    "A converted Pipeline or FeatureUnion, of any depth and nesting of supported steps, gives the same transform, prediction, probabilities and classes as the native composition for every input. "
    "Unions concatenate blocks in order with their weights whether the blocks are dense, sparse or mixed, skipped steps are skipped, and of transform, predict, predict_proba and predict_log_proba a pipeline offers exactly those its final step offers.",
    ["programs", "inputs"],
    "all compositions of supported transformers and classifiers up to a size bound, with weights, skipped steps and nesting; all batches of a small input set",
    "The tests contain one two-step pipeline and two unions, none nested, weighted, mixed or with skipped steps.",
    [PS + "pipeline.py", PS + "map.py"],
    [("step chaining", PS + "pipeline.py:PipelinePure"), ("concatenation", PS + "pipeline.py:FeatureUnionPure.transform"), ("method delegation", PS + "pipeline.py:_IffHasAttrDescriptor")],
    ["transform", "predict", "predict_proba", "predict_log_proba", "classes_"],
)
add(
    "C14", "Sparse and dense encodings of the same data are interchangeable",
    "For every model that accepts sparse input, a matrix gives the same result whether it is passed dense, as sparse data without zeros, with some zeros stored explicitly, or with columns stored in another order. "
    "Converting a matrix to sparse and back returns the same values and shape for every matrix, including empty rows and columns, and the shape, column-selection and element-wise helpers agree between the two encodings.",
    ["inputs", "configurations"],
    "all matrices up to 3x3 over a small alphabet with zeros, every encoding of each, every sparse-capable model and helper",
    "The tests convert one matrix without zeros, and compare sparse with dense on iris where no entry is zero.",
    [PS + "utils.py", PS + "base.py", PS + "linear_model/_base.py", PS + "tree/_classes.py", PS + "preprocessing/_data.py"],
    [("sparse container", PS + "utils.py:sparse_list"), ("sparse branches", PS + "base.py")],
    ["sparse_list", "todense", "predict/transform on both encodings"],
)
add(
    "C15", "Pairwise similarities match the native metrics",
    "Cosine similarity, cosine distance and the linear kernel return the same matrix as scikit-learn for every pair of finite matrices with equal width, given one or two arguments. "
    "This holds for zero rows, negative values, identical or aliased arguments, non-square results and a sparse first argument.",
    ["inputs"],
    "all pairs of matrices up to 3 rows and 2-3 columns over a small signed alphabet including zero rows; one- and two-argument forms; sparse first argument",
    "The tests use random positive square matrices, so zero rows, negatives and non-square results never occur.",
    [PS + "metrics/pairwise.py"],
    [("normalised products", PS + "metrics/pairwise.py:cosine_similarity_pure"), ("clipping and diagonal", PS + "metrics/pairwise.py:cosine_distances_pure")],
    ["cosine_similarity_pure", "cosine_distances_pure", "linear_kernel_pure"],
)
add(
    "C16", "Supervised fastText predictions match native fastText",
    "A supervised fastText model (softmax loss) converted to pure Python returns for every line of text the same labels in the same order, with the same probabilities, as native fastText. "
    "This holds for every k and threshold, for a single line or a list of lines, for empty lines, unknown, repeated and label tokens and any separators fastText recognises, and a text containing a newline is refused.",
    ["inputs", "configurations"],
    "all lines of up to 3-4 tokens over a vocabulary with unknown words, labels and separators; all k and thresholds; models over a small weight alphabet",
    "The tests use four sentences on one trained two-label model and never pass a list, k=-1 or an empty line.",
    ["pure_fasttext/FastText.py"],
    [("sentence vector", "pure_fasttext/FastText.py:get_sentence_vector"), ("ranking", "pure_fasttext/FastText.py:_predict")],
    ["predict"],
)
add(
    "C17", "fastText word and sentence embeddings match native fastText",
    "A converted fastText model (supervised, or unsupervised without subwords) returns for every word and every line the same word id, word vector and sentence vector as native fastText, always of the model's dimension. "
    "This holds for unknown words, empty and blank lines, words repeated or separated by any whitespace fastText recognises, and words whose vector is zero.",
    ["inputs", "configurations"],
    "all lines of up to 3-4 tokens over a vocabulary with unknown words and separators; models over a small weight alphabet including zero vectors",
    "The tests look up words of four fixed sentences; no line is empty or entirely unknown.",
    ["pure_fasttext/FastText.py"],
    [("lookup", "pure_fasttext/FastText.py:get_word_vector"), ("averaging", "pure_fasttext/FastText.py:get_sentence_vector")],
    ["get_word_id", "get_word_vector", "get_sentence_vector"],
)
add(
    "C18", "Converted artifacts need nothing but this package",
    "For every supported model, the pickled converted object loads and answers, with the same results, in a Python interpreter that has no third-party package, and nothing reachable from it is a third-party object. "
    "This holds even when hyper-parameters, labels, vocabularies, categories or stop words of the original model were given as numpy values.",
    ["configurations", "programs"],
    "every supported estimator and composition, each numeric/string/boolean hyper-parameter and label given as a plain or a numpy value",
    "The tests always run where numpy and scikit-learn are importable, so a leaked third-party object is never noticed.",
    [PS + "utils.py", PS + "map.py", PS + "__init__.py", "pure_fasttext/__init__.py"],
    [("type closure", PS + "utils.py:check_types"), ("dtype conversion", PS + "utils.py:convert_type")],
    ["pickle.dumps/loads in an isolated interpreter"],
)
add(
    "C19", "Answers do not depend on what was asked before",
    "Every prediction, transform or lookup is a function of the converted model and its argument alone: after any sequence of earlier calls, valid or refused, on the same or other models, the same argument gives the same answer. "
    "No call changes the model or its argument, and changing a returned value in place changes neither the model nor later answers.",
    ["histories", "programs"],
    "all call sequences up to depth 3 over a menu of valid calls, refused calls and in-place edits of returned values, for every supported model",
    "The tests call each method once or twice on a fresh model and never reuse results.",
    [PS + "dummy.py", PS + "feature_extraction/text.py", PS + "ensemble/_gb.py", PS + "utils.py", "pure_fasttext/FastText.py"],
    [("absence of shared mutable state", PS), ("fresh result lists", PS + "dummy.py:predict_proba")],
    ["all public prediction methods"],
)
add(
    "C20", "Threads sharing a model get the single-threaded answers",
    "When several threads use the same converted model, or different models, at the same time, each call returns exactly what it would return alone, whatever the interleaving, and the model afterwards is what sequential use would leave.",
    ["schedules"],
    "all interleavings of two (and three) concurrent calls at source-line granularity up to a preemption bound, for every supported model",
    "No test starts a thread.",
    [PS, "pure_fasttext/FastText.py"],
    [("no shared scratch state", PS)],
    ["concurrent predict/transform calls"],
)
add(
    "C21", "An interrupted call leaves the model as good as new",
    "If a prediction, transform or lookup is cut short at any point by an exception (timeout, interrupt, memory), the model is unchanged and every later call returns what it would have returned without the interruption, and the caller's argument is unchanged.",
    ["crash_points", "fault_sequences"],
    "an exception injected at every executed source line of every public call of every supported model, followed by a full comparison",
    "No test interrupts a call.",
    [PS, "pure_fasttext/FastText.py"],
    [("no in-place work on shared state", PS)],
    ["calls after an injected fault"],
)
add(
    "C22", "Probabilities are well formed for every finite input",
    "Every converted classifier that offers probabilities returns, for every finite input however extreme for which the original gives a probability distribution, one row per input with one non-negative finite value per class summing to one. "
    "Its log-probabilities are the logarithms of those values and its label is a class whose probability is the maximum.",
    ["inputs", "configurations"],
    "every probabilistic classifier over a lattice of inputs and parameters from zero through denormal and huge magnitudes",
    "The tests only use iris rows, where nothing overflows or underflows.",
    [PS + "base.py", PS + "naive_bayes.py", PS + "ensemble/_gb_losses.py", PS + "linear_model/_base.py", PS + "xgboost/_classes.py", "pure_fasttext/FastText.py"],
    [("softmax/expit", PS + "base.py"), ("log-sum-exp", PS + "naive_bayes.py")],
    ["predict_proba", "predict_log_proba", "predict"],
)
add(
    "C23", "Models outside the supported set are refused, never mis-answered",
    "Converting a fitted model either raises an error or yields a model that answers like the original: there is no model for which conversion succeeds and predictions silently differ. "
    "In particular unknown estimator types, unsupported objectives, boosters, losses, encoder drop settings, dummy strategies, multi-output targets, subword, n-gram, quantized or non-softmax fastText models and user-supplied callables are refused, and scikit-learn models whose recorded version is below the oldest supported one, or below a minimum the caller gives, are warned about or refused respectively.",
    ["configurations", "programs"],
    "every value of every option that affects prediction of every mapped estimator, plus all version strings of a small grammar",
    "The tests convert supported configurations only; no test expects a refusal.",
    [PS + "map.py", PS + "utils.py", PS + "xgboost/_classes.py", PS + "dummy.py", PS + "preprocessing/_encoders.py", "pure_fasttext/FastText.py"],
    [("mapping", PS + "map.py:convert_estimator"), ("version gate", PS + "utils.py:check_version"), ("type gate", PS + "utils.py:check_types")],
    ["convert_estimator", "FastText()"],
)
add(
    "C24", "Malformed requests are refused rather than answered",
    "A request the model cannot answer meaningfully raises an error instead of returning a value: an empty batch, an input that is not a list, rows wider or narrower than the model's features, sparse input to a dense-only model, or incompatible matrix arguments to the pairwise and matrix helpers. "
    "A request the model can answer is never refused.",
    ["inputs", "configurations"],
    "every supported model crossed with every malformed-input class and every width from 0 to features+2",
    "The tests contain one refused request (sparse to a dense check).",
    [PS + "utils.py", PS + "linear_model/_base.py", PS + "preprocessing/_data.py", PS + "tree/_classes.py", PS + "naive_bayes.py", PS + "base.py"],
    [("input check", PS + "utils.py:check_array"), ("width check", PS + "linear_model/_base.py:decision_function")],
    ["predict", "transform"],
)
add(
    "C25", "A batch is answered row by row",
    "Every converted model answers a batch exactly as it answers its rows one at a time: splitting, concatenating, reordering or repeating rows splits, concatenates, reorders or repeats the answers, and no row's answer depends on its neighbours.",
    ["inputs", "programs"],
    "all batches of up to 3-4 rows (with repetition) over a row alphabet, for every supported model, dense and sparse",
    "The tests send the whole training set in one call and never compare with single rows.",
    [PS, PS + "utils.py", PS + "preprocessing/_encoders.py"],
    [("per-row loops", PS), ("shape from first row", PS + "utils.py:shape")],
    ["predict", "predict_proba", "transform"],
)
add(
    "C26", "A converted model is an independent snapshot",
    "Conversion changes nothing in the native model, and refitting or editing the native model afterwards changes nothing in the converted one. "
    "Converting the same model again gives an equal but independent object: nothing done to one converted model or to its parts affects another.",
    ["histories", "programs"],
    "all sequences up to depth 3 of convert, refit/edit native, edit a converted model, predict, for every supported model",
    "No test touches the native model after conversion or converts twice.",
    [PS + "map.py", PS + "feature_extraction/_dict_vectorizer.py", PS + "feature_extraction/text.py"],
    [("copying parameters", PS), ("vocabulary hand-over", PS + "feature_extraction/_dict_vectorizer.py:__init__")],
    ["convert_estimator followed by edits"],
)
add(
    "C27", "Serialisation round trips preserve behaviour",
    "Pickling (every protocol), copying or deep-copying a converted model or a sparse matrix, any number of times in any order and before or after use, gives an object with the same behaviour and an equal state.",
    ["histories", "configurations"],
    "all sequences up to depth 3 of pickle protocol 0-5, copy, deepcopy and use, for every supported model and for sparse matrices",
    "No test pickles anything.",
    [PS + "utils.py", PS, "pure_fasttext/FastText.py"],
    [("plain-attribute state", PS), ("list subclass with attributes", PS + "utils.py:sparse_list")],
    ["pickle, copy"],
)
add(
    "C28", "Matrix helpers agree with numpy on dense and sparse data",
    "The shared matrix helpers (dot products, element-wise product, transpose, element-wise and axis-wise application, two-matrix operation, column selection, flattening of a column, softmax, logistic function, safe log and exp, shape) return what numpy returns for the same dense or sparse input, or refuse it.",
    ["inputs"],
    "all matrices up to 3x3 and vectors up to length 3 over small alphabets including zero, infinities and extreme magnitudes for the scalar functions",
    "The tests check one 2x2 matrix without zeros; several assertions are missing (softmax, safe log).",
    [PS + "base.py", PS + "utils.py"],
    [("helpers", PS + "base.py"), ("shape", PS + "utils.py:shape")],
    ["pure_sklearn.base functions"],
)
add(
    "C29", "Predictions are the original class labels",
    "Every label a converted classifier predicts is one of the labels its original was trained with, with the same value and kind (integer, negative or non-contiguous integer, string, boolean or float), and it is the label the native model predicts, including when labels sort differently from their order of appearance.",
    ["inputs", "configurations"],
    "every supported classifier, alone and as the end of a pipeline, crossed with every label alphabet and assignment of labels to rows of a small dataset",
    "Every existing test labels classes 0..k-1, for which an index and a label are the same thing.",
    [PS + "dummy.py", PS + "tree/_classes.py", PS + "linear_model/_base.py", PS + "naive_bayes.py", PS + "ensemble/_bagging.py", PS + "ensemble/_gb.py", PS + "xgboost/_classes.py"],
    [("label lookup", PS), ("class list import", PS)],
    ["predict", "classes_"],
)
