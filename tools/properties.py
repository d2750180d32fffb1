import json
P=[]
def p(id,title,st,over,text,why,files,mech,state=None,obs=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    if obs: a["observe_at"]=obs
    a["hook_needed"]=None
    P.append({"id":id,"title":title,"statement":st,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
ENT=["Ensemble.PredictSingle","Ensemble.Predict","Ensemble.PredictDense","Ensemble.PredictCSR"]
MODELS=["lgensemble.go","xgensemble.go","xgblinear.go"]
p("C01","Predicting and querying never modifies the model or the inputs",
 "A loaded model is read-only: no prediction or query call changes the model, the data it is given, or any state shared between calls; the only memory a prediction changes is the caller's result slice. Any number of goroutines can therefore use one model at the same time, and predicting twice gives the same answer.",
 ["inputs","schedules","histories"],"every exported method of a model, every model kind and transformation, every input, any interleaving of calls on the same model",
 "Tests call the methods one after another on a few models; a write into shared state shows only under particular interleavings or on a second call with other data.",
 ["leaves.go"]+MODELS+["lgtree.go","transformation/","util/util.go"],
 [("methods write only through the result argument and their own allocations","leaves.go; "+", ".join(MODELS)),("tree walk keeps its position in locals","lgtree.go lgTree.predict")],
 obs=ENT)
p("C02","Each row's prediction fills exactly its own cells of the result",
 "After a successful prediction of N rows with a model of K outputs, cells i*K to i*K+K-1 of the result hold the prediction of row i of the input, for every i from 0 to N-1. Every one of these cells is written, and no cell beyond the first N*K is touched.",
 ["inputs","configurations"],"all row counts (including those around the batch size), numbers of outputs, thread counts, model kinds, transformations",
 "Tests use a few fixed matrices and compare values; a wrong stride, an off-by-one at a batch border or an untouched cell needs particular sizes, and stale buffers happen to hold the right values.",
 ["leaves.go","transformation/"]+MODELS,
 [("row loops and result offsets","leaves.go PredictDense, PredictCSR, predictCSRInner"),("transformation writes at the row's offset","transformation/*.go Transform")],obs=ENT)
p("C03","Multi-threaded prediction does exactly the work of single-threaded prediction",
 "Whatever number of threads is asked for and however they are scheduled, every row is processed exactly once, by one worker, and the call returns only after all workers have finished. Workers share no memory that any of them writes except disjoint parts of the result.",
 ["schedules","configurations","inputs"],"all schedules, thread counts (zero, negative, more than processors), row counts including partial last batches",
 "A test run sees one schedule; races, lost batches, early return and deadlock depend on timing and on the row count modulo the batch size.",
 ["leaves.go"],
 [("batches handed to workers through a channel","leaves.go PredictCSR, PredictDense"),("WaitGroup protocol","leaves.go"),("per-worker scratch row","leaves.go PredictCSR")],obs=["Ensemble.PredictDense","Ensemble.PredictCSR"])
p("C04","A sparse row predicts like the dense row with absent features missing",
 "An explicit entry of a sparse row is used as the value of the feature its column names, entries of columns the model does not know are ignored, and every other feature has the model's value for an absent feature: NaN for XGBoost trees, zero otherwise. Nothing of one row influences another row of the same or a later call.",
 ["inputs","histories"],"all sparse matrices with row pointers inside the data, any order and number of entries per row, empty rows, columns beyond the model, all thread counts",
 "Tests use matrices in which leaks and default values are masked: rows with the same columns, or features that no tree asks for.",
 ["leaves.go"]+MODELS,
 [("scratch row filled per row and reset afterwards","leaves.go predictCSRInner"),("default value of absent features","resetFVals of each model")],obs=["Ensemble.PredictCSR"])
p("C05","Arguments that do not fit the model are refused before anything happens",
 "A prediction into a result slice that is too short, from too few features or columns or too little data, or of leaf indices with only part of the trees, returns an error (the single-value form returns 0) without evaluating a tree or writing a result cell. Arguments that fit are never refused.",
 ["inputs","configurations"],"all lengths, row and column counts, numbers of estimators, model kinds and transformations",
 "Tests try a handful of bad arguments per entry point; a check that is missing, off by one or placed after the first write is visible only for particular lengths.",
 ["leaves.go"],
 [("length and feature checks at the start of every entry point","leaves.go Predict*, checkNEstimators")],obs=ENT)
p("C06","The requested number of trees is the number used",
 "When n trees per output are asked for with 0 < n < the model's number, exactly the first n of each output take part; any other n means all of them. A linear model always uses its only estimator, and averaging models average over the trees used.",
 ["inputs","configurations"],"every requested number including zero, negative and too large, every model kind, entry point and transformation",
 "Tests try two or three numbers on single-output models; clamping, averaging and offsets differ only for particular combinations.",
 ["leaves.go"]+MODELS,
 [("number of estimators clamped","adjustNEstimators of each model"),("loops over estimators and groups","predictInner, predictLeafIndicesInner"),("average","lgensemble.go predictInner")],obs=ENT)
p("C07","The raw score is the model's constant plus all its weighted contributions",
 "The raw score of output k is the model's constant part plus, for a tree model, the value of every tree of output k (times its own weight for a dropout model, divided by their number for an averaging model) and, for a linear model, bias k plus every feature value times its weight for k. Every contribution enters exactly once and under its own output; the score handed to the transformation is this sum.",
 ["inputs","configurations"],"all models (numbers of trees, outputs, features), all rows, all entry points",
 "Tests compare a few stored models; a wrong tree, weight or output index coincides for one output, equal weights or zero base score.",
 MODELS+["leaves.go"],
 [("sums over trees","lgensemble.go, xgensemble.go predictInner"),("dot product","xgblinear.go predictInner"),("raw scores handed on","leaves.go predictInnerAndTransform")],obs=ENT)
p("C08","Leaf indices name the leaf each tree ends in, in the documented order",
 "A leaf-index prediction puts, for output k and tree i of n, the index of the leaf the row reaches in that tree at position k*n+i of the row, and the leaf counts of the model use the same order, so that every index is below the count at its position. Every tree used fills its own cell.",
 ["inputs","configurations"],"all tree models, numbers of outputs and trees, rows, entry points",
 "Tests look at one or two models; transposing outputs and trees is invisible with a single output.",
 ["leaves.go","lgensemble.go","xgensemble.go","lgtree.go"],
 [("leaf indices written per tree","predictLeafIndicesInner"),("leaf counts","NLeaves, lgTree.nLeaves")],obs=["EnsembleWithLeafPredictions","Ensemble.NLeaves"])
p("C09","A numerical split sends every value down the side the trained model chose",
 "At a numerical split a row goes left exactly if its value is at most the threshold, except that a missing value follows the split's default direction: NaN if the split treats NaN as missing, zero (within 1e-35) and NaN if it treats zero as missing. NaN at a split without NaN handling counts as zero.",
 ["inputs"],"every feature value including NaN, infinities, signed and tiny zeros and values equal to the threshold; every combination of missing type and default direction",
 "Test data hits few of the combinations of missing type, default direction, NaN, zero and equality with the threshold.",
 ["lgtree.go"],[("decision of a numerical node","lgtree.go numericalDecision, isZero"),("walk","lgtree.go predict")],
 state=[("node flags","missing type, default direction, leaf bits, categorical kinds","lgtree.go lgNode.Flags")],obs=["lgTree.predict"])
p("C10","A categorical split sends exactly the categories in its set to the left",
 "At a categorical split a row goes left exactly if the integer part of its value is in the split's set of categories, whichever of the stored forms (single category, small set, large set) holds the set. Negative values, categories beyond the stored set, and NaN at splits that treat NaN as missing go right.",
 ["inputs"],"every value and every set, in particular categories at multiples of 32, beyond the set and negative",
 "Test models contain few sets; boundaries of words and the choice between the three stored forms are hardly touched.",
 ["lgtree.go","util/util.go"],[("decision of a categorical node","lgtree.go categoricalDecision, findInBitset"),("bit tests","util/util.go FindInBitsetUint32")],obs=["lgTree.predict"])
p("C11","Loading keeps every split and leaf of every tree",
 "Every node of a loaded tree has the feature, threshold, missing-value handling and default direction that the file states for it, its left and right child are the file's left and right child, and every leaf has the file's value (for scikit-learn scaled by the learning rate, with the initial estimate added once). No tree, node or leaf is lost, duplicated or swapped, and the base score, dropout and linear weights are the file's.",
 ["inputs"],"all model files of the five supported kinds, all tree shapes",
 "A few stored models cover few shapes; swapped children, a wrong flag bit or a wrongly attached leaf can cancel out or concern rare node kinds.",
 ["lgensemble_io.go","xgensemble_io.go","skensemble_io.go","lgtree.go"],
 [("node constructors","lgtree.go numericalNode, categoricalNode"),("conversion of the node array","lgTreeFromReader, unmarshalTree, xgTreeFromTreeModel, lgTreeFromSklearnDecisionTreeRegressor")],obs=["loaders","lgTree.predict"])
p("C12","Category sets keep their members when they are re-encoded on loading",
 "Whichever form a category set is stored in after loading, its members are exactly those the file lists: one category is kept as that number, a set within one machine word as that word, and larger sets word by word with boundaries that fit. The helper functions that count, find and build bit sets agree with the definition for every input.",
 ["inputs"],"all category sets: one member, members in any word, the largest bit, sets that fill words exactly",
 "Unit tests of the helpers sample a few words; the re-encoding is only exercised by the few categorical models in the test data.",
 ["lgensemble_io.go","util/util.go"],
 [("choice of the stored form","lgTreeFromReader, unmarshalTree createCategoricalNode"),("bit helpers","util/util.go NumberOfSetBits, FirstNonZeroBit, ConstructBitset")])
p("C13","A model that loads can be evaluated on every row",
 "Every tree of a model that was loaded successfully only refers to features, children and leaves that exist, and every path through it ends in a leaf, so evaluating it on any row with enough features neither reads outside the model nor runs forever. A file for which this does not hold is refused when it is loaded.",
 ["inputs"],"all model files of every tree format, damaged or inconsistent ones included",
 "Tests load well-formed files only; a dangling or cyclic reference makes prediction panic or hang for particular rows long after loading.",
 ["lgtree.go","lgensemble_io.go","xgensemble_io.go","skensemble_io.go"],
 [("references checked after conversion","lgtree.go validate; called by the four tree loaders")],obs=["loaders"])
p("C14","A loader never reports success after a step of loading failed",
 "If reading, parsing or converting any part of a model fails, the loader returns an error and no model; a loader that succeeds returns a model. No failure of an inner step is dropped, replaced by a default, or overwritten by a later success.",
 ["inputs","fault_sequences"],"all inputs and all points at which reading or parsing can fail, in all loaders and the decoders they use",
 "Tests feed good files and one or two bad ones; each error path needs its own truncated or malformed input.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","internal/xgbin/xgbin_io.go","internal/pickle/","util/util.go","mat/mat_io.go"],
 [("error checked after every step","all loaders")],obs=["returned error"])
p("C15","Models that cannot be represented faithfully are refused",
 "A file of another format version, model type, objective, class layout, tree order, number of roots, data type or array shape than the loader supports, or whose counts of classes, trees, features, weights or leaves contradict each other, is rejected with an error and never loaded as something else. Files that the loader supports are not rejected.",
 ["inputs","configurations"],"all combinations of header fields of all formats",
 "Tests contain supported models only; each unsupported combination would need its own file.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","internal/pickle/sklearn.go","internal/pickle/numpy.go"],
 [("header checks","LGEnsembleFromReader, LGEnsembleFromJSON, XGEnsembleFromReader, XGBLinearFromReader, SKEnsembleFromReader"),("class and shape checks","internal/pickle Reduce/Build methods")],obs=["returned error"])
p("C16","The transformation matches the model's objective and the caller's choice",
 "With the transformation requested, a binary objective gets the logistic function, a multiclass objective the softmax over its classes, a log-link objective the exponential, plain regression none, and any other objective is refused; without the request, and for averaging and scikit-learn models in any case, raw scores are predicted. The raw and leaf-index views of a model use the same underlying model with raw scores and leaf indices for all its trees.",
 ["inputs","configurations"],"all objectives of all formats, with and without the request, views of views",
 "Tests cover one model per objective; the choice depends on strings in the file that tests do not enumerate.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","leaves.go"],
 [("choice by objective","loaders"),("views","leaves.go EnsembleWithRawPredictions, EnsembleWithLeafPredictions")],obs=["Ensemble.Transformation"])
p("C17","Transformations compute their function at the given position",
 "Given raw scores and an output position, raw and leaf-index output copies all of them, logistic is 1/(1+exp(-x)), exponential exp(x), and softmax exp(x_k) over the sum of all exp(x_j); as many cells as the transformation announces are written, starting at the position, and no others. The helper for whole lists (util.SigmoidFloat64SliceInplace) replaces each element by its logistic value. A wrong number of scores is an error and writes nothing; the announced name, kind and number of outputs agree.",
 ["inputs"],"all score vectors, positions and buffer sizes; all transformations",
 "Unit tests use a few vectors at position 0; a wrong offset, bound or sign needs other positions or sizes.",
 ["transformation/","util/util.go"],
 [("transformation functions","transformation/*.go"),("formulas","util/util.go Sigmoid, SoftmaxFloat64Slice")],obs=["Transform"])
p("C18","XGBoost binary files are read field by field in the format's layout",
 "The reader consumes an XGBoost binary model in the order and with the widths of the format - header, names, model parameters, for each tree its parameters, nodes, statistics and optional leaf vector, then the tree groups, dropout weights or linear weights - so that every value comes from the bytes the format assigns to it. The highest bit of a split index is the default direction and the remaining bits the feature.",
 ["inputs"],"all models: numbers of trees, nodes, classes, optional parts",
 "Tests load a few models without the optional parts; a misread field of fixed width shifts everything after it only in models that use it.",
 ["internal/xgbin/xgbin_io.go","xgensemble_io.go","xgblinear_io.go"],
 [("structures mirroring the format","internal/xgbin/xgbin_io.go"),("read order","ReadModelHeader, ReadGBTreeModel, ReadTreeModel, ReadGBLinearModel")])
p("C19","The pickle decoder executes every supported opcode as the protocol defines",
 "Each opcode of a protocol 0 pickle takes from and puts on the stack, the mark stack and the memo exactly what the protocol says, with operands in the right order, and an opcode that is not supported is an error. Text strings are unescaped so that the bytes of every array are exactly those that were pickled.",
 ["inputs","programs"],"all pickle programs within the supported opcodes",
 "Tests decode some dozen pickles; operand order, mark handling and escapes matter only in programs that use them in particular combinations.",
 ["internal/pickle/decoder.go","internal/pickle/machine.go","internal/pickle/types.go"],
 [("opcode switch","internal/pickle/decoder.go Decode"),("stack machine","internal/pickle/machine.go")],obs=["Decoder.Decode"])
p("C20","scikit-learn models are decoded from exactly their own fields",
 "Every attribute of a loaded scikit-learn model comes from the attribute or record field of that name in the pickle - node records of 56 bytes in the fixed field order, values, classes, priors, learning rate, estimators, in their byte order and type - and nothing else. Array data is cut into elements of the width of its type, all of them, in order.",
 ["inputs"],"all pickled gradient boosting classifiers, array shapes and byte orders",
 "Tests decode a few models; fields that coincide in value or are not used by these models can be swapped unnoticed.",
 ["internal/pickle/sklearn.go","internal/pickle/numpy.go","internal/pickle/types.go","skensemble_io.go"],
 [("attribute reads","internal/pickle/sklearn.go Build methods"),("record layout","SklearnNodeFromBytes"),("element iteration","internal/pickle/numpy.go Iterate")])
p("C21","Matrix readers give one row per line with consistent shape",
 "Every matrix the readers return has as many rows as lines were read (at most the requested limit), a dense matrix has rows*columns values with each value in the column the line puts it in, and a sparse matrix has one row pointer more than rows, starting at 0, never decreasing and ending at the number of entries. Lines that do not fit are an error.",
 ["inputs"],"all CSV and libsvm inputs, limits, delimiters and default values",
 "Tests read a few small files; empty fields, limits, missing columns and ragged rows in combination are not reached.",
 ["mat/mat.go","mat/mat_io.go"],
 [("row builders","mat/mat_io.go recordsToDenseMat, recordsToCSRMat"),("line parsers","readFromCsv, readFromLibsvm"),("array constructors","mat/mat.go")])
p("C22","Files are closed and failed writes are reported",
 "Every file a loader or writer opens is closed on every path, and nothing else is done with it afterwards. Writing a matrix returns an error whenever any part of it could not be formatted, written, flushed or closed, and writes every value once, with all its digits, rows in order.",
 ["fault_sequences","inputs"],"all paths through the file functions, every failing write, flush or close",
 "Tests never see a full disk or a failing writer and do not count open files.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","mat/mat_io.go"],
 [("deferred close","*FromFile"),("write, flush, close errors","mat/mat_io.go WriteStr, ToCsvFile")],obs=["returned error"])
p("C23","Model metadata agrees with what prediction uses",
 "The reported numbers of features, outputs, raw outputs and trees are the ones prediction works with and the file states: features are the largest feature index plus one (or the stated number), trees per output are all trees divided by outputs. The reported name is that of the model type in the file.",
 ["inputs","configurations"],"all models, transformations and views",
 "Tests check metadata of a few models; disagreement shows for models with one feature, several outputs or no split on the last feature.",
 ["leaves.go"]+MODELS+["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go"],
 [("metadata methods","NFeatures, NEstimators, NRawOutputGroups, NOutputGroups, Name"),("values stored by the loaders","loaders")],obs=["Ensemble.NFeatures","Ensemble.NEstimators","Ensemble.NOutputGroups","Ensemble.Name"])
p("C24","Predictions agree numerically with the reference libraries",
 "For a model saved by LightGBM, XGBoost or scikit-learn, predictions of leaves agree with the predictions of that library on the same data up to rounding.",
 ["inputs","configurations"],"all models and data",
 "Tests compare stored reference predictions for a few models and a few hundred rows.",
 MODELS+["lgtree.go"],[("whole prediction path","leaves.go")])
p("C25","Malformed input never crashes a loader or exhausts memory",
 "For every byte sequence, a loader terminates with a model or an error; it does not panic and allocates no more memory than a fixed multiple of the input's size.",
 ["inputs"],"all byte sequences",
 "Tests load well-formed files only.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","internal/xgbin/xgbin_io.go","internal/pickle/"],[("size and index checks","loaders")])
p("C26","Loading depends only on the input and shares nothing between loads",
 "What a loader, matrix reader or writer returns or writes depends only on its arguments and the bytes of the stream or file it is given: no clock, environment, random number, memory address or map order takes part. No call changes a package variable, so nothing is left over from an earlier load, and models and matrices can be loaded at the same time by any number of goroutines.",
 ["inputs","histories","schedules"],"every exported function that loads, reads, decodes or writes; every sequence and interleaving of calls",
 "Tests load files one after another and compare with stored values once; state left over shows only when certain files follow each other or are loaded concurrently, and map order only by chance.",
 ["lgensemble_io.go","xgensemble_io.go","xgblinear_io.go","skensemble_io.go","internal/xgbin/xgbin_io.go","internal/pickle/","mat/","util/util.go"],
 [("loaders allocate what they return","*FromReader, *FromFile"),("decoders keep their state in a value of their own","internal/pickle/decoder.go, machine.go"),("read-only tables","util/util.go multiplyDeBruijnBitPosition")],
 obs=["returned model or matrix","package variables"])
p("C27","Comparison helpers find every difference beyond the threshold",
 "Two numbers match if they are equal or differ by at most the threshold, and do not match if they differ by more or one of them alone is NaN. The slice comparison returns an error exactly if the lengths differ or some pair at the same position does not match, and the counting form returns the number of pairs that do not match, or an error if the lengths differ.",
 ["inputs"],"all numbers including infinities and NaN, all slices, thresholds that are not negative",
 "The helpers decide whether the other tests pass; a difference they miss (NaN, the first or last element, a border value) makes wrong predictions look right.",
 ["util/util.go"],
 [("comparison helpers","util/util.go AlmostEqualFloat64, AlmostEqualFloat64Slices, NumMismatchedFloat64Slices")],obs=["returned error or count"])
for x in P:
    assert len(x["title"])<=80,(x["id"],len(x["title"]))
    n=x["statement"].count(". ")+1
    assert n<=3,(x["id"],n)
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
print(len(P))
