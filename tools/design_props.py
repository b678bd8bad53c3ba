"""Per property: what is encoded, against what oracle, and what that reaches. Source of DESIGN.md."""
TEXT = {
"C01": ("`array.regrid` / `interpolate` with a local inventory whose npz weights are symbolic reals; fields with symbolic values in every memory layout.",
        "the product written out in the harness as sums `w[i,j]*x[j]`, with x in row-major order; inputs and stored weights compared before and after; results overwritten.",
        "an order='A'/'K' flattening, a transposed product, an in-place update or shared buffer shows for one layout only."),
"C02": ("the index reader and lookup over `index.json` files with symbolic grid numbers, methods, engine and index versions in every order.",
        "the request must be answered with the weights of an entry that matches in all three parts; when none does, ValueError.",
        "a wrong-direction match, prefix matches of method names or an entry that hides later ones need specific pairs of entries."),
"C03": ("`GridSpec.from_dict(a) == GridSpec.from_dict(b)` with symbolic reals/ints for increments, area, scan, shape, global.",
        "a reference predicate in the harness, derived from the documented meaning (set of points + scanning order); split into *must match* and *must not match* with dead bands between.",
        "the deviation has to be found among 12 real numbers, e.g. areas shifted by 360 or equal increments in only one direction."),
"C04": ("the same for reduced Gaussian descriptions, including names as symbolic strings and latitudes of the first row computed by the code.",
        "reference predicate on family, number, extents; must / must-not with dead bands.",
        "bands around the whole circle, near-polar edges and longitude spellings."),
"C05": ("classification and equality for every string of printable characters up to the bound (z3 strings of symbolic characters; the regular expressions in the source are compiled on each run).",
        "a reference grammar of the families written in the harness.",
        "all ~10^9 names of 5 characters are decided, not ten."),
"C06": ("requests with symbolic descriptions in pairs of spellings; the same request after other requests in the process; the dictionaries compared with snapshots.",
        "equal denotation gives equal outcome; snapshot equality; the grid handed back equals the one requested.",
        "mutation of nested lists or shared defaults shows only in a later request."),
"C07": ("histories of requests, clears with symbolic sizes, estimates and limits under all policies; sizes come from npz files whose CSR arrays report a symbolic `nbytes`.",
        "sums computed in the harness from what was loaded; `info()` after each operation.",
        "needs sizes and limits in a particular order relation, which z3 finds."),
"C08": ("request histories over two inventories, methods and grids with symbolic numbers, weights and limits.",
        "each answer is the weight its own inventory holds.",
        "key collisions between requests that differ in one component."),
"C09": ("request histories and a final shrink of the limit.",
        "a reference LRU / largest-first cache in the harness; the matrices still held are determined by which requests load a file again.",
        "order of recency after hits, ties at the limit, switches of policy."),
"C10": ("requests in strict and non-strict mode with estimates independent of sizes.",
        "refused iff (strict and the estimate exceeds the limit); state compared before and after the refusal.",
        "boundary equality and leftovers of a refused request."),
"C11": ("sequences of configuration changes through every documented form, with requests in between.",
        "a stack of configurations kept by the harness; `info()` and loads must agree with the one in force.",
        "restoring through exceptions, changes that arrive while a context is open."),
"C12": ("the cache's creation path with a process death at any of its durable effects, or a failing creator, then a new process.",
        "what is returned equals the complete output of one run of the creator; a completed item is not created again; errors propagate.",
        "every crash point is an explored branch, for files and directories, plain and forced."),
"C13": ("histories of requests and limit changes with symbolic sizes (the database sums them symbolically), own and foreign files, stale `.tmp` files.",
        "a reference list by recency; the removed set is exactly the minimal prefix needed.",
        "order relations among sizes, access times and limits."),
"C14": ("histories including purges with symbolic thresholds, surrounded by sentinels inside and outside the directory, symbolic links, look-alike path prefixes, a copied database.",
        "sentinels untouched; exactly the matching entries removed. Destructive calls are confined: the file operations run in a scratch directory and every path outside it is refused and recorded.",
        "deletions outside the directory need a path shape no test uses."),
"C15": ("pairs of requests with symbolic arguments of many shapes.",
        "same file iff equal (owner, arguments, extension), SHA-256 taken as injective on its input bytes.",
        "ambiguous serialisation (e.g. joined strings) needs two colliding arguments, which z3 finds."),
"C16": ("histories with files removed from outside, purges and crashes.",
        "a table kept by the harness against `size()`, `num_entries()`, `entries()`, `summary_dump()`.",
        "counts drift only after forced or failed creations."),
"C17": ("the url accessor with a stand-in for the download library that keeps remote versions, with symbolic weights, failing downloads at any place and process restarts.",
        "a reference of what may be downloaded and which version must be used after each step.",
        "network needed in tests; failures in between never exercised."),
"C18": ("the conversion functions on every text up to the bound (symbolic characters) and through the configuration.",
        "a reference parser in the harness, exact in rationals.",
        "all units, cases, spaces and malformed texts at once."),
"C19": ("each setting with each layer present or not, symbolic values, valid or invalid, and calls with several settings.",
        "precedence env > inner > outer > user > default computed by the harness; after an error everything as before, no notification.",
        "partial application shows only for invalid values at particular places."),
"C20": ("sequences of entering, setting, leaving, failing; a subscriber failing at any notification.",
        "stack of configurations kept by the harness; notifications after values are visible.",
        "needs failure at one particular notification."),
"C21": ("sequences of operations on a configuration file, then a new process.",
        "what was set (and nothing else) is read.",
        "environment or temporary values leaking into the file need a particular order of operations."),
"C22": ("the binary stream decoder on symbolic bytes in both byte orders (`struct` and `numpy.frombuffer` modelled), truncated at every length, with corrupt tags.",
        "the matrix written by the harness' encoder; rejections for damaged streams.",
        "every header value and truncation."),
"C23": ("inventories written by the builder with symbolic grid numbers and weights, then read through `array.regrid`.",
        "each entry answers with its own matrix; others are rejected; both orders give the same.",
        "name collisions, entries overwritten."),
"C24": ("`regrid`/`array.regrid`/`interpolate` with each subset of options and symbolic values, into recording stand-ins of the backends.",
        "the job received holds exactly the options given.",
        "one dropped option for one data kind."),
"C25": ("field lists and single fields with symbolic values, real earthkit-data fields.",
        "field by field results of array regridding; metadata of each field.",
        "orders and metadata mixed up between fields."),
"C26": ("DataArrays and Datasets with symbolic values (numpy object arrays under real xarray).",
        "slice by slice reference with explicit indexing.",
        "dimension orders and sizes where a wrong transposition is shape compatible."),
"C27": ("two threads with symbolic preemption points and symbolic sizes, limits.",
        "answers alone equal answers together; cache invariants afterwards; no deadlock; no third party disturbed.",
        "all schedules with the stated number of preemptions."),
"C28": ("two threads requesting from the disk cache, preempted at any statement or disk effect.",
        "created once, both receive the complete file.",
        "all schedules with the stated number of preemptions."),
"C30": ("`mir_make_matrix` with a stand-in for MIR that records the request, reads the griddef file and writes a weights file; failing writes; shared cache directory.",
        "the coordinates in the file and the options of the job equal those given; outputs decoded and compared.",
        "reuse of a stale griddef file needs two requests; failures at one step."),
}
