"""Source of properties.jsonl (run: python3 tools/props.py)."""
import json
import os

S = "src/earthkit/regrid/"
P = []


def prop(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    assert len(title) <= 80, (id, len(title))
    P.append(
        {
            "id": id,
            "title": title,
            "statement": " ".join(statement.split()),
            "quantifier": {"over": over, "text": text},
            "why_tests_cant": why,
            "anchors": {
                "files": [f if f.startswith("tests") else S + f for f in files],
                "state": [dict(zip(("name", "meaning", "where"), s)) for s in state],
                "mechanism": [dict(zip(("name", "where"), m)) for m in mech],
                "observe_at": list(observe),
                "hook_needed": None,
            },
        }
    )


I, H, C, F, X, SCH = "inputs", "histories", "configurations", "fault_sequences", "crash_points", "schedules"

prop(
    "C01",
    "Precomputed regridding applies exactly the stored weights",
    """Regridding an array with a local inventory of precomputed weights returns, for every field and every weights matrix, the product of
    the stored weights with the field flattened in row-major order, reshaped to the stored output shape, together with the requested
    output grid. The input array is never modified, and results of separate calls are independent of each other: overwriting one
    changes neither the stored weights nor another result.""",
    [I],
    "all weights, field values, shapes and memory layouts (C, Fortran, transposed, strided, reversed views)",
    "tests compare a handful of stored fields on fixed C-contiguous arrays; the flattening order, aliasing and mutation for other layouts "
    "and weights are never exercised",
    ["backends/precomputed.py", "backends/db.py", "array/regrid.py", "data/numpy.py", "interpolate.py"],
    [("MatrixDb.find + sparse product + reshape", S + "backends/db.py, backends/precomputed.py")],
    observe=["earthkit.regrid.array.regrid", "earthkit.regrid.interpolate"],
)
prop(
    "C02",
    "An inventory lookup returns exactly the entry that was asked for",
    """For a request (input grid, output grid, interpolation method) the precomputed backend uses weights whose inventory entry has an
    equal input grid, an equal output grid and the same method, with input and output never swapped, whatever the order of the entries;
    a request without such an entry is rejected with ValueError rather than answered with other weights. Method aliases (nn,
    nearest-neighbor) mean nearest-neighbour, entries with an unsupported grid are skipped without hiding the others, and an index of an
    incompatible version is refused.""",
    [I, C],
    "all inventories (entries, order, grids, methods, engine versions, index versions) and all requests",
    "the tests use one fixed inventory in one order with a few requests",
    ["backends/db.py", "gridspec.py"],
    [("MatrixIndex.find, MatrixDb.find_entry", S + "backends/db.py")],
    observe=["earthkit.regrid.array.regrid(backend='precomputed', inventory=dir)"],
)
prop(
    "C03",
    "Regular lat-lon gridspecs match iff they denote the same points",
    """Two regular latitude-longitude grid descriptions are treated as equal exactly when they denote the same set of points in the same
    scanning order: same increments and same area within the documented tolerances, with the longitudes of global grids compared modulo 360, an omitted
    area meaning the global grid of those increments, and optional keys that are given (scanning, shape, global) consistent. Equality is
    symmetric and never confuses grids of different increments, extents or scanning.""",
    [I],
    "all increments, areas, longitude offsets, scanning flags, shapes and ways of writing them",
    "tests compare a few dozen literal pairs; tolerance, modulo-360 and rounding behaviour for other values is not reached",
    ["gridspec.py"],
    [("RegularLLGridSpec.__eq__, is_same_ew/ns, global detection", S + "gridspec.py")],
    observe=["GridSpec.from_dict(a) == GridSpec.from_dict(b)"],
)
prop(
    "C04",
    "Reduced Gaussian gridspecs match iff they denote the same grid",
    """Two reduced Gaussian grid descriptions are treated as equal exactly when they name the same grid family and number and describe the
    same area (omitted or any spelling of the full globe meaning global, longitudes of global grids modulo 360) and their optional keys agree. A regional
    subset never matches a global grid or a different region, and equality is symmetric.""",
    [I],
    "all grid names, numbers, areas and optional keys",
    "tests compare a few literal pairs",
    ["gridspec.py"],
    [("ReducedGGGridSpec.__eq__", S + "gridspec.py")],
    observe=["GridSpec.from_dict(a) == GridSpec.from_dict(b)"],
)
prop(
    "C05",
    "Named grids are classified correctly and match by identity",
    """A grid name (O/N followed by a number, H followed by a number, ORCA names) is recognised as reduced Gaussian, HEALPix or ORCA exactly
    when it is spelled in that family's form, regardless of letter case, and other names are rejected with ValueError. HEALPix grids match
    only with the same number and the same ordering (ring when omitted, 'order' and 'ordering' being synonyms; an unknown ordering is
    rejected), ORCA grids only with the same resolution, type and subtype, and grids of different families never match.""",
    [I],
    "every grid name and ordering string",
    "tests use about ten names",
    ["gridspec.py"],
    [("GridSpec.from_dict type inference, HealpixGridSpec, ORCAGridSpec", S + "gridspec.py")],
    observe=["GridSpec.from_dict"],
)
prop(
    "C06",
    "Grid descriptions are plain values: never modified, spelling independent",
    """A grid description passed by the user is never modified, and the outcome of a regridding request depends only on what the
    descriptions denote: not on key order, list versus tuple, int versus float, letter case of the name, defaults spelled out, or grids
    handled earlier in the process.""",
    [I, H],
    "all descriptions, spellings and histories of earlier requests",
    "tests use fresh literal dictionaries in one spelling and one order",
    ["gridspec.py", "backends/db.py", "backends/precomputed.py"],
    [("GridSpec normalisation", S + "gridspec.py")],
    observe=["GridSpec.from_dict", "earthkit.regrid.array.regrid"],
)
prop(
    "C07",
    "The in-memory matrix cache stays within its memory budget",
    """After every successful regridding call the matrices held by the in-memory cache total at most the configured maximum-matrix-memory
    (policies lru and largest), and nothing at all is held with policy off. The reported usage always equals the true size of the
    matrices held, the entry count is the number of distinct matrices held, and hits plus misses equals the number of lookups since the
    last clear.""",
    [H, C],
    "all sequences of requests over matrices of any sizes, limits, policies and interleaved clears and policy changes",
    "tests use two or three fixed matrices and two limits",
    ["utils/memcache.py", "backends/db.py"],
    [("MatrixCachePolicy.reduce/check, MatrixCache.get", S + "utils/memcache.py")],
    [("curr_mem", "total size of the cached matrices", S + "utils/memcache.py")],
    ["earthkit.regrid.utils.memcache.MEMORY_CACHE.info()"],
)
prop(
    "C08",
    "The in-memory cache never changes a result",
    """For every sequence of requests, whatever policy, limit or earlier requests (including requests to other inventories, other
    interpolation methods, or grids that only differ in one key), the matrix used for a request is the one its own inventory holds for
    it: results are equal to those obtained with the in-memory cache off. Failed lookups leave nothing behind that changes a later
    result.""",
    [H, C],
    "all request sequences over several inventories and policies",
    "tests always query one inventory per process state and compare values for a fixed sequence",
    ["utils/memcache.py", "backends/db.py"],
    [("cache key of MatrixCache.get", S + "utils/memcache.py")],
    observe=["earthkit.regrid.array.regrid"],
)
prop(
    "C09",
    "In-memory cache evicts in the documented order and only as needed",
    """When the in-memory cache must make room, policy 'lru' removes least recently used matrices first and policy 'largest' removes the
    largest first. Matrices are removed only while the limit is exceeded, policy 'unlimited' never removes anything, and a matrix that is
    still held is served without loading it again.""",
    [H, C],
    "all request histories, matrix sizes and limits",
    "tests check two fixed histories",
    ["utils/memcache.py"],
    [("LRU/Largest policies", S + "utils/memcache.py")],
    observe=["number of loads of each matrix", "MEMORY_CACHE.info()"],
)
prop(
    "C10",
    "Strict mode refuses only what cannot fit; non-strict mode always answers",
    """With strict mode on, a request whose matrix exceeds the memory limit as estimated from the inventory fails with ValueError, before
    the matrix is loaded and leaving the cached matrices and the reported usage unchanged; any matrix that fits the limit is served. With
    strict mode off every request is answered correctly even if its matrix is larger than the limit.""",
    [H, C],
    "all matrix sizes, estimates, limits and cache contents",
    "tests use one fixed oversized matrix",
    ["utils/memcache.py", "backends/db.py"],
    [("check()/strict", S + "utils/memcache.py")],
    observe=["earthkit.regrid.array.regrid", "MEMORY_CACHE.info()"],
)
prop(
    "C11",
    "The in-memory cache follows the configuration",
    """Every change of matrix-memory-cache-policy, maximum-matrix-memory or strict mode (by set, temporary contexts, nested contexts and
    their exits, also through exceptions) is in force for the next request and only until it is changed or the context is left.
    Switching policy or limit never serves a stale or wrong matrix and immediately respects the new limit.""",
    [H, C],
    "all sequences of configuration changes and requests",
    "tests change one setting at a time",
    ["utils/memcache.py", "utils/config.py"],
    [("MatrixCache.update, CONFIG.on_change", S + "utils/memcache.py")],
    observe=["MEMORY_CACHE.info()", "regrid results"],
)
prop(
    "C12",
    "A cached file is published complete or not at all",
    """A file obtained from the disk cache is always the complete output of its creator: if creation raises, or the process dies at any
    point, the next request for the same item creates it again (never returning partial content), and an item that was published
    completely is returned without creating it again. A failed creation propagates its error and leaves the cache usable.""",
    [X, F, H],
    "every crash point and every creation failure, followed by any later request",
    "tests only create files successfully",
    ["utils/caching.py"],
    [("create to .tmp then os.rename, FileLock", S + "utils/caching.py cache_file")],
    observe=["cache_file return value and file content"],
)
prop(
    "C13",
    "Disk cache limits are enforced by least recent use, protecting current use",
    """Whenever an item is added, its creation fails, or the limit changes, the disk cache removes items until its total size is within
    maximum-cache-size (or the disk usage within maximum-cache-disk-usage): orphans first, then least recently used ones; it never removes
    more recently used items while older ones would suffice, and never the item just created and handed out (which alone may remain over the
    limit). With no limit set nothing is removed.""",
    [H, C],
    "all histories of accesses, item sizes and limits",
    "tests check one or two fixed sequences",
    ["utils/caching.py"],
    [("_check_cache_size, _housekeeping, _decache", S + "utils/caching.py")],
    observe=["files in the cache directory"],
)
prop(
    "C14",
    "The disk cache only ever deletes its own entries",
    """No cache operation (limit enforcement, purge, registering or deleting entries) removes or renames a file outside the cache directory;
    inside it, which the cache owns, only its own entries and orphans older than two minutes are removed. Purging with a matcher removes
    exactly the entries that match, and purging without removes all entries.""",
    [H, I],
    "all cache contents, matchers and paths",
    "tests purge one fixed cache",
    ["utils/caching.py"],
    [("file_in_cache_directory, _purge_cache, _delete_file", S + "utils/caching.py")],
    observe=["file system"],
)
prop(
    "C15",
    "Distinct cache items never share a file",
    """Two requests to the disk cache get the same file exactly when owner, arguments (including their key/value structure, order of keys
    aside) and extension are equal; different items get different files in every policy. With caching off each request gets its own
    temporary file and nothing is stored in a cache directory.""",
    [I, C],
    "all pairs of owners, arguments and extensions",
    "tests use a few literal arguments",
    ["utils/caching.py"],
    [("path = owner-sha256(args)extension", S + "utils/caching.py cache_file")],
    observe=["cache_file"],
)
prop(
    "C16",
    "Disk cache bookkeeping agrees with the files",
    """The size, entry count and entries reported by the disk cache describe the files in the cache directory: each completed item
    once, with its real size, owner and arguments, and access counts that increase by one per request; a file that has been removed from
    outside is not listed and is created again on request (its size may be counted until then).""",
    [H],
    "all histories of creation, access, external removal and purge",
    "tests check one fixed sequence",
    ["utils/caching.py"],
    [("_register_cache_file, _update_cache, _summary_dump_cache_database", S + "utils/caching.py")],
    observe=["CACHE.size(), CACHE.num_entries(), CACHE.entries(), CACHE.summary_dump()"],
)
prop(
    "C17",
    "Remote index and matrices are refetched exactly when out of date",
    """The index of the remote inventory is downloaded when none is cached; a request that is found in it causes no further traffic for
    the index, and one that is not found makes its checksum be compared and the index be downloaded again exactly when it differs; lookups
    then use the new index. A matrix is downloaded once, and again exactly when the remote copy has changed and the configuration asks for
    checking. After a failed download nothing partial is used, and a later request tries again.""",
    [H, F],
    "all sequences of remote changes and requests",
    "needs network in the tests; never exercised",
    ["backends/db.py", "utils/download.py", "utils/caching.py"],
    [("UrlAccessor, force", S + "backends/db.py, utils/download.py")],
    observe=["index and matrix files used"],
)
prop(
    "C18",
    "Quantities given as text mean what they say",
    """Byte sizes, durations and percentages given as text (with any documented unit suffix, letter case, fractional part where
    allowed, surrounding spaces) or as numbers convert to exactly the stated amount: a unit multiplies by its documented power of 1024 or
    number of seconds. Malformed text is rejected with an error rather than given another meaning, and None and numbers pass through.""",
    [I],
    "every text up to the bounds",
    "tests convert about a dozen literals",
    ["utils/humanize.py", "utils/config.py"],
    [("as_bytes, as_seconds, as_percent", S + "utils/humanize.py")],
    observe=["humanize.as_*", "CONFIG.set"],
)
prop(
    "C19",
    "Configuration values have the documented precedence and validation",
    """The value of a setting is the one from its environment variable if set, else the innermost temporary context that sets it, else the
    value set by the user, else the default, always converted to the setting's type and validated. An unknown name or invalid value is
    rejected with an error and changes nothing: no setting given in the same call is applied, saved or notified.""",
    [H, C, I],
    "all sequences of set/reset/temporary/environment values for all settings",
    "tests cover a few settings singly",
    ["utils/config.py"],
    [("Config.get/set, validators", S + "utils/config.py")],
    observe=["config.get/set", "subscribers"],
)
prop(
    "C20",
    "Temporary configurations are always undone and changes always notified",
    """Leaving a temporary configuration, normally, through an exception or because a subscriber fails, restores exactly the configuration
    in force before it, for any nesting. Every effective change, including entering and leaving a temporary configuration, is notified to
    every subscriber after the new values are visible.""",
    [H, F],
    "all nestings, exceptions and subscriber failures",
    "tests nest one level and never fail in a subscriber",
    ["utils/config.py"],
    [("temporary()/new_config, _notify", S + "utils/config.py")],
    observe=["config.get, config.on_change callbacks"],
)
prop(
    "C21",
    "Saved configuration is read back unchanged",
    """With auto-save on, what is set is what a new process reads from the configuration file, and nothing that was not set (environment
    values, temporary values, defaults) is written as a user setting. Saving to and loading from a file round-trips every setting, reset
    returns every setting to its default, and loading an invalid file changes nothing.""",
    [H, C],
    "all setting values and sequences of set, save, reset and load",
    "tests save and load one or two settings",
    ["utils/config.py"],
    [("_save, _load, save_config_file", S + "utils/config.py")],
    observe=["config file", "config.get after reload"],
)
prop(
    "C22",
    "Weights exported from MIR are decoded to the same sparse matrix",
    """A weights matrix in the binary stream format written by MIR is decoded to a CSR matrix with exactly the written shape, row pointers,
    column indices and values, for either byte order of the stream header. A stream that is truncated, has a wrong type tag or unknown
    item sizes, or holds fewer row pointers, indices or values than its shape and row pointers need is rejected with an error rather than decoded
    to a different matrix. Converting a stream to an npz file keeps the matrix.""",
    [I, F],
    "all matrices within bounds and every truncation or corrupted tag",
    "tests decode two fixed files",
    ["utils/stream.py", "utils/mir.py"],
    [("Stream decoder, mir_make_matrix", S + "utils/stream.py, utils/mir.py")],
    observe=["utils.mir reading of matrix files"],
)
prop(
    "C23",
    "An inventory written by the builder is read back as written",
    """A local inventory written with the inventory builder answers a request for each of its entries with the matrix and output shape it was
    built from, and answers no other request; adding entries keeps the earlier ones, and building does not depend on the order of
    entries.""",
    [I, H],
    "all sets and orders of entries within bounds",
    "one test builds one fixed inventory",
    ["utils/builder.py", "backends/db.py"],
    [("make_entry / index.json", S + "utils/builder.py")],
    observe=["earthkit.regrid.array.regrid with the built inventory"],
)
prop(
    "C24",
    "A request is answered by exactly the backend and options it names",
    """regrid() runs exactly the backend (and inventory) named in the call, with the interpolation and options given forwarded to it
    unchanged and no option dropped or invented; an unknown backend or data type is rejected. The deprecated interpolate() selects the
    precomputed backend with the same meaning, and backends created for one inventory never serve another.""",
    [I, H],
    "all combinations of data kind, backend, inventory, method and options, in any sequence",
    "tests call a few fixed combinations; MIR-dependent tests are skipped without it",
    ["regrid.py", "array/regrid.py", "backends/__init__.py", "backends/mir.py", "backends/precomputed.py", "data/handler.py"],
    [("get_backend, get_data_handler, MirBackend options", S + "backends/, data/")],
    observe=["calls received by the backend"],
)
prop(
    "C25",
    "Field lists are regridded field by field, keeping order and metadata",
    """Regridding a field list or a single GRIB-like field returns one field per input field in the same order, with the values equal to
    those obtained by regridding that field's array alone and metadata describing the output grid. The source grid is taken from the field
    itself; input fields are not modified, and a list that cannot be regridded is rejected as a whole.""",
    [I],
    "all field values and list lengths within bounds",
    "tests need sample data and use one field",
    ["data/fieldlist.py", "data/grib.py"],
    [("FieldListDataHandler", S + "data/fieldlist.py")],
    observe=["earthkit.regrid.regrid(fieldlist)"],
)
prop(
    "C26",
    "Xarray regridding only changes the spatial dimensions",
    """Regridding an xarray DataArray or Dataset equals regridding each horizontal slice on its own: every other dimension, coordinate,
    variable, attribute and name is kept in place and order, the output latitude/longitude coordinates are those of the output grid, and a
    gridspec attribute, if there is one, describes the result. The result type holds interpolated values, the input object is not modified,
    and a variable without the spatial dimensions is left alone or the Dataset rejected.""",
    [I, C],
    "all values, dimension orders and variable sets within bounds",
    "tests need sample data and use one dataset layout",
    ["data/xarray.py"],
    [("XarrayDataHandler, apply_ufunc", S + "data/xarray.py")],
    observe=["earthkit.regrid.regrid(dataset)"],
)
prop(
    "C27",
    "The in-memory cache is correct under concurrent requests",
    """Requests running concurrently in several threads return the results they would return alone, and once they are done the cache
    invariants hold: usage equals the size of the matrices held and is within the limit. No interleaving loses a lock or deadlocks.""",
    [SCH],
    "all interleavings of two threads' cache operations within bounds",
    "tests are single threaded",
    ["utils/memcache.py"],
    [("MatrixCache lock", S + "utils/memcache.py")],
    observe=["regrid results, MEMORY_CACHE.info()"],
)
prop(
    "C28",
    "The disk cache is correct under concurrent requests",
    """When several threads request the same item at once it is created at most once and all of them receive the complete file; requests
    for different items do not disturb each other.""",
    [SCH],
    "all interleavings of two requesters within bounds",
    "tests are single threaded",
    ["utils/caching.py"],
    [("FileLock and double check", S + "utils/caching.py")],
    observe=["cache_file"],
)
prop(
    "C29",
    "MIR regridding is numerically the interpolation it is asked for",
    """Regridding with the MIR backend returns the values the named interpolation method defines for the input field and output grid.""",
    [I],
    "all fields, grids and methods",
    "needs the native library; tests compare a few reference fields",
    ["backends/mir.py"],
    [("mir.Job", S + "backends/mir.py")],
)
prop(
    "C30",
    "A matrix is requested from MIR for exactly the grids and coordinates given",
    """Making a matrix with MIR passes on exactly the input and output grids or coordinates and the options given; the griddef file handed
    to MIR holds exactly the given coordinates, also when its cache directory is shared with other coordinates or with an interrupted run.
    Mismatched or empty coordinates and wrong combinations of arguments are rejected without running MIR. The matrix made is written in the
    requested format or returned; a run of MIR that fails leaves nothing that a later request takes for a matrix.""",
    [I, F, H, X],
    "all coordinates, argument combinations and failures within bounds, in sequences of requests",
    "MIR is not available to most tests; the one example uses fixed grids",
    ["utils/mir.py"],
    [("mir_make_matrix, griddef files", S + "utils/mir.py")],
    observe=["the request received by MIR, the files written"],
)
prop(
    "C31",
    "The disk cache is where and as large as the configuration says",
    """After every sequence of changes of the cache policy, the directory settings and the limits (set, or by entering and leaving temporary
    configurations), the next request uses the directory in force: the user cache directory (with ~ expanded), or a private directory below
    the root set for temporary ones. It stays there while nothing relevant changes, items of a user directory are found again on return, no
    other directory is touched, and the limits in force apply.""",
    [C, H],
    "all sequences of configuration changes of bounded length, all sizes and limits within bounds",
    "tests use one directory per process",
    ["utils/caching.py"],
    [("CachePolicy.outdated/update", S + "utils/caching.py"), ("Cache._config_changed", S + "utils/caching.py")],
    observe=["cache_file, CACHE.cache_directory()"],
)

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps(p) + "\n")
