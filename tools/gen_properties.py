"""Generates properties.jsonl (kept as code so that statement edits stay reviewable)."""
import json, os
S = "src/earthkit/regrid/"
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=[S + f if not f.startswith(("docs", "tools")) else f for f in files],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            mechanism=[dict(name=n, where=w) for n, w in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Precomputed regridding applies exactly the matching stored weights",
 "Regridding an array with the precomputed backend returns the stored weight matrix of the inventory entry matching input grid, output grid and method, applied to the flattened input and reshaped to the target shape recorded for that entry, together with the requested target grid, for every inventory content and every finite or missing input value. "
 "The caller's array is not modified. "
 "A request with no matching entry, or an array of the wrong size, raises ValueError and never yields a result.",
 ["inputs", "programs"], "all inventories (generated entries, grids, matrices, methods), all input arrays (shape 1D/2D, memory order, dtype, NaN/inf) and all requests",
 "Existing tests use one 17-entry inventory and a few fixed arrays; the claim ranges over every inventory content and input array.",
 ["backends/precomputed.py", "backends/db.py", "array/regrid.py", "data/numpy.py"],
 [("weights lookup and sparse product", S+"backends/precomputed.py:regrid"), ("entry matching", S+"backends/db.py:MatrixIndex.match")],
 ["earthkit.regrid.array.regrid(..., backend='precomputed', inventory=...)"])

prop("C02", "Precomputed results do not depend on earlier calls, caches or inventories",
 "The result of a precomputed regrid depends only on its arguments and the content of the inventory it names: after any history of other regrids (same grids from other inventories included), cache clears and memory/disk-cache configuration changes, the same call returns the same values. "
 "Modifying an array returned earlier, or an input after the call, never changes a later result.",
 ["histories", "configurations"], "all interleavings of regrid calls over several inventories with cache policy/size/strict changes, cache clears and in-place mutation of inputs and results",
 "Tests reset the configuration around single calls against one inventory; the interference appears only in particular call histories.",
 ["utils/memcache.py", "backends/__init__.py", "backends/precomputed.py", "backends/db.py"],
 [("in-memory weights cache key", S+"utils/memcache.py:MemoryCache.get"), ("backend object cache", S+"backends/__init__.py:BackendMaker"), ("inventory selection", S+"backends/precomputed.py:get_db")],
 ["earthkit.regrid.array.regrid"], [("MEMORY_CACHE", "process-wide matrices by request", S+"utils/memcache.py"), ("BACKEND_OBJECTS", "process-wide backend objects", S+"backends/__init__.py")])

prop("C03", "The in-memory weights cache obeys its policy, limit and accounting",
 "After every regrid or configuration change the reported statistics (hits, misses, limit, bytes, count, policy) equal the true content of the in-memory weights cache: off keeps nothing, unlimited never evicts, lru and largest never stay above the configured maximum and evict least-recently-used respectively largest matrices first and no more than needed. "
 "With the pre-check, matrices whose recorded size exceeds the free room trigger eviction before loading, and in strict mode a matrix that cannot fit raises ValueError leaving the cache consistent, while in non-strict mode the regrid still succeeds.",
 ["histories", "configurations"], "all sequences of requests over matrices of different sizes, policy switches, limit changes, strict mode on/off and clears",
 "Tests walk a handful of fixed request orders with two or three matrices; ordering, limit and switch combinations are unbounded.",
 ["utils/memcache.py", "utils/matrix.py", "backends/db.py"],
 [("eviction policies", S+"utils/memcache.py:LRUPolicy.reduce, LargestPolicy.reduce"), ("pre-check", S+"utils/memcache.py:_create_with_pre_check"), ("config callback", S+"utils/memcache.py:update")],
 ["earthkit.regrid.memory_cache_info()", "earthkit.regrid.clear_memory_cache()", "earthkit.regrid.config"],
 [("items/curr_mem/hits/misses", "cache content and counters", S+"utils/memcache.py:MemoryCache")])

prop("C04", "Equivalent spellings of a grid find the same weights",
 "Two gridspecs that describe the same grid - letter case of reduced Gaussian and HEALPix grid names, tuple or list, float noise below 1e-6 in the increments, explicit type, explicit default scanning flags, explicit or omitted shape, default healpix order, the order/ordering key, and for global lat-lon grids whose increments divide the circle any equivalent way of writing the full-globe area (longitudes shifted by whole turns, east limit given as last point or as the full circle) - select the same inventory entry. "
 "Equality of gridspecs is reflexive and symmetric.",
 ["inputs"], "all supported grid types, resolutions and combinations of equivalent spellings on the request side and the inventory side",
 "Tests list about two dozen fixed spellings of one or two grids.",
 ["gridspec.py", "backends/db.py"],
 [("gridspec normalisation and comparison", S+"gridspec.py:GridSpec.from_dict, __eq__, LLGridSpec.__eq__, ReducedGGGridSpec.__eq__")],
 ["GridSpec.from_dict(a) == GridSpec.from_dict(b)", "MatrixDb.find_entry", "earthkit.regrid.array.regrid"])

prop("C05", "Weights of a different grid are never used",
 "A request whose input or output grid differs from an inventory entry in kind of grid, resolution, healpix ordering, ocean-grid name, scanning direction, shape, north/south limits, or in the west-east extent of a limited-area grid never selects that entry: it selects another, truly matching entry or fails with ValueError. "
 "This holds for each single difference as well as for any combination of them.",
 ["inputs"], "all pairs of grids that differ in at least one distinguishing attribute, both as input and as output grid, and all interpolation methods",
 "Tests cover under twenty fixed negative examples; a wrong match silently yields wrong numbers and can hide in any attribute.",
 ["gridspec.py", "backends/db.py"],
 [("gridspec comparison", S+"gridspec.py"), ("entry match", S+"backends/db.py:MatrixIndex.match")],
 ["GridSpec equality", "earthkit.regrid.array.regrid raising ValueError"])

prop("C06", "Inventory index: supported entries usable, foreign entries ignored",
 "For every index file of the supported version, each entry with supported grids is found under its own grids and method (by its canonical name and by every documented alias), the first matching entry wins, and entries with unknown or malformed grids are ignored without affecting others. "
 "An index of any other version is rejected with ValueError. "
 "A subset or raw copy of the index written to a new inventory, with its matrix files copied, regrids exactly as the original does for the selected entries.",
 ["inputs", "programs"], "all index files mixing supported, unsupported and malformed entries, method given as string or dictionary, and all filters",
 "Tests use one index with one unsupported entry.",
 ["backends/db.py", "gridspec.py"],
 [("index load", S+"backends/db.py:MatrixIndex.load"), ("lookup", S+"backends/db.py:MatrixIndex.find"), ("alias", S+"backends/db.py:MatrixDb._method_alias"), ("subset/export", S+"backends/db.py:MatrixIndex.subset, to_raw, copy_matrix_file")],
 ["MatrixDb.from_path", "MatrixDb.find", "MatrixDb.subset_index", "MatrixDb.copy_matrix_file"])

prop("C07", "Remote inventory behaves like a local copy and stays up to date",
 "Regridding with a remote (URL) inventory, or with the published one that is used when none is named, gives the results a local copy of the same inventory gives, downloading the index and each matrix at most once while they are cached. "
 "When a request is not found the published index checksum is consulted (at most once per inventory after a successful check), the index is downloaded again exactly when the checksum differs, and the request is then served from the new index. "
 "Server errors surface as exceptions, never as wrong results, and a later call succeeds once the server recovers.",
 ["histories", "fault_sequences", "configurations"], "all sequences of requests, remote updates, process restarts and server faults (HTTP errors, truncated bodies), under each disk-cache policy",
 "Download tests need the network and are not run; nothing exercises index refresh or server faults.",
 ["backends/db.py", "utils/download.py", "utils/caching.py"],
 [("index caching and checksum", S+"backends/db.py:UrlAccessor._get_index"), ("refresh on miss", S+"backends/db.py:MatrixDb.find_entry"), ("downloads", S+"utils/download.py:download_and_cache")],
 ["earthkit.regrid.array.regrid(..., inventory='http://...')", "request log of a loopback HTTP server"])

prop("C08", "A disk-cache file is created once per key and belongs to exactly that key",
 "With a managed cache policy, requesting a cache file runs its creator if and only if no complete file for the same owner, arguments, extra hash and extension exists (or regeneration is forced), returns the same path every time with the content the creator wrote (file or directory), and records the creator's metadata. "
 "Different owner, arguments, extra hash or extension give different files. "
 "With the policy off every request yields a new file in the temporary directory.",
 ["inputs", "histories"], "all sequences of cache requests over colliding-looking keys, forced regeneration (boolean or callable), deletions behind the cache's back, and both file and directory products",
 "Tests request two or three fixed keys.",
 ["utils/caching.py"],
 [("cache_file", S+"utils/caching.py:cache_file"), ("registration", S+"utils/caching.py:CacheManager._register_cache_file, _update_entry")],
 ["earthkit.regrid.utils.caching.cache_file", "cache.entries()"])

prop("C09", "Disk-cache creation is all-or-nothing under failures and crashes",
 "If the creator of a cache file raises or the process is killed at any point, while it creates files or removes them, no partial content is ever returned by this or any later request or process: the next request re-creates the file completely. "
 "Bookkeeping stays usable afterwards: statistics, listing, purge, size limit and eviction of other files keep working.",
 ["crash_points", "fault_sequences", "histories"], "all failure points (exception before, during and after writing; SIGKILL at any file-system step of the creation) followed by any history of further operations",
 "No test injects a fault or a crash.",
 ["utils/caching.py"],
 [("temporary name then rename under a lock", S+"utils/caching.py:cache_file"), ("bookkeeping rows", S+"utils/caching.py:CacheManager")],
 ["cache_file", "cache.summary_dump_database()", "cache.entries()", "cache.purge()", "cache.size()"])

prop("C10", "The disk cache respects its size limit by removing least recently used files",
 "After a file is added or the limit is lowered, the managed cache is trimmed until its total size is at most the configured maximum, removing entries in order of last access and none beyond what is needed, except that the most recent entry and files still being created, however long that takes, are never removed. "
 "Without a limit nothing is removed. "
 "While the disk is fuller than the maximum disk usage, entries are removed in the same order until the excess is freed.",
 ["histories", "configurations"], "all sequences of creations and accesses with arbitrary sizes and limit changes",
 "Tests check a single large limit; eviction order over a history is not exercised.",
 ["utils/caching.py"],
 [("limit check", S+"utils/caching.py:CacheManager._check_cache_size"), ("eviction", S+"utils/caching.py:CacheManager._decache, _latest_date")],
 ["files in the cache directory", "cache.size()", "cache.entries()"])

prop("C11", "Cache listing, size, summary and purge agree with the files on disk",
 "At every point the managed cache's entries, size and summary describe exactly the files it holds, with owner, arguments and byte sizes (directories counted recursively). "
 "Purging with a matcher deletes exactly the matching entries and purging without one deletes all of them, zero-size files included, and purged files are re-created on the next request. "
 "Files of others in the same directory are left alone until they are old enough to be orphans.",
 ["histories"], "all sequences of creating, accessing, deleting and purging entries of arbitrary kinds and sizes",
 "Tests purge a cache of a few fixed files.",
 ["utils/caching.py"],
 [("queries", S+"utils/caching.py:CacheManager._cache_entries, _cache_size, _summary_dump_cache_database"), ("purge", S+"utils/caching.py:CacheManager._purge_cache, _delete_entry")],
 ["cache.entries()", "cache.size()", "cache.summary_dump_database()", "cache.purge()"])

prop("C12", "Cache policy and directory changes take effect at once and lose nothing",
 "After any change of cache policy or directory settings (temporary contexts included), new cache files go to the directory the current settings name, size limits in force are the current ones, and returning to an earlier user directory finds the files created there before. "
 "Temporary directories are removed when left and user directories are never deleted.",
 ["histories", "configurations"], "all sequences of policy, directory and limit changes interleaved with cache requests and nested temporary contexts",
 "Tests switch policy a few times in fixed orders.",
 ["utils/caching.py", "utils/temporary.py", "utils/config.py"],
 [("policy refresh", S+"utils/caching.py:Cache._config_changed, CachePolicy.outdated/update"), ("temporary directories", S+"utils/temporary.py")],
 ["cache.directory()", "cache.policy", "cache_file", "file system"])

prop("C13", "Concurrent cache requests create once and all see the complete file",
 "When several threads or processes (processes forked from one using the cache included) request the same or different cache files at the same time, every request returns the complete content for its key, each creator runs at most once per absent key with a managed policy, and the bookkeeping counts one entry per file. "
 "No request fails or hangs because another one runs.",
 ["schedules", "histories"], "all schedules of concurrent requests from threads and processes over overlapping keys, with creators of different speed",
 "No test runs the cache concurrently.",
 ["utils/caching.py"],
 [("file lock and double check", S+"utils/caching.py:cache_file"), ("single manager thread", S+"utils/caching.py:CacheManager")],
 ["cache_file from many threads/processes", "cache.entries()"])

prop("C14", "Configuration set/get/reset/temporary follow a stack of option maps",
 "For every history of set (name and value, dictionary, keyword arguments), reset (one or all), and nested temporary contexts left normally or by an exception, get returns the value most recently set, or reset to its built-in default, in the innermost active context, and leaving a context restores exactly the settings before it. "
 "Unknown names raise KeyError. "
 "Registered observers are called after every change, entering and leaving included, and see the new values.",
 ["histories"], "all sequences of set, reset, get and arbitrarily nested temporary contexts over all options and values, with exceptions thrown inside contexts or by observers",
 "Tests exercise a few fixed sequences with at most two nested contexts.",
 ["utils/config.py"],
 [("context stack", S+"utils/config.py:new_config, forward"), ("set/reset", S+"utils/config.py:Config._set, reset"), ("notification", S+"utils/config.py:Config._notify")],
 ["earthkit.regrid.config.get/set/reset/temporary/dump/on_change"], [("CONFIG._stack", "active temporary contexts", S+"utils/config.py")])

prop("C15", "Saved configuration survives restart and bad files fall back to defaults",
 "With autosave on, after any sequence of accepted set and reset calls a new process reads the same value for every option; settings made in a temporary context are not saved, and with autosave off nothing is written. "
 "An explicitly saved file loads to the settings in force when it was saved. "
 "A missing, empty, corrupt or foreign configuration file never prevents import: the defaults apply, or, without a file, the settings last saved by versions that used another file. A save that fails, is killed or overlaps with a read leaves and shows complete settings, of before or after it.",
 ["histories", "inputs"], "all sequences of accepted settings values followed by restart, and all byte contents of the configuration file",
 "Tests check a couple of fixed values and one file.",
 ["utils/config.py"],
 [("save", S+"utils/config.py:save_config, ConfigOption.save"), ("load", S+"utils/config.py:_init_config, _init_config_file")],
 ["configuration file", "config.get in a fresh process"])

prop("C16", "Environment variables override settings and only while they are set",
 "Whenever the environment variable of an option is set, get returns the variable's value parsed like any setting of that option, in every context, regardless of set, reset and temporary calls; once it is removed get returns the underlying setting again. "
 "Environment values are never written to the configuration file, and setting or resetting such an option by name warns.",
 ["histories", "configurations"], "all options, all parsable values and all interleavings of environment changes with set, reset and temporary contexts",
 "Tests cover one or two options with fixed values.",
 ["utils/config.py"],
 [("env lookup", S+"utils/config.py:Config.get, _env, env_var_name")],
 ["config.get", "config.env()", "configuration file", "warnings"])

prop("C17", "Option values are parsed by their documented rules and bad ones rejected",
 "Sizes, durations and percentages are accepted exactly as documented (integer with optional unit; K/M/G/T/P multiples of 1024 in either case; s, m, h, d, w; %) and converted to the corresponding number, None where allowed. "
 "Any value outside the documented form or list of choices raises an error and leaves every setting, the saved file and the caches as they were. "
 "Sizes printed for people and parsed back agree to the printed precision.",
 ["inputs"], "all options and all strings, numbers and None as values",
 "Tests try a fixed table of about thirty strings.",
 ["utils/humanize.py", "utils/config.py"],
 [("number parsing", S+"utils/humanize.py:as_number"), ("validation", S+"utils/config.py:ConfigOption.validate, Config._set")],
 ["config.set", "config.get", "utils.humanize"])

prop("C18", "MIR array regridding is a well-formed interpolation for every grid and method",
 "For every supported pair of grids and method, regridding an array with MIR returns values of the target grid's shape and its gridspec; a constant field stays constant, linear and averaging results stay within the input's range, nearest-neighbour only returns input values, regridding to the same grid returns the same values, and the operation is linear in the values and independent of earlier calls. "
 "The input array is not modified.",
 ["inputs", "programs"], "all generated grid pairs (lat-lon, reduced Gaussian, HEALPix, areas), methods and arrays",
 "Tests compare a few fixed grid pairs with stored results.",
 ["backends/mir.py", "array/regrid.py", "data/numpy.py"],
 [("job set-up", S+"backends/mir.py:MirBackend.regrid"), ("area option", S+"backends/mir.py:adjust_options")],
 ["earthkit.regrid.array.regrid(..., backend='mir')"])

prop("C19", "Interpolation options given by the user reach MIR in every interface",
 "Every documented interpolation option (interpolation method, nearest_method, distance, distance_tolerance, nclosest, area in the target grid) passed to the array, GRIB or Xarray interface has the effect it has in a MIR job configured directly with the same options, alone and combined. "
 "Options left out take their documented default.",
 ["inputs", "configurations"], "all combinations of methods and option values across the interfaces",
 "Tests only vary the method on a few fixed inputs, so an option that is dropped on the way goes unnoticed.",
 ["backends/mir.py", "data/numpy.py", "data/grib.py", "data/xarray.py", "regrid.py"],
 [("option forwarding", S+"backends/mir.py:MirBackend.regrid, regrid_grib")],
 ["earthkit.regrid.array.regrid", "earthkit.regrid.regrid", "a directly configured mir.Job"])

prop("C20", "GRIB messages, fields and field lists regrid like their arrays",
 "Regridding a GRIB message (bytes or BytesIO), a field or a field list gives, per message, the values the array interface gives for the field's values and grid (to packing precision), on the target grid, in the same order and number, keeping the other metadata; the inputs are unchanged. "
 "Bytes, BytesIO, field and field list forms of the same message agree with one another. "
 "With the precomputed backend field lists obey the same rule for global lat-lon targets and other targets are rejected with ValueError.",
 ["inputs"], "all generated GRIB messages (values, parameters, steps, levels), field-list lengths, target grids and methods",
 "GRIB tests with several fields or other input forms are not run here or use one message.",
 ["data/fieldlist.py", "data/grib.py", "backends/mir.py"],
 [("field-list handling", S+"data/fieldlist.py"), ("message handling", S+"data/grib.py")],
 ["earthkit.regrid.regrid on bytes, BytesIO, Field, FieldList"])

prop("C21", "Xarray regridding equals array regridding of every horizontal slice",
 "For a DataArray or Dataset with any further dimensions, eager or dask-backed with any chunking, every horizontal slice of the result equals the array interface's result for that slice; further dimensions, their order, coordinates and the variable names are kept and the latitude/longitude coordinates are those of the target grid. "
 "Input objects are not modified. "
 "Objects whose grid or horizontal dimensions cannot be determined are rejected with an error.",
 ["inputs", "programs"], "all generated shapes, dimension names, chunkings, dtypes, variable sets, grid pairs and backends",
 "Xarray tests need unavailable data and are not run; they use fixed shapes.",
 ["data/xarray.py"],
 [("slice-wise application", S+"data/xarray.py:XarrayDataHandler.regrid"), ("target coordinates", S+"data/xarray.py:XarrrayGeographyBuilder")],
 ["earthkit.regrid.regrid on xarray objects"])

prop("C22", "The deprecated interpolate() agrees with precomputed regrid()",
 "For every request, interpolate(values, in_grid, out_grid, method, matrix_source) returns the values the precomputed backend of regrid() returns for the same grids, method and inventory, fails when and only when that fails, and warns about deprecation; for field lists each field is handled alike and metadata is kept. "
 "A backend argument or an unsupported data type is rejected with ValueError.",
 ["inputs", "histories"], "all requests, inventories, input forms and interleavings with regrid()",
 "Tests compare a few fixed cases of each function separately.",
 ["interpolate.py", "data_interpolate.py", "backends/precomputed.py"],
 [("legacy path", S+"data_interpolate.py"), ("shared backend", S+"backends/precomputed.py:interpolate")],
 ["earthkit.regrid.interpolate", "earthkit.regrid.array.regrid"])

prop("C23", "MIR weight files and grid definitions are read and written faithfully",
 "Every weight matrix written in MIR's cached-matrix format (either byte order, 4- or 8-byte scalars, any shape and sparsity) is read back as exactly that matrix, and writing it to npz and loading it preserves it. "
 "Coordinates written as a grid definition carry exactly the given doubles in order. "
 "Truncated or corrupted weight files raise an exception and never yield a silently different matrix shape.",
 ["inputs"], "all sparse matrices, byte orders and scalar sizes; all coordinate lists; all truncations and tag corruptions of valid files",
 "The repository tests read two fixed matrices.",
 ["utils/mir.py", "utils/stream.py"],
 [("stream decoding", S+"utils/stream.py:Stream"), ("matrix conversion", S+"utils/mir.py:mir_cached_matrix_to_array"), ("griddef writer", S+"utils/mir.py:mir_write_latlon_to_griddef")],
 ["mir_cached_matrix_to_array", "mir_cached_matrix_to_file", "mir_write_latlon_to_griddef", "mir_make_matrix"])

prop("C24", "Weights exported from MIR and inventoried regrid like MIR itself",
 "For every supported grid pair and method, the matrix first exported from MIR for it in a process applied to values gives what regridding those values directly with MIR gives, whether or not an earlier or parallel export of the same grids was interrupted. "
 "Adding generated weights to an inventory makes them usable under their grids and method with the recorded memory size, non-zero count and target shape true to the matrix, without changing how entries added before are served.",
 ["inputs", "histories"], "all grid pairs, methods and arrays; all sequences of additions to one inventory",
 "The inventory builder has no test and matrix export is compared for a few fixed pairs.",
 ["utils/builder.py", "utils/mir.py", "backends/db.py"],
 [("inventory builder", S+"utils/builder.py:make_matrix"), ("matrix export", S+"utils/mir.py:mir_make_matrix")],
 ["mir_make_matrix", "builder.make_matrix", "earthkit.regrid.array.regrid with both backends"])

prop("C25", "Concurrent regridding gives the sequential results",
 "Precomputed regrids running in several threads at the same time, on the same or different inventories, grids and methods, with any memory-cache policy and while caches are cleared or policies change, each return what the call returns alone. "
 "The same holds for several processes, started alone or forked from one another, that share the disk cache and a remote inventory which is updated meanwhile. "
 "None fails or hangs because of the others, and the cache statistics are consistent when all have finished.",
 ["schedules", "configurations"], "all schedules of concurrent regrid calls, first-use loading of the index included, under every cache policy",
 "No test regrids concurrently.",
 ["utils/memcache.py", "backends/db.py", "backends/__init__.py"],
 [("cache lock", S+"utils/memcache.py:MemoryCache.get"), ("index load", S+"backends/db.py:MatrixDb.index")],
 ["earthkit.regrid.array.regrid from threads and processes"])

prop("C26", "Each data kind reaches its handler and unusable requests fail cleanly",
 "Every call of the high-level interface is served according to the kind of its data and the named backend: unsupported data types, plain arrays given to the high-level interface, unknown backends, missing target grids, empty inventories, and backends that cannot handle the data kind raise ValueError. "
 "A rejected call leaves the caches, the configuration and its arguments unchanged, so that the next valid call behaves as if it had not happened.",
 ["inputs", "histories"], "all combinations of data kinds, backends, grids, methods and inventories, valid and invalid, in any order",
 "Tests check a few invalid calls in isolation.",
 ["regrid.py", "data/__init__.py", "data/handler.py", "backends/__init__.py", "backends/precomputed.py"],
 [("dispatch", S+"data/__init__.py:get_data_handler"), ("backend selection", S+"backends/__init__.py:BackendMaker")],
 ["earthkit.regrid.regrid", "earthkit.regrid.array.regrid"])

prop("C27", "Downloaded files are cached whole and refreshed only as configured",
 "A file fetched by URL is stored with exactly the bytes served, fetched once and reused; it is fetched again only if it was lost, forced, or if out-of-date checking and re-downloading are both enabled and the server reports a change. "
 "An interrupted or failed download raises and leaves nothing that a later request could mistake for the file.",
 ["histories", "fault_sequences", "configurations"], "all sequences of requests, remote changes, configuration settings and server faults",
 "No offline test exercises the downloader.",
 ["utils/download.py", "utils/caching.py"],
 [("download through the cache", S+"utils/download.py:download_and_cache")],
 ["download_and_cache", "request log of a loopback HTTP server"])

prop("C28", "What the configuration displays is what is in effect",
 "At every point of every history of set, reset, temporary contexts and environment variables, the text and HTML displays of the configuration and dump() list every option exactly once in the order of the names, with the value set in the innermost active context and the built-in default; "
 "an option whose environment variable is set is shown with the variable's name and text, and env() lists exactly these. The option tables of the documentation list exactly the options asked for with their defaults, choices and variables.",
 ["histories"], "all sequences of set, reset, temporary contexts and environment changes; all selections of options",
 "No test looks at the displays in a temporary context or with several variables set.",
 ["utils/config.py"],
 [("displays", S+"utils/config.py:Config.__repr__"), ("environment", S+"utils/config.py:Config.env")],
 ["repr(config)", "config._repr_html_()", "config.dump()", "config.env()"])

prop("C29", "The inventory pages show exactly the conversions that can be used",
 "For every content of the published inventory, the generated documentation pages of its source grids together show every conversion stored for the linear method, on the page of the kind (and, for HEALPix and reduced Gaussian grids, the ordering or variant) of its source grid, and nothing else; "
 "the source and target gridspecs shown, when passed to regrid() as they stand, find that conversion's weights, limited areas and descriptions of a grid that differ in notation included. Entries of unknown kinds and of other methods do not appear or disturb the pages.",
 ["inputs"], "all published inventories (grids of all kinds in all the notations an index may hold, all methods, foreign entries)",
 "No test generates the pages.",
 ["sphinxext/generate_inventory_rst.py", "backends/db.py", "gridspec.py", "docs/guide/precomputed/inventory/index.rst"],
 [("pages", S+"sphinxext/generate_inventory_rst.py:execute"), ("grouping by source", S+"sphinxext/generate_inventory_rst.py:load_matrix_index_file"), ("gridspecs shown", S+"sphinxext/generate_inventory_rst.py:to_str")],
 ["generate_inventory_rst.execute(page)", "earthkit.regrid.array.regrid with the gridspecs shown"])

prop("C30", "The inventory tools write inventories that serve exactly what was asked",
 "The subset command given any selection of conversions writes an inventory holding exactly the selected entries of the published inventory, as published, with their matrices, and regrid() over it gives the published results for these and rejects all others. "
 "The merge command writes an index with every entry of its sources and the same entries can be used. "
 "A missing conversion (unless allowed), an occupied output directory under --strict, and a dry run leave the output directory as it was; a refused command exits with a failure and an accepted one with success.",
 ["inputs", "configurations"], "all inventories, selections (missing, repeated and differently spelled conversions), options and states of the output directory",
 "No test runs the tools.",
 ["tools/subset/subset_remote_db.py", "tools/manage/merge_index.py", "tools/utils/matrix.py", "backends/db.py"],
 [("subset command", "tools/subset/subset_remote_db.py:subset_remote_db"), ("merge command", "tools/manage/merge_index.py:merge"), ("subset of an index", S+"backends/db.py:MatrixIndex.subset"), ("copy of a matrix", S+"backends/db.py:MatrixDb.copy_matrix_file")],
 ["exit status of the commands", "files in the output directory", "earthkit.regrid.array.regrid(..., inventory=output directory)"])

with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P))
