"""The properties (source of properties.jsonl) and the manifest; run: python3 tools/props.py"""
import json, os, re, sys

P = []
def prop(id, title, statement, over, text, tests, files, mechanism, state=(), observe=(), claim=True, note=""):
    P.append(dict(id=id, title=title, statement=statement, quantifier={"over": over, "text": text}, why_tests_cant=tests,
                  anchors={"files": ["awkward0/" + f for f in files], "mechanism": [{"name": n, "where": "awkward0/" + w} for n, w in mechanism],
                           "state": [{"name": n, "meaning": m, "where": "awkward0/" + w} for n, m, w in state],
                           "observe_at": list(observe), "hook_needed": None}, _claim=claim, _note=note))

J, B = "array/jagged.py", "array/base.py"

prop("C01", "Selecting from jagged arrays means selecting from nested lists",
     "For every jagged array, however its lists are laid out, selecting with an integer, slice, integer list, boolean mask, jagged mask, jagged index, or a tuple of row and column selections gives the same nested lists as the selection carried out on the plain lists. An index that does not exist (in a row or in any selected list) is refused instead of returning other data.",
     ["inputs", "configurations"], "all jagged layouts (contiguous, offset, overlapping, out of order) x all selections x all content values",
     "The tests select from a few contiguous arrays with a few constants; which layout, empty list, negative index or step combine is unbounded.",
     [J], [("__getitem__", J + ": JaggedArray.__getitem__"), ("row/column alignment", J + ": tojagged, offsetsaliased")],
     [("starts, stops, content", "where every list lies in the shared content", J)], ["array[...]", "tolist()"])
prop("C02", "All descriptions of one jagged structure agree",
     "Counts, offsets, parents, local indexes, starts and stops, and the flattened content derived from a jagged array describe exactly its lists, and building an array from any of these descriptions (or from group labels, a fixed fold size or a regular array) gives exactly the lists described. Compacting, copying or regularizing an array never changes its lists, and a description that is not that of any list structure is refused.",
     ["inputs", "configurations"], "all list lengths and placements (gaps, overlaps, out of order, empty at any position), all group labels and local indexes",
     "Tests use a handful of constants; empty lists at each end, unreachable content and stops longer than starts are combinations they do not reach.",
     [J], [("constructors", J + ": fromcounts, fromoffsets, fromparents, fromuniques, fromlocalindex, fromfolding, fromregular"), ("conversions", J + ": counts2offsets, offsets2parents, startsstops2parents, parents2startsstops, uniques2offsetsparents"), ("compact/flatten", J + ": compact, flatten, regular, structure1d")],
     [("starts, stops", "boundaries of every list", J)], ["counts", "offsets", "parents", "localindex", "flatten()", "compact()"])
prop("C03", "Structures that point outside of their data are refused",
     "An array whose structure does not fit its data (negative or decreasing boundaries, lists, tags or indexes beyond the content, structure arrays of contradicting lengths) is refused with an error when it is built or first used, and a structure that does fit is never refused. No operation returns data through an invalid structure.",
     ["inputs"], "all integer values of every structure array (the full 64-bit range) for every kind of array",
     "Tests try a few hand-written broken structures; the boundary values (one past the end, only in empty lists, only in the last element) are unlimited.",
     [J, "array/indexed.py", "array/masked.py", "array/union.py", "array/chunked.py"], [("validity checks", J + ": _valid; the same method in the other classes"), ("property setters", J + ": starts, stops, counts, offsets setters")],
     [], ["constructor", "tolist()", "valid(exception=True)"])
prop("C04", "Elementwise operations distribute over jagged structure",
     "A universal function applied to jagged arrays gives, for every element, the function of the elements at the same position, with scalars and one-value-per-list arrays broadcast over each list. The result has the lists of the operands whatever their layouts, and operands whose list lengths disagree are refused.",
     ["inputs", "configurations"], "all layouts of each operand, all element values, scalar/flat/jagged/doubly jagged combinations",
     "Tests add a few arrays with one layout; whether broadcasting survives overlapping, reordered or padded layouts needs all placements.",
     [J], [("__array_ufunc__", J + ": __array_ufunc__"), ("broadcasting", J + ": tojagged")], [], ["arithmetic and comparison operators", "numpy ufuncs"])
prop("C05", "Reducers and sorts work on each list separately",
     "Sum, product, any, all, count, minimum, maximum, mean, position of minimum or maximum and sort order of a jagged array are, for every list and only from that list's elements, what the same operation gives on a plain list, with the documented identity (or an empty list of positions) where the list is empty and NaN ignored. Flat, nested, tabular and masked content follow the same rule.",
     ["inputs", "configurations"], "all list lengths (empty lists at any position), layouts and element values",
     "Empty lists at the beginning, the end and in runs, in layouts with gaps, are handled by special cases that only particular combinations reach.",
     [J, B], [("_reduce", J + ": _reduce"), ("argmin/argmax", J + ": _argminmax"), ("argsort", J + ": _argsort"), ("moments", B + ": moment, mean, var, std")], [], ["sum()", "min()", "any()", "argmax()", "argsort()", "mean()"])
prop("C06", "Combinatorics per list equal their textbook definitions",
     "Cross products, pairs, distinct pairs and n-element choices of jagged arrays contain, for every list, exactly the tuples that the definition gives for that list, in the documented order, for any list lengths and layouts. The index-only variants name exactly the positions of those elements, and the nested variants group the same tuples by their first element.",
     ["inputs", "configurations"], "all list lengths, layouts and element values of each operand",
     "Tests use fixed lists; order, grouping and index arithmetic depend on every combination of list lengths, including zero.",
     [J], [("pairs and choose", J + ": _argpairs, _argdistincts, _argchoose"), ("cross", J + ": _argcross, cross")], [], ["cross()", "pairs()", "distincts()", "choose()", "arg* variants"])
prop("C07", "Restructuring jagged arrays preserves the data",
     "Flattening (at any depth), padding and clipping, concatenating along either axis, and zipping jagged arrays give exactly the lists that the operation gives on plain nested lists: no element is lost, duplicated, reordered or moved to another list. Padding fills only the missing places with missing values, and arrays that do not fit together are refused.",
     ["inputs", "configurations"], "all list lengths, layouts and element values, all pad lengths, axes and numbers of operands",
     "Results depend on the interplay of layouts of several operands; tests use contiguous constants.",
     [J, B], [("flatten", J + ": flatten"), ("pad", J + ": pad"), ("concatenate", J + ": _concatenate_axis0, _concatenate_axis1; " + B + ": concatenate"), ("zip", J + ": zip")], [], ["flatten()", "pad()", "concatenate()", "zip()"])
prop("C08", "Masked arrays behave like lists with missing values",
     "A masked array (boolean mask, packed bits in either bit order, or masked index, with either sense of the mask) is a list whose masked elements are missing: selection, elementwise functions, reductions, filling, counting and flattening give what they give on that list, with missing operands giving missing results. Packing a mask into bits and unpacking it gives the mask back for every length and bit order.",
     ["inputs", "configurations"], "all masks, lengths (not only multiples of eight), bit orders, mask senses and contents",
     "Bit addressing errors only show for particular lengths, positions and orders.",
     ["array/masked.py"], [("bit packing", "array/masked.py: bit2bool, bool2bit, _maskat, _maskwhere"), ("selection and reduction", "array/masked.py: __getitem__, __array_ufunc__, _prepare")],
     [("mask, maskedwhen, lsborder", "which elements are missing", "array/masked.py")], ["tolist()", "boolmask()", "array[...]", "reducers"])
prop("C09", "Indexed and sparse arrays behave like the gathered list",
     "An indexed array behaves like the list of the content elements its index names (in order, with repeats), and a sparse array like the dense list holding its content at the given (increasing) coordinates and the default elsewhere. Selection, elementwise functions, reductions, flattening and concatenation agree with that list for every index, and indexes that do not exist are refused.",
     ["inputs", "configurations"], "all indexes (permutations, repeats, subsets), coordinates, defaults, contents and selections",
     "Sparse lookups branch on hits and misses at every coordinate; tests use one or two coordinate sets.",
     ["array/indexed.py"], [("IndexedArray", "array/indexed.py: IndexedArray.__getitem__, __array_ufunc__, _prepare"), ("SparseArray", "array/indexed.py: SparseArray.__getitem__, _getinverse, dense")], [], ["tolist()", "array[...]", "ufuncs", "reducers", "dense"])
prop("C10", "Union arrays dispatch every element to its own type",
     "Every element of a union array is the element that its tag and index name, and selection, elementwise functions, reductions and filling act on each element as they act on an element of its own type, keeping the order of elements. An element is never taken from the content of another tag.",
     ["inputs", "configurations"], "all tags, indexes, numbers and types of contents, selections",
     "Mixed order and contents unused by some selection are combinations that tests sample only once or twice.",
     ["array/union.py"], [("dispatch", "array/union.py: __getitem__, __array_ufunc__, fromtags"), ("reductions", "array/union.py: _prepare, _reduce")], [("tags, index", "type and position of every element", "array/union.py")], ["tolist()", "array[...]", "ufuncs"])
prop("C11", "How an array is split into chunks cannot be observed",
     "A chunked array behaves in every operation like the single array that concatenates its chunks: selections across chunk boundaries, elementwise functions (with scalars, unchunked arrays and arrays of the same chunk sizes; other chunk sizes are refused), reductions, flattening and conversions do not depend on where the boundaries are, including empty chunks. Global and local positions convert back and forth, and positions outside of the array are refused.",
     ["inputs", "configurations"], "all partitions (empty chunks at any position), selections and contents",
     "Boundary cases multiply with the number of chunks and the selection; tests use one partition.",
     ["array/chunked.py"], [("position lookup", "array/chunked.py: global2chunkid, global2local, local2global"), ("selection", "array/chunked.py: ChunkedArray.__getitem__"), ("elementwise", "array/chunked.py: _aligned, __array_ufunc__")], [("chunks, chunksizes", "partition", "array/chunked.py")], ["array[...]", "ufuncs", "reducers"])
prop("C12", "An appendable array is the list of everything appended",
     "After any sequence of appends and extensions, an appendable array has exactly the given elements, in order, independent of the chunk size, with all of it visible to selection, iteration, elementwise functions and reductions. Arrays taken from it earlier are not changed by later appends.",
     ["histories", "configurations"], "all sequences of append and extend (empty, shorter, equal or longer than a chunk) within the bound, all chunk sizes",
     "The bookkeeping of a partially filled last chunk depends on the whole history.",
     ["array/chunked.py"], [("append/extend", "array/chunked.py: AppendableArray.append, extend")], [("chunks, chunksizes", "filled part of every chunk", "array/chunked.py")], ["append", "extend", "array[...]"])
prop("C13", "Tables are lists of records under every row and column selection",
     "A table behaves like the list of its records: selecting rows (integers, slices with any step, index lists, masks, repeatedly, in any order with selecting columns) gives those records, and columns, rows and records always agree with each other. Elementwise functions, reductions and concatenation act field by field, rows are equal exactly if all of their fields are, and rows out of range are refused.",
     ["inputs", "histories"], "all chains of row selections within the bound, all columns, contents of unequal lengths",
     "Chained views are represented in four different ways; errors appear only for particular chains of slices.",
     ["array/table.py"], [("views", "array/table.py: _newslice, _index, _length"), ("rows", "array/table.py: Table.Row"), ("fields", "array/table.py: __array_ufunc__, _reduce")], [("view", "which rows of the base are seen", "array/table.py")], ["table[...]", "row[...]", "tolist()"])
prop("C14", "Virtual arrays are transparent and materialize once",
     "A virtual array behaves in every operation like the array its generator returns, whether or not it was materialized before, with or without a cache, and also after the cache evicted it. The generator runs at most once as long as the value is held, and columns assigned to or deleted from a virtual table stay assigned or deleted after eviction, without affecting the generator's own data or copies (which have their own cache key). What a deleted virtual array held in its cache is removed, unless its key is a persistent one.",
     ["histories", "configurations"], "all histories of access, assignment, deletion, copy and eviction within the bound",
     "Which access materializes, caches or replays assignments depends on the history; tests run a few.",
     ["array/virtual.py"], [("materialization", "array/virtual.py: array, materialize"), ("assignment", "array/virtual.py: __setitem__, __delitem__")], [("_array, _setitem, _delitem", "materialized value or cache key; pending assignments", "array/virtual.py")], ["array", "ismaterialized", "virtual[...]"])
prop("C15", "Arrays built from Python data give the same data back",
     "For every iterable of Python data (numbers, booleans, strings, missing values, lists, dicts, tuples, nested and mixed in any order), the array built from it converts back to equal Python data, with the same types of scalars and missing values only where they were given (by the documented rules: numbers at one level become floats together if any of them is a float, tuples come back as lists, and an empty record is a missing value). How the data are split across records, or where a new type first appears, does not matter.",
     ["inputs", "programs"], "all nested Python values within the bound, including every position at which missing values or other types appear",
     "The builder changes its representation each time a new type appears; outcomes depend on the order of types in the data.",
     ["generate.py"], [("builder", "generate.py: Fillable classes, fromiter")], [], ["fromiter", "tolist()"])
prop("C16", "Stored arrays are restored with the same data and structure",
     "For every array of every kind, storing it (with any compression setting) or pickling it and restoring it gives an array with the same data, type and kind (nesting of array classes, row names, numbering of rows), including shared and cyclic parts; a persistent virtual array comes back virtual with its assigned and deleted columns. Restoring needs nothing but the storage, and the keys listed for a stored array are exactly the parts written for it.",
     ["inputs", "configurations"], "all array kinds, nestings, contents, and storage options",
     "Each kind has its own encoder and shortcuts depending on the layout (compact, offset, sequential tags, view of a table).",
     ["persist.py", "array/base.py"], [("encoder", "persist.py: Serializer, BlobSerializer; __awkward_serialize__ in every class"), ("decoder", "persist.py: deserialize"), ("pickle", "array/base.py: __getstate__, __setstate__, __reduce__")], [], ["serialize", "deserialize", "pickle"])
prop("C17", "String arrays behave like lists of strings",
     "A string array built from any strings, bytes, counts, offsets or fixed-width arrays contains exactly these strings in the given encoding, and selection, comparison (with strings and other string arrays), concatenation, copying and padding act like on the list of strings. Two elements are equal exactly when the strings are equal, in whichever encoding they are stored (bytes are compared as bytes with text in any encoding); arrays of different lengths are not comparable.",
     ["inputs", "configurations"], "all lists of strings (empty, prefixes of each other, multi-byte), encodings and layouts",
     "Comparison works on raw bytes and lengths; strings which share prefixes or lengths at different positions are needed to expose errors.",
     ["array/objects.py"], [("StringArray", "array/objects.py: StringArray, StringMethods.__array_ufunc__")], [], ["tolist()", "==", "array[...]"])
prop("C18", "Operations do not modify their operands",
     "Selecting, computing, reducing, restructuring, describing or storing never changes the data or structure of any array, index, mask or container passed to it (also when the operation is refused), and copies made deeply share nothing with the original. Only explicit assignment, deletion and appending change an array, and what is added to an array later does not change the containers it was made from.",
     ["inputs", "histories"], "all operations and operands within the bounds, each operand compared before and after",
     "A modification is only visible for particular operands (a negative index, a reused dictionary, an out-of-range mask) and only when the operand is used again.",
     [B, J, "array/table.py", "array/indexed.py", "array/masked.py", "array/union.py", "array/chunked.py"], [("selection of views", "array/table.py: _newslice"), ("sparse selection", "array/indexed.py: SparseArray.__getitem__"), ("deep copies", B + ": _util_deepcopy")], [], ["operands after the call"])
prop("C19", "Types describe the data and compare consistently",
     "The type of an array (of any kind and nesting) agrees with its length and with the types of everything selected from it (a selection from a union or sparse array may have only some of the alternatives). Equality of types is reflexive, symmetric, transitive, independent of the order of fields or alternatives and of how nested unions, nested options and tables of equally long arrays are written, distinguishes types that describe different data, and equal types have equal hashes; a type written to its stored form and read back is an equal type.",
     ["inputs", "programs"], "all types within the nesting bound, all pairs and triples of them",
     "Tests compare a few types; equality works by recursion over alternatives, where pairs of nearly equal types are needed.",
     ["type.py", "persist.py"], [("equality", "type.py: _eq, __eq__, __hash__, _canonical"), ("description", "type.py: fromarray; _gettype in every class"), ("storage", "persist.py: type2json, json2type")], [], ["type", "==", "hash"])
prop("C20", "Exchanging data with Arrow keeps it",
     "Reading an Arrow array, chunked array, record batch or table gives exactly the values it holds, in order, also at each single position: numbers, booleans, strings and bytes (with 32 and 64 bit offsets), lists, records, dictionaries, dense and sparse unions and their nestings, with or without null bitmaps at any level, and slices of all of these (any offset). "
     "Converting an awkward array to Arrow gives an Arrow array that holds its values, and reading that back gives the same values: numbers, booleans, strings, bytes, lists (in any layout), records and selections of rows, dictionary-like, sparse, virtual and object arrays (without their Python objects), non-empty unions, every kind of masked array of these, and chunked or appendable arrays as tables with one batch per chunk (those of other things than records as one column without a name). "
     "The missingness of a whole list or record is passed down to the values inside of it. What Arrow or the conversion does not have (chunked arrays inside of others, encodings other than UTF-8, matrices, complex numbers) is refused.",
     ["inputs"], "all contents, null patterns, offsets, lengths and slices within the bounds",
     "Null bitmaps and offsets depend on the length modulo eight and on slices; values under nulls are undefined and must not matter; most layouts of awkward arrays (gaps, overlaps, views) have no direct counterpart in Arrow.",
     ["arrow.py"], [("toarrow", "arrow.py: toarrow"), ("fromarrow", "arrow.py: fromarrow")], [], ["toarrow", "fromarrow"])
prop("C21", "Restoring stored data only calls whitelisted functions",
     "Whatever the stored description says, restoring it (deserialize, load, hdf5, and the types and generators inside) imports, calls and returns no function that the whitelist in effect does not name; a description naming any other function is refused. "
     "A whitelist is a list of specifiers, each a list of glob patterns for the module path and the names inside it (a specifier names a function, of at least a module and a name, if every one of its patterns matches; it names everything inside what it matches); a single string is promoted to a specifier and a single specifier to a list. "
     "Stored Python pickles count as calls of awkward0.persist.topython, which the default whitelist does not name, and the stored data cannot bring a whitelist of their own.",
     ["inputs", "programs"], "all descriptions of up to four names (arbitrary strings), in every place a description can stand; whitelists: the default, arbitrary literal names and prefixes, glob patterns, '*', none",
     "A whitelist check is a negative requirement over all descriptions; tests only restore benign ones.",
     ["persist.py"], [("whitelist", "persist.py: spec2function, deserialize, json2type")], [], ["deserialize"])

prop("C22", "Assigning or deleting a column, or chosen elements, changes exactly those",
     "Assigning a column through any structure of records (lists of any layout, indexed, masked, union, chunked, sparse, virtual arrays, nested) gives each record, as seen through that structure, the corresponding value of the assigned array (a value per list goes to every record of the list), leaves every other column, record and missing value as it was, and makes the column readable by name; several columns at once equal one after another. "
     "Deleting a column removes exactly that column. Assigning to the elements a list of positions or booleans selects in each list changes exactly those elements. "
     "An assignment that has no such meaning (other lengths or list lengths, a record reached more than once with separate values, values for places that have no record, chunks that do not match, positions out of range) is refused and changes nothing (a chunked array whose chunks are not alike may have assigned to the chunks before the one that refuses).",
     ["inputs", "history"], "all layouts, contents and assigned values within the bounds",
     "Assignment has to invert the structure's indirection (starts and stops, index, tags, mask), so it goes wrong only for layouts with gaps, permutations, overlaps or unused content, silently putting values on other records.",
     ["array/jagged.py", "array/indexed.py", "array/masked.py", "array/union.py", "array/chunked.py", "array/table.py", "array/base.py"], [("assign", "array/*.py: __setitem__, __delitem__")], [], ["__setitem__", "__delitem__"])

prop("C23", "Replacing a part of an array equals building it anew from those parts",
     "At any time in its life, setting a part of an array (the starts, stops, offsets, counts, parents or content of a jagged array, the bytes or encoding of strings, an index, a mask, what the mask means, the order of its bits, tags, contents, chunks and chunk sizes, the length or default of a sparse array, the columns of a table, the generator and arguments of an object array, or of a virtual array that is not materialized) makes it the array that its constructor builds from the parts it now has: the same items, lengths, derived structure, results of functions, and the same refusals if the parts no longer fit. "
     "What was derived or checked before the change is not remembered. (Modifying the numpy arrays inside in place is not covered.)",
     ["history", "inputs"], "histories of two changes (any parts, any values from a set that includes wrong ones), with everything derived looked at before, between or not; all contents",
     "Arrays cache counts, offsets, parents, inverses and the outcome of validation; a stale cache shows only for one order of looking and setting.",
     ["array/jagged.py", "array/indexed.py", "array/masked.py", "array/union.py", "array/chunked.py", "array/objects.py", "array/virtual.py"], [("setters", "array/*.py: property setters")], [("_counts, _offsets, _parents, _inverse, _isvalid", "derived quantities kept between calls", "array/jagged.py")], ["properties of arrays", "valid()"])

prop("C24", "Parquet files give back what was written, column by column",
     "fromparquet of a file that toparquet wrote has the same items in the same order with the same missing ones: arrays of numbers, booleans, strings, bytes, lists and records of them (nested), possibly missing values, in any layout (views, selections from tables, indexed, sparse, virtual, chunked, partly filled appendable arrays); every written chunk, or item of an iterator, that is not empty is one chunk of the result. "
     "Files with columns of these kinds (also dictionary-encoded or with 64-bit offsets) that another program wrote are read likewise. Only those columns of those row groups are read that are used, and they are read again after the cache has lost them; the array can be stored with its contents or as a reference to the file. Missing lists and records may become lists and records without values. Unions, matrices, complex numbers, things that are not arrays, nothing at all and chunks of different types or columns are refused.",
     ["inputs", "histories"], "2-3 items per array, 2 chunks, 2-3 columns, free contents; histories of one read, one eviction and one more read",
     "Whether a column comes back right depends on how its chunks, selections, masks and offsets combine; a test has one file.",
     ["arrow.py", "array/virtual.py", "array/chunked.py"], [("toparquet, fromparquet, _ParquetFile", "awkward0/arrow.py"), ("schema2type", "awkward0/arrow.py")], [("VirtualArrays of a file", "what of a file was read and is still in the cache", "arrow.py, array/virtual.py")], ["toparquet", "fromparquet"])

prop("C25", "A flattened DataFrame has a row per innermost item, under its positions, beside its records' other columns",
     "topandas(array, flatten=True) makes one row of every innermost item of the lists in an array, in their order, indexed by the position of the item in each list from the outermost to the innermost (items of empty lists have none); nested records become columns named by the path of their fields, in order; values outside of a list are repeated for every item of the list beside them; a missing number is missing in the frame. "
     "This holds for lists in any layout, selections, chunked, indexed, virtual, sparse and object arrays alike. Two columns of lists are put beside each other if all their list lengths agree at every depth, whatever their layouts, and refused otherwise, as is structure that has no rows and columns (unions, missing lists, more dimensions).",
     ["inputs"], "all layouts and contents within the bounds",
     "The rows of different columns are matched through starts, stops and local indexes of independent arrays: a mistake puts values beside other items, only for layouts with gaps, permutations or uneven depths; no test converts anything to pandas.",
     ["util.py", "array/jagged.py", "array/table.py"], [("flatten", "util.py: topandas_flatten")], [], ["topandas", "topandas_flatten"])

CLAIMED = set(p["id"] for p in P if p["_claim"])

if __name__ == "__main__":
    root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    sys.path.insert(0, root)
    with open(os.path.join(root, "properties.jsonl"), "w") as f:
        for p in P:
            f.write(json.dumps({k: v for k, v in p.items() if not k.startswith("_")}) + "\n")
    text = "".join(open(os.path.join(root, "harnesses", x)).read() for x in sorted(os.listdir(os.path.join(root, "harnesses"))) if x.startswith("h_"))
    have = set(re.findall(r'@harness\(\[?"(C\d+)"', text)) | set(y for x in re.findall(r'@harness\(\[([^\]]*)\]', text) for y in re.findall(r'C\d+', x))
    checks, na = [], []
    for p in P:
        if p["_claim"] and p["id"] in have:
            checks.append({"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                           "technique": "bounded symbolic execution of the Python source with z3 deciding every branch and assertion; counterexamples replayed on the real code",
                           "level": "model_checking", "level_note": p["_note"] or "every input within the bounds listed in the evidence file; numpy kernels are modelled and validated per path against the real numpy",
                           "evidence_file": "evidence/%s.json" % p["id"]})
        else:
            na.append({"property": p["id"], "reason": p["_note"] or "check not built yet"})
    json.dump({"version": 1, "setup_cmd": "python3 run.py --setup", "checks": checks, "not_applicable": na,
               "notes": "All checks read /repo's current source on every run; /verif/symnp is the symbolic engine, /verif/harnesses the properties' harnesses."}, open(os.path.join(root, "MANIFEST.json"), "w"), indent=1)
    print(len(P), "properties,", len(checks), "claimed")
