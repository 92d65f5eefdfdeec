#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, text, why, files, mech, note=None, claimed=True, level="proof", tech=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech, note=note, claimed=claimed, level=level, tech=tech, na=na))


TECH = "contracts on the real Go code, discharged per function by an SMT-backed deductive verifier (gover); bounded replay search of the real code beside it"
BND = " Functions named in DESIGN.md as outside the verifier's reach are covered by a bounded search of the real code only, never counted as proved."

prop("P01", "Quantile queries answer exactly what the retained weighted items imply",
     "For every quantiles sketch and sorted view, the rank of any item, the quantile at any normalized rank, and the cumulative and per-bucket masses over any split points are exactly those implied by the retained items and their weights, for both the inclusive and the exclusive criterion. Queries never change later answers, and every answer reflects all updates, merges and resets that preceded it. Ranks outside [0,1] and unordered split points are rejected.",
     ["inputs", "histories"], "all retained weighted item lists, query items, ranks, split points, criteria, and interleavings of queries with updates, merges and resets",
     "tests compare a handful of fixed lists and ranks; the relation must hold for every list shape (duplicates, single item, gaps), every rank and every history of queries and updates",
     ["internal/inequality_search.go", "internal/quantiles/sorted_view.go", "internal/quantiles/utils.go", "common/quantiles/numeric_sorted_view.go", "kll/items_sketch_sorted_view.go", "kll/items_sketch.go", "req/sketch.go"],
     [("binary search by inequality over sorted items or cumulative weights", "internal/inequality_search.go"), ("building the sorted view by merging levels", "kll/items_sketch_sorted_view.go"), ("dropping the cached view on every change", "kll/items_sketch.go, req/sketch.go")],
     "Proved for all inputs: the inequality search, natural rank, rank/quantile/CDF/PMF of both view types, KLL's level merge and cumulative weights, partition boundaries leaving the view unchanged. Bounded: building the views from sketches (sorting, REQ merge-in), invalidation over histories.")

prop("P02", "Theta update sketch retains exactly the k-smallest distinct hashes",
     "After any sequence of updates, trims and resets, a theta update sketch retains distinct hash values, all smaller than its current threshold, and exactly those distinct input hashes that are below the threshold. The threshold never increases except on reset, the count equals the number of retained values, trimming leaves at most the nominal number, and a sketch that has never sampled reports the exact number of distinct inputs.",
     ["inputs", "histories"], "all update sequences, nominal sizes, resize factors, sampling probabilities, seeds, and interleaved trims and resets",
     "tests feed consecutive integers; probing, resizing and rebuilding must lose and duplicate nothing for any order, collision pattern or table size",
     ["theta/hashtable.go", "theta/update_sketch.go", "internal/quick_select.go", "theta/builder.go"],
     [("open addressing probe", "theta/hashtable.go find"), ("rebuild by quickselect", "theta/hashtable.go rebuild"), ("growth", "theta/hashtable.go resize")],
     'Proved for all inputs: the probe sequence, insertion, growth, rebuild (with quickselect and the packing of the table), trim, reset and the update methods keep exactly the offered hashes below theta, each once, with theta non-increasing. Two number-theoretic facts about odd strides are axioms. Bounded: update histories through the public constructor and compaction (functional options and iterators are outside the verifier).')

prop("P03", "Theta set operations are exact on the retained samples",
     "Union, intersection, difference and Jaccard of theta sketches, in any operand form and order, yield exactly the result defined on their retained hashes and thresholds: threshold is the minimum of the operands' (further lowered only when a union is trimmed to its nominal size; a result that is exactly empty has threshold 1), and retained hashes are precisely those of the set expression below it. Operands are never modified, and operands hashed with a different seed are rejected.",
     ["inputs", "histories"], "all pairs and sequences of update, compact ordered, compact unordered and wrapped operands, empty, exact or sampled",
     "tests use a few cardinality/overlap combinations and compare estimates; exact content equality over all operand forms and sequences is not sampled",
     ["theta/union.go", "theta/intersection.go", "theta/a_not_b.go", "theta/jaccard_similarity.go", "theta/hashtable.go"],
     [("union", "theta/union.go"), ("intersection", "theta/intersection.go"), ("difference", "theta/a_not_b.go")],
     'Contracts on the iterators, the compact constructors, Union.Update/Result, Intersection.Update/Result, ANotB with both of its strategies and the QuickSelect they trim with are discharged for all operands (operands are seen through the Sketch interface, whose contract the three sketch types meet). The option constructors and the Jaccard family, which combine these, are covered by the bounded search only.')

prop("P04", "Theta serialization round-trips in every format",
     "Any compact theta sketch, serialized in the plain or the compressed format, decodes back to the same hashes, threshold, emptiness, ordering and seed check, and reading the bytes in place without decoding gives the same values. Bytes written with a different seed, and truncated or malformed bytes of either format, are rejected with an error rather than misread or crashing.",
     ["inputs"], "all compact sketches (any entry count, delta width 1 to 63, threshold) and all byte strings",
     "tests round-trip a few sizes; the bit packing has 63 widths, 8-value blocks and tails, each of which must be an exact inverse",
     ["theta/bit_packing.go", "theta/encoder.go", "theta/decoder.go", "theta/compact_sketch.go", "theta/wrapped_compact_sketch.go"],
     [("bit packing", "theta/bit_packing.go"), ("decode", "theta/decoder.go"), ("in-place reader", "theta/wrapped_compact_sketch.go")],
     'contracts on every reader of versions 1 to 4, the reader in place, all 126 fixed-width bit packers, the general bit packer, the block dispatchers and both image writers, with a lemma that the differences restore the hashes')

prop("P05", "Count-min never underestimates, and merge and serialization preserve it",
     "For any sequence of non-negative weighted updates the estimate of every item is at least its true total weight and its lower bound equals the estimate, while the reported total weight is exact. Merging two compatible sketches gives exactly the sketch of the concatenated streams, incompatible ones are rejected, and a serialized sketch restores to one giving identical answers.",
     ["inputs", "histories"], "all update streams, table shapes, seeds, merges and serialized images",
     "tests try a few items; one-sided error must hold for every stream, collision pattern and table shape",
     ["count/count_min_sketch.go", "count/utils.go"],
     [("update every row", "count/count_min_sketch.go Update"), ("estimate is the minimum over rows", "count/count_min_sketch.go GetEstimate"), ("cell-wise merge", "count/count_min_sketch.go Merge")],
     "The contracts cover every function on the path from update to estimate: each row's cell of an item is inside the table and is the one estimates read; updates add the weight to exactly those cells; the estimate is the minimum over them; merging adds cell by cell and rejects other shapes. Row seeds (math/rand) are a trusted pure function of the seed; serialization goes through encoding/binary on interfaces and is covered by the bounded search only.")

prop("P06", "Bloom filters have no false negatives and exact bit bookkeeping",
     "Every item ever added to a Bloom filter is reported as present, through any later updates, unions and serialization round trips; query-and-update reports the state before the update. The reported number of used bits always equals the number of set bits, union is the bitwise or, intersection the bitwise and, inversion the complement, and incompatible filters are rejected.",
     ["inputs", "histories"], "all item sequences of every supported type, filter sizes, hash counts, seeds and operation histories",
     "tests check a few thousand consecutive integers on a few sizes; absence of false negatives and exact counting must hold for all sizes including partial last words",
     ["filters/bloom_filter.go", "filters/bit_array.go", "filters/bloom_filter_builder.go"],
     [("bit setting", "filters"), ("hash index derivation", "filters/bloom_filter.go")],
     'The contracts cover bit addressing, the hash index derivation, update, query, query-and-update, union, intersection, inversion, reset and the bit count, for every filter size and hash count. xxhash is a trusted pure function of seed and bytes. The byte encoding of float, array and string items and the serialized form are covered by the bounded search.')

prop("P07", "Frequent-items bounds always bracket the true frequency",
     "For any stream of weighted items, merges and serialization round trips, every item's lower bound is at most its true total weight and its upper bound at least it, with the gap at most the reported maximum error, and the reported stream weight is exact. Heavy-hitter reports contain every item above the threshold when false positives are allowed and none below it when they are not.",
     ["inputs", "histories"], "all weighted streams, map sizes, purge points, merges and serialized images, for both the long and the generic sketch",
     "tests use small fixed streams; the bracket must survive every purge, resize and merge order",
     ["frequencies/longs_sketch.go", "frequencies/items_sketch.go", "frequencies/reverse_purge_long_hash_map.go", "frequencies/reverse_purge_item_hash_map.go"],
     [("purge by sampled median", "frequencies/reverse_purge_long_hash_map.go purge"), ("offset accounting", "frequencies/longs_sketch.go Update")],
     "contracts on the whole longs counter map (probing, insertion, deletion with back-shifting, the purge, resizing) and on the long sketch's update and bounds: lower and upper bracket for every history of updates, exact stream weight; merge, images, heavy-hitter rows and the generic sketch by bounded search")

prop("P08", "KLL sketches conserve weight, extremes and state",
     "For any stream, merge history and serialization round trip, the retained items of a KLL sketch carry total weight equal to the number of inputs, are a sub-multiset of the inputs, and the reported minimum and maximum are those of the whole stream. While no compaction has been needed the sketch retains every input exactly, and a merge never changes its source.",
     ["inputs", "histories"], "all streams, item types, comparators, k, merges of any sizes and serialized images",
     "tests check a few stream lengths with one compaction pattern; weight conservation must hold through every compaction, level growth and merge",
     ["kll/items_sketch.go", "kll/utils.go"],
     [("compaction on update", "kll/items_sketch.go compressWhileUpdatingSketch"), ("merge", "kll/items_sketch.go mergeHigherLevels"), ("general compress", "kll/items_sketch.go generalItemsCompress")],
     'contracts (every int64 stream, every k and m) on the level capacities, the choice of the level to compact, random halving of runs in both directions, the merge of sorted runs, the opening of a new top level, one whole compaction during update and the update and reset themselves: the level boundaries stay ordered and within the item array, every level above zero stays sorted, total retained weight equals the number of inputs, minimum and maximum follow the stream; merge, the general compression it uses, images, other item types and where compacted items come from by bounded search')

prop("P09", "REQ sketches conserve weight, extremes and state",
     "For any stream and merge history, the retained items of a REQ sketch carry total weight equal to the number of inputs, are a sub-multiset of the inputs, and the reported minimum and maximum are those of the whole stream. While no compaction has been needed the sketch retains every input exactly, and a merge never changes its source.",
     ["inputs", "histories"], "all streams, k, accuracy modes, merges of any sizes",
     "tests check a few stream lengths; weight conservation must hold through every compaction schedule, section split and merge",
     ["req/sketch.go", "req/compactor.go", "req/utils.go"],
     [("compaction", "req/compactor.go Compact"), ("merge", "req/sketch.go Merge")],
     'The compactors under contract: which offsets a compaction removes (an even, non-empty run at the right end), that exactly half of it reaches the next level, space and capacity changes that keep every item, merges that add counts; over these, the total weight of the compactors (a sum with a proved lemma library) equals n through NewSketch, Update, compress, Merge and Reset, with the minimum and maximum of the whole stream. Sub-multiset membership and untouched sources are covered, bounded, by the harness.')

prop("P10", "t-digest conserves weight and extremes and answers monotonically",
     "For any stream, merge history and serialization round trip a t-digest's total weight equals the number of accepted inputs, its minimum and maximum are those of the stream, and its centroids lie in order within that range. Quantiles are non-decreasing in rank and stay within [min, max], ranks are non-decreasing in value and stay within [0, 1], and merging leaves the source unchanged.",
     ["inputs", "histories"], "all finite streams, compression settings, merges and serialized images",
     "tests use uniform streams; ordering and conservation must hold for any distribution, duplicates and merge pattern",
     ["tdigest/double.go", "tdigest/double_encoder.go", "tdigest/double_decoder.go"],
     [("merge pass", "tdigest/double.go merge"), ("rank and quantile interpolation", "tdigest/double.go")],
     'The merge pass, compress, Update, Merge, NewDouble, the state constructor, centroid combination, Quantile and the image size under contract: the centroids weigh exactly the recorded total (a sum over the centroid array with a proved lemma library), the total is the number of accepted inputs through updates and merges, the extremes are those of the stream, every centroid and buffered value lies between them, a merge leaves its source and its ownership alone, and quantiles lie within the extremes with the extremes at ranks 0 and 1. Monotonicity (a relation between two calls), the range of Rank and the images are covered, bounded, by the harness.')

prop("P11", "Reservoir samples are exact-size sub-multisets of the stream",
     "After any stream, union and serialization round trip a reservoir sketch holds exactly min(n, k) items, all taken from the stream with no item used more often than it occurred, and reports the exact number of items seen. Below capacity it holds the stream itself.",
     ["inputs", "histories"], "all streams, capacities, unions in any order, serialized images and random choices",
     "tests check a few sizes; size and membership must hold for every stream length, union order and random outcome",
     ["sampling/reservoir_items_sketch.go", "sampling/reservoir_items_union.go"],
     [("replacement", "sampling/reservoir_items_sketch.go Update"), ("union", "sampling/reservoir_items_union.go")],
     'The contracts cover the constructor with its options, growth, update, samples, reset, copy, downsampling, all three ways the union merges two reservoirs, its updates and its result: sizes, the item count, membership with multiplicity (an occurrence count over the arrays) and that operands stay untouched. Random choices are arbitrary values in their range. Item type int64 (the code is parametric apart from the nil test). Images are covered by the contract of the state constructor and the bounded search.')

prop("P12", "VarOpt samples conserve total weight and heavy items",
     "After any weighted stream, union and serialization round trip a VarOpt sketch holds min(n, k) items taken from the stream, its sample weights sum to the stream's total weight up to rounding, and every sampled item is reported with at least its own weight. While no sampling has been needed it holds exactly the stream with the original weights.",
     ["inputs", "histories"], "all positive weight streams, capacities, union orders, serialized images and random choices",
     "tests check few weight patterns; the heap/reservoir partition must conserve weight for every weight order",
     ["sampling/varopt_items_sketch.go", "sampling/varopt_items_union.go"],
     [("candidate set growth and downsampling", "sampling/varopt_items_sketch.go"), ("heavy heap", "sampling/varopt_items_sketch.go")], claimed=False)

prop("P13", "HLL keeps the maximum of every slot through all representations",
     "For any stream, an HLL sketch's state is determined by the set of distinct inputs: every slot holds the largest value hashed to it, in each of the 4, 6 and 8 bit forms and through the list, set and array stages. Copying to another form, unioning and serialization round trips preserve the slots, unions equal the sketch of the combined stream, and duplicates or reordering never change register contents.",
     ["inputs", "histories"], "all streams, precisions, target types, conversions, unions and serialized images",
     "tests check estimates within tolerance; the register semantics across packing, exceptions and conversions must hold for every value pattern",
     ["hll/hll_4array.go", "hll/hll_6array.go", "hll/hll_8array.go", "hll/aux_hash_map.go", "hll/coupon_hash_set.go", "hll/coupon_list.go", "hll/union.go"],
     [("nibble packing with exceptions", "hll/hll_4array.go"), ("6-bit packing", "hll/hll_6array.go"), ("auxiliary map", "hll/aux_hash_map.go")],
     "The nibble and 6-bit packings (each slot read back, every other slot unchanged, as bit vectors), the HLL_6 and HLL_8 register updates (the addressed slot becomes the maximum of its value and the coupon's, all others and the zero count keep), the coupon hash probe, table growth, set updates and the list with its promotion to a set (exactly the coupons put in, each once) are under contract and proved for all inputs. Promotion to registers, HLL_4 exceptions, conversions, unions and images are compared with exact slot maxima by the harness, which inverts the hash to choose every address and value: bounded. Unions whose source has a larger K in HLL mode return an error (upstream: not implemented).")

prop("P14", "CPC coupon set is exact through flavors, unions and compression",
     "For any stream the coupons recorded by a CPC sketch are exactly the distinct ones its inputs produce, whatever internal form holds them, and their count is exact. Unions record the set union at the smaller precision, and compressing and decompressing restores exactly the same sketch.",
     ["inputs", "histories"], "all streams, precisions, unions and serialized images across all internal flavors",
     "tests check estimates and a few stream lengths; the table/window bookkeeping must be exact at every flavor transition",
     ["cpc/cpc_sketch.go", "cpc/pair_table.go", "cpc/cpc_union.go", "cpc/cpc_compressed_state.go", "cpc/bit_matrix.go"],
     [("pair table", "cpc/pair_table.go"), ("sliding window", "cpc/cpc_sketch.go"), ("compression", "cpc/cpc_compressed_state.go")], claimed=False)

prop("P15", "Hashing conforms to MurmurHash3 for all input types",
     "For every key, length and seed the library's 128-bit hash equals the reference MurmurHash3 x64 128 of the little-endian bytes, whichever input type carries them, so sketches built here match those of other languages. Canonical forms agree: negative zero hashes as zero and every NaN hashes alike where the sketch documents it.",
     ["inputs"], "all byte strings, integer and integer slices of every length, and seeds",
     "tests check a few vectors; the block/tail paths have 16 tail lengths and several typed entry points",
     ["internal/murmur3.go", "theta/update_sketch.go", "internal/utils.go"],
     [("block mixing", "internal/murmur3.go"), ("tail handling", "internal/murmur3.go"), ("typed wrappers", "internal/murmur3.go")],
     "Proved (bit-vector mode, equality with a reference MurmurHash3_x64_128 written in the contracts): HashByteArrMurmur3, HashInt64SliceMurmur3, HashInt32SliceMurmur3 for every key, offset, length and seed, ComputeSeedHash, and that theta's int64/int32/byte screening uses that hash of exactly its argument. Canonicalisation of floats, the tuple entry points, and the CPC and HLL entry points (which call the external twmb/murmur3) are covered by the bounded harness against an independent implementation.")

prop("P16", "Tuple sketches keep one correct summary per retained key",
     "A tuple sketch retains exactly the distinct keys a theta sketch of the same stream would, each with the summary obtained by folding every update of that key in order. Union combines the summaries of matching keys with the user's policy, intersection keeps the keys common to all operands with combined summaries, difference keeps the first operand's summaries, and filtering keeps exactly the entries satisfying the predicate.",
     ["inputs", "histories"], "all keyed update streams, policies, set-operation sequences and operand forms",
     "tests check sums on small ranges; key/summary pairing must survive probing, resizing, rebuilding and set operations",
     ["tuple/hashtable.go", "tuple/update_sketch.go", "tuple/union.go", "tuple/intersection.go", "tuple/a_not_b.go"],
     [("entry table", "tuple/hashtable.go"), ("set operations", "tuple/union.go, tuple/intersection.go, tuple/a_not_b.go")],
     'contracts, for every summary type, on the entry table (probing, insertion, growth, rebuild, trim, reset), on updates of every key form (the set follows the theta rule, every other key keeps its summary, the updated key carries the fold) and on union, intersection, difference, compact and filter (retained sets); how set operations combine the summaries, ordering, the columnar variants, images and mixed theta operands by bounded search; generic quickselect is trusted (its proved twin is QuickSelect)')

prop("P17", "Confidence bounds bracket the estimate and nest by confidence",
     "For every sketch state, the lower bound at any number of standard deviations is at most the estimate and the upper bound at least it, wider confidence never gives a narrower interval, and in exact mode both equal the exact count. No lower bound is below the number of retained distinct samples where the sketch documents it, and rank bounds stay within [0, 1].",
     ["inputs"], "all sample counts, thresholds, confidence levels, ranks and sketch configurations",
     "tests check selected counts; the bracket must hold across all table look-up regions and their joins",
     ["internal/binomialbounds", "internal/binomialproportionsbounds", "theta/compact_sketch.go", "hll/utils.go", "cpc/utils.go", "req/sketch.go"],
     [("binomial bounds", "internal/binomialbounds"), ("bounds entry points", "theta, hll, cpc, req")], claimed=False)

prop("P18", "Item serializers round-trip every value",
     "For every list of 64-bit integers, floats or strings the bundled item serializers restore exactly the list they wrote, their announced sizes equal the bytes produced, and any truncated input is rejected with an error.",
     ["inputs"], "all item lists, including empty strings and lists, and all truncations",
     "tests use short ASCII lists; offsets must be right for every length mix",
     ["common/item_sketch_long.go", "common/item_sketch_double.go", "common/item_sketch_string.go"],
     [("offset arithmetic", "common/item_sketch_string.go")],
     'contracts on all item serdes (SizeOf, SizeOfMany, SerializeOne/Many, DeserializeMany) with round-trip lemmas; the one open finding is the image of a single empty string')

exec(open(os.path.join(V, "bin", "claims.py")).read()) if os.path.exists(os.path.join(V, "bin", "claims.py")) else None

if __name__ == "__main__":
    with open(os.path.join(V, "properties.jsonl"), "w") as f:
        for p in P:
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                                "anchors": {"files": p["files"], "mechanism": [{"name": a, "where": b} for a, b in p["mech"]], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "bash bin/setup.sh",
         "checks": [{"property": p["id"], "quick_cmd": "python3 bin/check.py %s quick" % p["id"], "thorough_cmd": "python3 bin/check.py %s thorough" % p["id"],
                     "evidence_file": "evidence/%s.json" % p["id"], "technique": p["tech"] or TECH, "level": p["level"], "level_note": p["note"] + BND}
                    for p in P if p["claimed"]],
         "not_applicable": [{"property": p["id"], "reason": p["na"] or "no check has been built for it yet"} for p in P if not p["claimed"]],
         "notes": "One driver (bin/check.py) per property: gover regenerates and discharges the obligations of contracts/*.spec from /repo's current source; harness/<id> runs the real code to look for a failing input and to cover, bounded, what is outside the verifier's reach. See DESIGN.md."}
    json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)

    import glob
    d = open(os.path.join(V, "bin", "DESIGN.tmpl.md")).read()
    notes = json.load(open(os.path.join(V, "bin", "design_notes.json"))) if os.path.exists(os.path.join(V, "bin", "design_notes.json")) else {}
    out = []
    for p in P:
        out.append("### %s  %s\n\n%s\n\n%s\n" % (p["id"], p["title"], p["note"] or "", notes.get(p["id"], "") if p["claimed"] else "Not claimed: " + (p["na"] or "no check built yet")))
    seeds = ["| bug | property | needs | caught by |", "|---|---|---|---|"]
    caught = notes.get("caught", {})
    for f in sorted(glob.glob(os.path.join(V, "seeded", "*", "meta.json"))):
        m = json.load(open(f)); i = os.path.basename(os.path.dirname(f))
        seeds.append("| %s | %s | %s | %s |" % (i, m["property"], m["needs"], caught.get(i, "see property")))
    open(os.path.join(V, "DESIGN.md"), "w").write(d.replace("@PROPS@", "\n".join(out)).replace("@SEEDS@", "\n".join(seeds)))
