#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (python3 props.py)."""
import json, os
V = os.path.dirname(os.path.abspath(__file__))
P = []
NA = []
def prop(id, title, statement, over, text, why, files, mech, note=None, na=None, observe=None):
    P.append({"id": id, "title": title, "statement": statement, "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "mechanism": [{"name": a, "where": b} for a, b in mech], "observe_at": observe or [], "hook_needed": None}})
    assert len(title) <= 80, title
    if na: NA.append({"property": id, "reason": na})
    else: P[-1]["_note"] = note

prop("C01", "CRC32 equals the IEEE polynomial for every buffer and alignment",
     "For every buffer, length, start alignment and initial value, the checksum equals the CRC-32 (IEEE 802.3, reflected) of the bytes, and checksumming a buffer in pieces gives the same value as checksumming it at once. No byte outside the buffer is read.",
     ["inputs"], "every content, length, alignment and seed", "the tests compare a few random buffers with a table of the same algorithm; a wrong table entry or a wrong tail/alignment branch shows only for particular bytes",
     ["src/crc32.cc", "src/crc32.h"], [("slicing-by-8/16 update loops and tail handling", "src/crc32.cc")],
     "every content up to the stated length; the implementation is compared with a bit-serial CRC written in the harness")
prop("C02", "Key hash equals MurmurHash3 for every key and never reads outside it",
     "The 32-bit and the 128-bit hash of a key are those of MurmurHash3 for every key and seed, so that data hashed by one version is found by every other. Hashing reads exactly the bytes of the key.",
     ["inputs"], "every key content, length and seed", "no test covers the hash on its own; a wrong tail byte only costs lookups of keys of one residue class",
     ["src/murmurhash3.cc", "src/murmurhash3.h"], [("block loop, tail switch, finalisation", "src/murmurhash3.cc")],
     "every content up to the stated length, against an independently written reference")
prop("C03", "Bloom filter has no false negatives and survives export and import",
     "A key that was added to a Bloom filter is always reported as possibly present, also after the filter was exported to bytes and read back in another instance. Pre-computed hash pairs give the same answers as the key itself.",
     ["inputs", "histories"], "every set of keys, filter size, number of hash functions", "the tests sample random keys on one filter size",
     ["src/bloomfilter.cc", "src/bloomfilter.h"], [("set/check bit addressing", "src/bloomfilter.cc"), ("export/import", "src/bloomfilter.cc")],
     "symbolic keys and hash values within the stated filter sizes")
prop("C04", "Bitmap operations address exactly the bits they name",
     "Setting or clearing a bit of the bitmap returns its previous value and changes exactly that bit, for every size and index; reading returns the last value written; moving one bitmap into another transfers every bit. Two threads changing different bits lose no update.",
     ["inputs", "histories", "schedules"], "every size, index and sequence of operations within the bounds, every schedule of two threads", "boundary indices, and schedules of two threads changing one byte, are not covered by the tests",
     ["src/generic_bitmap.h"], [("mask computation and per-region locking", "src/generic_bitmap.h")],
     "symbolic indices within the stated sizes")
prop("C05", "Serialised fields round-trip and reads never leave the buffer",
     "Every sequence of numbers, byte strings and sized buffers written through the serializer to memory, to a growing buffer or to a file is read back unchanged, in big-endian form and at the positions reported. A read succeeds exactly if it stays inside the data; otherwise it reports an error and does not move.",
     ["inputs", "histories"], "every item sequence and content, and every hostile buffer", "the tests write well-formed data only",
     ["src/internal_helper.cc", "src/internal_helper.h", "src/endian_encode.h"], [("RwSerializer bounds checks and growth", "src/internal_helper.cc"), ("append_/read_ helpers", "src/internal_helper.h")],
     "item sequences within the stated lengths; file mode runs over the in-memory file system model")
prop("C06", "Key buffers compare like byte strings, a total order",
     "Comparing two sized buffers gives the lexicographic order of their bytes with a prefix smaller than its extension, for buffers of every size including empty ones; it is antisymmetric and transitive and equality agrees with it. Records and key-value pairs inherit that order.",
     ["inputs"], "every pair and triple of buffers, every size up to 2^32", "tests compare a few short keys; sizes whose difference overflows an int, high-bit bytes and embedded zeros are not covered",
     ["include/libjungle/sized_buf.h"], [("SizedBuf::cmp and operators", "include/libjungle/sized_buf.h")],
     "all contents up to the stated length; sizes fully symbolic")
prop("C07", "Buffer ownership: copies are deep, moves and frees release exactly once",
     "A buffer that was copied, cloned, resized, appended to or moved owns exactly the memory it allocated: contents survive the source's destruction, nothing is freed twice, nothing leaks, and references never free. The same holds for key-value pairs and records built from buffers.",
     ["histories", "inputs"], "every sequence of buffer operations within the bounds", "tests run single operations; only sequences mixing references, moves and resizes show a double free or a leak",
     ["include/libjungle/sized_buf.h", "include/libjungle/keyvalue.h", "include/libjungle/record.h"], [("ownership flags", "include/libjungle/sized_buf.h")],
     "operation sequences within the stated length, with symbolic contents; heap accounting and memory safety are checked on every path")
prop("C08", "Buffered file operations behave like a byte array, or report failure",
     "Opening, writing, appending, reading, truncating and syncing through the buffered file interface gives exactly the effects of those operations on a byte array, for every sequence, offset and size. A failed or short system call is reported as an error and the end-of-file position stays truthful.",
     ["histories", "inputs", "fault_sequences"], "every sequence of operations and every failing call within the bounds", "tests use a fixed sequence without failing or short system calls",
     ["src/fileops_posix.cc", "src/fileops_base.h"], [("error and short count handling", "src/fileops_posix.cc")],
     "sequences within the stated length over the in-memory POSIX file system model")
prop("C09", "Direct-I/O file operations behave like a byte array; fsync is durable",
     "Appends, reads, truncation and flushes through the direct-I/O interface behave like the same operations on a byte array for every size and offset, including data still in the write buffer and files reopened after closing. After a successful fsync, everything appended before survives a crash.",
     ["histories", "inputs", "crash_points"], "every sequence of operations, size and offset within the bounds, every crash point", "tests use one alignment and a fixed sequence",
     ["src/fileops_directio.cc", "src/fileops_directio.h"], [("aligned buffer, tail rewriting, end-of-file bookkeeping", "src/fileops_directio.cc")],
     "sequences within the stated length with a reduced alignment unit over the in-memory file system model")
prop("C10", "Skip list is an ordered multiset under every operation sequence",
     "For every sequence of insertions, duplicate-free insertions, removals and lookups the skip list holds exactly the elements inserted and not removed, in order, and exact, at-most and at-least lookups return the right neighbour. Removed elements become safe to free exactly when nobody uses them, and an iteration standing on a removed element continues correctly.",
     ["histories", "inputs"], "every operation sequence, key order and tower height within the bounds", "tests insert random keys with random tower heights; particular height patterns never occur",
     ["src/skiplist.cc", "src/skiplist.h"], [("layered search, link/unlink protocol, reference counts", "src/skiplist.cc")],
     "all tower heights and key orders within the bounds")
prop("C11", "Skip list stays an ordered set under concurrent use",
     "Under every interleaving of concurrent insertions, removals, lookups and iteration every operation finishes, no completed insertion is lost, no removed element reappears, lookups return a correct result for some moment of their execution, and an element is never accessed after it was reported safe to free.",
     ["schedules", "histories"], "every schedule with the stated number of preemptions of two threads", "the concurrent tests run a handful of schedules out of astronomically many",
     ["src/skiplist.cc"], [("per-node modification flags, access counters, retry loops", "src/skiplist.cc")],
     "sequentially consistent interleavings with bounded preemptions")
prop("C12", "AVL tree is a balanced ordered set under every operation sequence",
     "For every sequence of insertions and removals the tree holds exactly the elements inserted and not removed, in search order, with subtree heights differing by at most one; inserting a present key returns the present element. Exact, at-least and at-most lookups and both walk directions return exactly what an ordered set would.",
     ["histories", "inputs"], "every operation sequence and key order within the bounds", "no stable test covers removals in every shape; a wrong rotation case shows only for one shape",
     ["src/avltree.cc", "src/avltree.h"], [("rotations and balance factors", "src/avltree.cc")],
     "all key orders and operation sequences within the bounds")
#---- more
exec(open(os.path.join(V, "props_more.py")).read()) if os.path.exists(os.path.join(V, "props_more.py")) else None

def main():
    TRUST = (" Decided by symbolic execution of the LLVM IR clang makes from /repo's current sources; assertions, memory safety and branch feasibility are "
             "discharged by an SMT solver (z3), by GF(2) elimination or by exhaustive search of small symbol domains; bounds are in the harness and in the evidence. "
             "Trusted: the engine (every counterexample is replayed natively and a sample of passing paths is compared with native runs), clang, libstdc++ models, bounds.")
    with open(V + "/properties.jsonl", "w") as f:
        for p in P: f.write(json.dumps({k: v for k, v in p.items() if k[0] != "_"}) + "\n")
    m = {"version": 1, "setup_cmd": "make -s -C engine -j8 && python3 run.py --warm",
         "checks": [{"property": p["id"], "quick_cmd": "python3 run.py %s --tier quick" % p["id"], "thorough_cmd": "python3 run.py %s --tier thorough" % p["id"],
                     "technique": "symbolic execution of the compiled implementation (LLVM IR) with SMT solving, native replay of counterexamples",
                     "level": "model_checking", "level_note": p["_note"][0].upper() + p["_note"][1:] + "." + TRUST} for p in P if p.get("_note")],
         "not_applicable": NA,
         "notes": "No hooks in /repo. Repairs of genuine defects are the fix: commits listed in known_findings.json."}
    json.dump(m, open(V + "/MANIFEST.json", "w"), indent=1)
    open(V + "/MANIFEST.json", "a").write("\n")
    print(len(P), "properties", len(m["checks"]), "checks")
if __name__ == "__main__": main()
