#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, os
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
BFS = "explicit-state breadth-first search over the real code against a reference model"
ENUM = "exhaustive bounded enumeration of executions of the real code against a reference model"
T = {
 "C01": (BFS, "all reachable states and operation sequences for small capacities (state space closed, no depth bound), every (offset, fill) pair and element size of a grid, and long wrap-around histories up to large capacities"),
 "C02": (BFS, "all reachable states for small capacities and priority alphabets including the extremes, all priority sequences of a bounded length, every position of the winner for larger capacities"),
 "C03": (BFS, "all reachable full states and every new priority against them, every position of the victim for larger capacities"),
 "C04": (BFS, "all reachable maps for small capacities and colliding key alphabets, every single key byte and position, key and value sizes, many keys"),
 "C05": (BFS, "all task tables up to a size with every task action of a finite menu, including tasks that change the running table"),
 "C06": (ENUM, "all key arrays up to a length for every sort and several element sizes, structured arrays of many lengths and element sizes beyond 2^16 elements"),
 "C07": ("exhaustive exploration of all answer sequences of the comparison function (environment choice tree) on the real code", "every answer the comparison function can give is a branch; complete trees for small arrays, scripted hostile functions for larger ones"),
 "C08": (ENUM, "all key arrays up to a length for every element size of a list; structured longer arrays"),
 "C09": (ENUM, "all 3-byte groups, all short texts, every capacity around the required one, all lengths of a range"),
 "C10": (ENUM, "all four-character groups, all tails in both alphabets with and without padding, every capacity, all lengths of a range"),
 "C11": (ENUM, "every variant against a bit-serial reference: all messages of up to two bytes, single-byte patterns at every position, all lengths of a range"),
 "C12": (ENUM, "every variant, every way to cut messages up to a length (all compositions), all two-way cuts of longer ones"),
 "C13": (ENUM, "all 8-bit polynomials, structured 16 and 32-bit ones, all option combinations, structured initial and final values"),
 "C14": (ENUM, "every bit of key, nonce and counter, all lengths of a range, counter wrap, against an independent implementation pinned to the RFC vectors"),
 "C15": (ENUM, "all lengths of a range and all block cuts, in place and separate"),
 "C16": (ENUM, "all bytes with all shifts, all pairs of bytes in a text, lengths"),
 "C17": (ENUM, "all message bytes with all key bytes, positions, all pairs of lengths of a range"),
 "C18": (BFS, "all reachable builder texts for every buffer size of a range and a finite menu of pairs, every fitting boundary"),
 "C19": (ENUM, "all objects of up to three members over confusable names and values, all white-space placements, sizes and terminators"),
 "C20": (ENUM, "all numeric texts up to a length, boundaries of ten digits, all non-digit bytes at all positions"),
 "C21": (ENUM, "all 8, 16 and 24-bit values, structured 32-bit values (all 2^32 in the thorough run), all blob sizes of a range with guards"),
 "C22": (ENUM, "all positions 0..255 over structured words (all 2^32 words for rotation and reflection in the thorough run)"),
 "C23": (BFS, "in every reachable state every refused call is followed by a bounded bisimulation of the states before and after it"),
 "C24": ("exhaustive bounded enumeration of executions with address-sanitizer poisoning around exactly sized buffers", "all executions of all other explorers plus all malformed inputs of a bounded length; accesses outside the given extents, or writes to inputs, fail"),
 "C25": ("exhaustive enumeration of call interleavings and of nested calls at every callback point", "all interleavings of bounded call sequences of all pairs and triples of objects and every nesting point of callbacks, compared with isolated runs"),
 "C26": ("exhaustive enumeration of call pairs and paintings of unspecified memory, compared differentially", "all ordered pairs of an alphabet of calls, stack and buffer paintings, and every reachable content of the library's own writable data"),
 "C27": (ENUM, "all combinations of missing/zero/negative arguments over all prior object contents of a menu; accepted configurations are filled to their capacity"),
 "C28": (ENUM, "all sizes of a range, alignments and all 256 characters"),
 "C29": (ENUM, "all one and two-byte payloads and payload lengths through the complete chain, every capacity boundary"),
 "C30": (ENUM, "every variant, every burst up to a bounded span at every bit position of bounded messages, all single-bit errors"),
 "C31": ("exhaustive bounded enumeration of executions in six builds, compared case by case", "digests of all observations of all explorers in six compiler/optimisation/char-signedness/initialisation combinations"),
 "C32": (ENUM, "all texts up to a length over alphabets of structural characters, all token sequences up to a length, all cuts and one-byte (some two-byte) changes of well-formed texts, several names and capacities"),
 "C33": ("exhaustive bounded enumeration of executions of the real code, monitored for undefined behaviour and unset values", "the executions of all other explorers in builds in which the compiler's run-time checks end the execution at the first undefined operation or use of an unset value"),
 "C34": ("exhaustive bounded enumeration of executions of the real code, monitored for allocations and stack depth", "the executions of all other explorers with a reporting allocator; every function with a range of amounts of data on a stack whose depth is measured"),
 "C35": (ENUM, "fixed histories over every stated combination of counts and sizes on both sides of 2 and 4 GiB, every element identified by stamps"),
 "C36": ("exhaustive bounded enumeration of executions of the real code, monitored for the steps of each call", "every function with a range of amounts of data and several shapes of contents in a build that counts basic blocks, compared with what small amounts need; the executions of the other explorers, each call of which has to return within a fixed number of steps"),
}
m = {"version": 1, "setup_cmd": "python3 run.py setup", "checks": [], "not_applicable": [],
     "notes": "No hooks in /repo: the library is driven through its public functions only; see DESIGN.md. Counterexamples: python3 run.py replay <file>."}
for p in sorted(T):
    m["checks"].append({
        "property": p,
        "quick_cmd": "python3 run.py check " + p,
        "thorough_cmd": "python3 run.py check %s --thorough" % p,
        "technique": "model checking: " + T[p][0],
        "level": "model_checking",
        "level_note": "Exhaustive within bounds: " + T[p][1] + ". Values outside the bounds and alphabets listed in DESIGN.md are not covered; trusts the reference model, compilers and x86-64."})
json.dump(m, open(os.path.join(V, "MANIFEST.json"), "w"), indent=1)
