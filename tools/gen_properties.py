#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as code so that the long texts stay readable)."""
import json, os
MAPS = ["int_map.go","string_map.go","bytes_map.go","arr_map.go","generic_map.go"]
SETS = ["int_set.go","string_set.go","bytes_set.go","arr_set.go","generic_set.go"]
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None, hook=None):
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech]}
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    if observe: a["observe_at"] = observe
    a["hook_needed"] = hook
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why, "anchors": a})

SEED = "the per-container hash seed is drawn at random, so which keys collide, at which trie level, is not under a test's control; with the real hash, sequential test keys never share more than a handful of 4-bit groups, and a re-hash (16 shared groups) is never reached"
HOOKM = "none in /repo: hash/maphash (MakeSeed and hashing) is replaced at build time with -overlay, and the package is compiled from an instrumented copy"

p("C01","Map lookups return exactly what was last written",
  "For IntMap, StringMap, BytesMap, ArrMap and Map, after any sequence of Set, Mod and Del calls, Get, Val and Ptr for a key return the value last written for exactly that key if it is present, and (zero, false), zero and nil if it is not. This holds for every hash seed and every pattern of hash collisions among distinct keys (short of keys that collide under every rehash), every key in the key type's range, and every value type.",
  ["inputs","histories","configurations"],
  "all five map types with all provided and user-defined key types, all histories of Set/Mod/Del/lookup, all hash seeds and collision patterns, all value types",
  "TestStringMap/TestIntMap insert 0..N-1 in order into two of five map types; Map, ArrMap and BytesMap have almost no tests; "+SEED,
  ["amt.go"]+MAPS,
  [("trie descent by 4 hash bits with rehash every 16 levels","Ptr/Set/Mod/Del in *_map.go"),
   ("conflict split: push the resident entry and the new entry down until their hash bits differ","Set/Mod in *_map.go"),
   ("sorted compact arrays grown in blocks of 4","newLinkArray in amt.go, shift loops in Set/Mod/Del")],
  [("link.pmap/link.tmap","presence and type bits per branch, or an inline integer key","amt.go")],
  ["Get, Val, Ptr return values"], HOOKM)

p("C02","Set membership is exact",
  "For IntSet, StringSet, BytesSet, ArrSet and Set, after any sequence of Add and Del calls, Has(key) is true if and only if key was added and not deleted since. This holds for every hash seed and every pattern of hash collisions among distinct keys (short of keys that collide under every rehash) and for every key in the key type's range.",
  ["inputs","histories","configurations"],
  "all five set types with all provided and user-defined key types, all histories of Add/Del/Has, all hash seeds and collision patterns",
  "only StringSet and IntSet are exercised beyond one key, with sequential keys; BytesSet and ArrSet have no test at all; "+SEED,
  ["amt.go"]+SETS,
  [("trie descent, conflict split and array growth as for maps, without values","Has/Add/Del in *_set.go"),
   ("integer keys stored inline in the link bit maps","int_set.go")],
  None, ["Has return value"], HOOKM)

p("C03","Deletion removes exactly the requested key",
  "In every map and set type, Del(key) removes key and nothing else: afterwards key is absent, every other key is still present with its value, and a later insertion of key starts fresh (a map's Mod reports it as new with a zero value). Del of an absent key changes nothing observable, at any trie depth and whether the absent key's hash path ends at an empty slot, inside a branch or at another key.",
  ["inputs","histories","configurations"],
  "all container types, all histories, all hash seeds and collision patterns, deletion of present and absent keys",
  "tests delete ascending ranges from two map and two set types and never check the neighbours of a deleted key in deep, rehashed or collapsing branches; BytesSet.Del, ArrSet.Del and generic Del have no test; "+SEED,
  ["amt.go"]+MAPS+SETS,
  [("remove from compact array, shift back or reallocate every 4 entries","Del in every file"),
   ("replace single-valued branches with their key-value up to the root","Del in every file"),
   ("path stack recorded during descent","Del in every file")],
  [("path","branches traversed by a deletion","amt.go root.path / Del")],
  ["Has/Get/All after Del"], HOOKM)

p("C04","Len is the exact number of stored keys",
  "In every map and set type, Len returns the number of distinct keys currently stored after every operation of any history: it grows by one exactly when an absent key is inserted (through Set, Mod or Add), shrinks by one exactly when a present key is deleted, and is unchanged by updates of existing keys, deletes of absent keys, lookups and iteration.",
  ["histories","configurations","inputs"],
  "all container types, all histories, all hash seeds and collision patterns",
  "tests compare Len after bulk phases of one million fresh keys, where an error on a rare path (deep collision, Mod insert, delete of an absent key) is either not reached or not attributable; most container types are not covered",
  ["amt.go"]+MAPS+SETS,
  [("len counter updated on each insert and delete path","Set/Mod/Add/Del in every file"),("Len","amt.go root.Len")],
  [("root.len","number of entries","amt.go")], ["Len return value"], HOOKM)

p("C05","Iteration visits every entry exactly once and stops on request",
  "In every map and set type, All calls the callback exactly once for each stored key and for nothing else, with that key and (for maps) a pointer to its live current value through which it can be updated, and makes no further call once the callback returns false. Two calls of All with no insertion or deletion in between visit the keys in the same order.",
  ["inputs","histories","configurations"],
  "all container types, all reachable contents, all hash seeds and collision patterns, every stopping position",
  "tests only count callbacks over a full map, never check which keys were visited, never stop early, never update through the pointer, and never iterate deep or partially deleted tries",
  ["amt.go"]+MAPS+SETS,
  [("recursive scan over presence bits in ascending order","intScan, stringScan, bytesScan, arrScan, mapScan and the *SetScan functions")],
  None, ["sequence of callback calls"], HOOKM)

p("C06","Mod calls its callback once with the right value and keeps the result",
  "For every map type, Mod(key, f) calls f exactly once: with true and a pointer to the current value if key is present, otherwise with false and a pointer to a zero value. When f returns, lookups of key (present even if f wrote nothing) see what f left behind the pointer, and no other key is affected.",
  ["inputs","histories","configurations"],
  "all map types and value types, all histories, all hash seeds and collision patterns, callbacks that write, do not write, or read",
  "TestModify makes two calls on a StringMap with one resident key; the collision and rehash branches of Mod in all five map types are never executed by a test",
  MAPS,
  [("separate copy of the insertion logic with the callback in place of the value","Mod in *_map.go")],
  None, ["callback arguments, later Get"], HOOKM)

p("C07","Value pointers stay attached to their entry",
  "A value pointer obtained from Ptr, from Mod's callback or from All's callback keeps referring to that key's live value for as long as the key stays in the map: writes through it are seen by every later lookup, and Set, Mod and writes through other pointers to that key are seen through it. Insertions and deletions of other keys, however they reorganise the map, never detach or redirect it.",
  ["histories","inputs","configurations"],
  "all map types, all histories between obtaining and using a pointer, all hash seeds and collision patterns",
  "no test holds a pointer across another operation; the pointer must survive splits, array growth, shrink and branch collapse, which depend on random hash bits",
  MAPS,
  [("entries are separately allocated and only links to them move","conflict split, array shift, collapse in Set/Mod/Del"),
   ("updates are made in place","Set/Mod on an existing key")],
  None, ["*Ptr(key) after other operations"], HOOKM)

p("C08","Same keys and seed give the same structure whatever the history",
  "Two containers of the same type with the same hash seed that hold the same keys are structurally identical whatever sequence of insertions (by any method), updates and deletions produced them: All visits their keys in the same order and Dep returns the same number. In particular a container from which keys have been deleted is indistinguishable from one in which they were never inserted.",
  ["histories","inputs","configurations"],
  "all container types, all pairs of histories ending in the same key set, all hash seeds and collision patterns",
  "TestCanonicalStructure builds two IntSets by the same insertion sequence and compares only Dep; no test compares different orders, other types, or a history with deletions, and equal seeds cannot be had through the public API",
  ["amt.go"]+MAPS+SETS,
  [("minimal split depth on insertion","Set/Mod/Add"),("collapse of single-valued branches on deletion","Del"),("depth bookkeeping","root.dep in amt.go")],
  [("root.dep","sum of entry depths","amt.go")], ["order of All callbacks, Dep"], HOOKM)

p("C09","Dep is the exact mean trie depth",
  "Dep returns 0 for an empty container and otherwise exactly the mean, over the stored keys, of the number of levels below the root level at which each key is stored, where every level is indexed by 4 bits of the key's hash (continuing into its rehashes) and each key sits at the shallowest level at which its bits differ from those of every other stored key. It stays exact after every operation of any history, and for N keys with well-spread hashes it is on the order of log16(N).",
  ["histories","inputs","configurations"],
  "all container types, all histories, all hash seeds and collision patterns",
  "tests only check Dep > 1 for a million keys and 0 for none; a drift of the running sum on a rare path (multi-level split, rehash, collapse) is invisible to them",
  ["amt.go"]+MAPS+SETS,
  [("running sum of depths, adjusted on split, insert, delete and collapse","Set/Mod/Add/Del in every file"),("Dep","amt.go root.Dep")],
  [("root.dep","sum of entry depths","amt.go")], ["Dep return value"], HOOKM)

p("C10","Every operation makes progress and returns within a bounded number of steps",
  "Every operation on every container type returns within a number of steps bounded by the depth of the trie (for All: plus the number of entries), provided distinct keys get different hashes at some rehash; no key, collision pattern, history or earlier interrupted operation makes a call loop forever. The hash helpers (HashBytes and the Hash methods of Bytes, String and Int) return for every rehash count, after hashing the key a number of times proportional to that count.",
  ["inputs","histories","configurations","fault_sequences"],
  "all container types and hash helpers, all histories, all hash seeds and collision patterns reaching several rehashes, with and without injected callback panics",
  "a loop that only fails to end at a particular collision depth or rehash count needs a hash collision of 64 bits or more, which no test can produce with the real hash",
  ["amt.go"]+MAPS+SETS,
  [("descent and split loops consume 4 hash bits per turn and rehash when they run out","Ptr/Has/Set/Mod/Add/Del"),("rehash loops","HashBytes, Bytes.Hash, String.Hash, Int.Hash and the conflict rehash loops")],
  None, ["number of instrumented statements executed per call"], "statement counters: inserted into a build-time copy, not into /repo")

p("C11","A panicking callback leaves the container as if the call had not happened",
  "If code supplied by the user and called by an operation (the callback of Mod or All, or a key's Hash, Equal or KeyBytes method) panics or ends its goroutine, the container is left exactly as it was before the operation: same keys, values, Len, Dep and iteration order, except for what the callback itself wrote through the pointer of an already stored value. Every later operation on the container behaves as if the interrupted call had never been made.",
  ["fault_sequences","crash_points","histories","inputs"],
  "all container types with callbacks, every callback invocation of every operation as the point of interruption, panic and runtime.Goexit, all histories before and after, all hash seeds and collision patterns",
  "no test lets a callback panic; the vulnerable window (between the first change of a branch and the last) is only open when the new key collides with a stored one",
  ["amt.go"]+MAPS+["generic_set.go","arr_set.go"],
  [("the callback and the key methods are called before the structure is changed","Mod in *_map.go, Set/Mod in generic_map.go, Add in generic_set.go")],
  None, ["whole observable state after recover"], HOOKM)

p("C12","Reads from inside callbacks see a consistent container",
  "From inside the callback of Mod or All, lookups (Get, Val, Ptr, Has), Len, Dep and All on the same container work and see a consistent state: for Mod, the state before the call (a new key is not yet present; an existing value shows what the callback has written so far), for All, the current contents. The same goes for reads from inside the methods (Hash, Equal, KeyBytes) of the keys of generic and array containers, which see the state before the call. The outer operation then completes as if those reads had not been made.",
  ["schedules","histories","inputs"],
  "all container types, every callback and key method invocation, every mix of nested read operations, all hash seeds and collision patterns",
  "no test reads the container from a callback; the inconsistent window would only be open when the new key collides with a stored one",
  MAPS+SETS,
  [("structure is changed only after the callback has returned","Mod in *_map.go"),("scans hold no hidden state","*Scan functions")],
  None, ["results of nested reads"], HOOKM)

p("C13","Concurrent readers do not disturb each other",
  "Any number of goroutines may call read-only operations (Get, Val, Ptr, Has, All, Len, Dep, Nil) on the same container, directly or through copies of it, at the same time without synchronisation as long as none of them writes. Under every interleaving each call returns what it would return alone, nothing about the container changes, and there is no data race.",
  ["schedules","histories","configurations"],
  "all container types, all contents, all interleavings (at statement granularity) of read-only operations from several goroutines between write phases",
  "all tests are single-threaded, and even a stress test would sample the interleavings of reads that last a few nanoseconds at random",
  ["amt.go"]+MAPS+SETS,
  [("read paths use only local state (hash object, depth, bits)","Ptr/Has/All in every file"),("scratch space in the shared root is used by deletion only","root in amt.go, Del")],
  [("root.path","scratch that only a writer may touch","amt.go")], ["results of reads; race detector under the simulated schedule"],
  "yield points: inserted before every statement of a build-time copy, not into /repo")

p("C14","Copies of a container value are the same container",
  "A map or set value may be copied freely, and all copies denote one container: an operation made through any copy is seen through every other copy, in whatever goroutine, including copies made before the operation or while the container was empty. Threads that synchronise externally (one writer or many readers at a time) observe one linearizable dictionary through all copies.",
  ["schedules","histories"],
  "all container types, all ways of distributing copies over threads, all interleavings allowed by a readers-writer lock",
  "only TestNestedMap copies a map value, once, and never writes through the copy or uses it from another goroutine",
  ["amt.go"]+MAPS+SETS,
  [("the value is one pointer to a shared root","newRoot and the struct types"),("the first level array lives in the root, so the root never has to be replaced","amt.go root.items")],
  None, ["results through different copies"], "yield points: inserted into a build-time copy")

p("C15","Distinct containers never influence each other",
  "Operations on one container never change the contents or the results of another, whatever their types, and distinct containers may be used from different goroutines at the same time without synchronisation. This holds under every interleaving, also for nested use (operating on one container from inside a callback of another) and for containers that share keys or are stored as values in each other.",
  ["schedules","histories","configurations"],
  "any number of containers of any types, all histories on each, all interleavings at statement granularity, all nestings through callbacks",
  "all tests use one or two containers from one goroutine, one operation at a time; hidden sharing (a package-level scratch buffer, pool or cache) shows only under particular interleavings or nestings",
  ["amt.go"]+MAPS+SETS,
  [("no package-level mutable state; each root owns its seed, links and scratch","amt.go")],
  None, ["contents of every container"], "yield points: inserted into a build-time copy")

p("C16","Callers keep control of their key memory",
  "No operation writes to key memory it was given. A byte-slice key passed only to a lookup or a delete (Get, Val, Ptr, Has, Del) is not retained: the caller may reuse the buffer as soon as the call returns, at any time and with any contents, without any effect on the container; and the keys handed to All's callback are equal to the keys that were inserted.",
  ["histories","inputs","fault_sequences"],
  "BytesMap, BytesSet, Map[Bytes] and Set[Bytes], all histories, every moment and content of a buffer reuse, all hash seeds and collision patterns",
  "tests never reuse a key buffer; every key they pass is a fresh immutable string or integer",
  ["bytes_map.go","bytes_set.go","generic_map.go","generic_set.go"],
  [("lookups only read and hash the key","Ptr/Has/Del"),("only insertion of a new key stores the slice","Set/Mod/Add")],
  None, ["key bytes before and after; container state after buffer reuse"], HOOKM)

p("C17","A corrupted retained key damages at most its own entry",
  "If the caller breaks the rule that a retained key slice must not be modified, at most the entries whose key bytes were modified are affected (they may become unreachable by lookup, be found under another key, or be replaced by a colliding insertion). Every other entry is still found with its value and can be updated and deleted, other keys can be inserted, every operation returns, and Len equals the number of entries All visits.",
  ["fault_sequences","histories","inputs"],
  "BytesMap, BytesSet, Map[Bytes] and Set[Bytes], any set of stored key slices overwritten with any bytes at any points of any history, all hash seeds and collision patterns",
  "no test modifies a stored key; what happens depends on where the modified key's new hash points relative to its old place",
  ["bytes_map.go","bytes_set.go","generic_map.go","generic_set.go"],
  [("check that the conflicting key still hashes to its slot","Set/Mod in bytes_map.go"),("descent depends only on the searched key's hash","Ptr/Has/Set/Mod/Add/Del")],
  None, ["all entries with unmodified keys, Len, All"], HOOKM)

p("C18","Memory safety under any garbage collection and stack movement",
  "No operation on any container type reads or writes memory outside the live objects of that container, and every stored key and value stays intact, whenever and however often the garbage collector runs or goroutine stacks move, including in the middle of an operation. This holds for every key and value type (pointers, strings, slices, interfaces, zero-size and large values) and every history.",
  ["schedules","histories","inputs","configurations"],
  "all container and value types, all histories, garbage collection and stack relocation injected at arbitrary statements inside operations, all hash seeds and collision patterns",
  "the test suite runs with the collector's own timing, without pointer checks, and with int values only, so a hidden pointer or an out-of-range slot survives by luck",
  ["amt.go"]+MAPS+SETS,
  [("links keep pointers in unsafe.Pointer fields the collector can see and integers in separate fields","link in amt.go"),("arrays are allocated with a capacity that covers every slot addressed","newLinkArray and its callers")],
  None, ["values after injected collections; checkptr; poisoned freed memory"], "yield points: inserted into a build-time copy")

p("C19","Deleted entries are released",
  "Once a key has been deleted from a map or set (and the caller keeps no reference of its own), the container no longer keeps its key or its value alive: the garbage collector can reclaim both, whatever was done before or after the deletion, including deletes of absent keys. Likewise a value that has been overwritten is released, and entries still stored are never released.",
  ["histories","inputs","schedules"],
  "all container types with reclaimable keys or values, all histories, a collection at any point between operations, all hash seeds and collision patterns",
  "no test observes reachability; whether a deleted entry lingers in a spare array slot or in traversal scratch depends on its position among its neighbours' hash bits",
  ["amt.go"]+MAPS+SETS,
  [("traversal scratch is cleared to prevent leaks","Del in every file"),("vacated array slots and emptied branches are dropped","Del in every file")],
  [("root.path","traversal scratch of a deletion","amt.go")], ["weak pointers to deleted keys and values after a collection"], HOOKM)

p("C20","Uninitialised and new container values behave as documented",
  "Whatever the program did before or does at the same time with other containers: on a zero (uninitialised) map or set value, Nil returns true, Len and Dep return 0, Val returns a zero value, and every other operation panics and leaves the value uninitialised. A container returned by a constructor is not Nil, is empty, has Len 0 and Dep 0, and after one insertion contains that key alone.",
  ["configurations","histories","schedules"],
  "all ten container types, all methods on the zero value, constructors called at any point of any history of other containers, inside callbacks, after interrupted operations, between the statements of other callers",
  "tests call Nil after construction and Val on one zero StringMap; the other types and methods, and any dependence on what went before, are not covered",
  ["amt.go"]+MAPS+SETS,
  [("nil root checks","root.Len, root.Dep in amt.go; Nil and Val in every file"),("roots made by the constructors","newRoot in amt.go")],
  None, ["results and panics of methods on zero and new values"], HOOKM)

p("C21","Hash helpers are pure functions and follow the rehash contract",
  "For every key, seed and rehash count, HashBytes and the Hash methods of Bytes and String return the hash, under that seed, of the key's bytes written count+1 times (Int: of its 8-byte form), and Equal of Bytes, String and Int is true exactly for equal keys. The result depends on nothing else: not on what was hashed before, not on hashing that other callers are in the middle of, not on where the key is in memory or what that memory held before.",
  ["inputs","histories","schedules"],
  "all keys, seeds and rehash counts; all histories of helper and container calls with caller buffers used again, all interleavings of several callers",
  "no test calls the helpers directly; a helper that remembers anything is right in every test that calls it once per key",
  ["generic_map.go","bytes_map.go","string_map.go","int_map.go"],
  [("write the key iter+1 times into a seeded maphash","HashBytes, Bytes.Hash, String.Hash, Int.Hash"),("Equal","Bytes.Equal, String.Equal, Int.Equal")],
  None, ["results of the helpers against the simulated hash function"], HOOKM)

p("C22","A container's memory is bounded by what it stores now",
  "After any history, a container keeps no more heap memory alive than a new container of the same type and hash seed that is filled with the same keys and values: memory taken for entries since deleted (array slots, branches, chains of collapsed levels) is given back, for every pattern of hash collisions and also when operations were interrupted by panics in callbacks.",
  ["histories","inputs","configurations","fault_sequences"],
  "all ten container types with key and value types that own no memory of their own, all histories of insertions and deletions, interrupted or not, all hash seeds and collision patterns",
  "no test looks at memory after deletions; what is kept depends on which of a branch's array blocks and which collapsed levels a history went through, hence on the random seed",
  ["amt.go"]+MAPS+SETS,
  [("shift back or reallocate every 4 entries","Del in every file"),
   ("replace single-valued branches with their key-value up to the root","Del in every file")],
  [("root, link arrays","everything reachable from a container","amt.go")], ["live heap bytes before and after the container is dropped, after full collections"], HOOKM)

p("C23","Every container hashes with a seed drawn at random for it alone",
  "Each container hashes all its keys, from its construction to the end of its life, with one seed that a call of maphash.MakeSeed returned for this container and for no other; copies of the container value use the same seed. Hence no caller can predict which keys collide, and key sets that collide in one container do not collide in the next.",
  ["histories","configurations","schedules"],
  "all container types, all histories (including emptying and refilling, interrupted operations, copies and several containers used in turns), every outcome of the random seed",
  "tests cannot see the seed; a shared, constant or re-drawn seed leaves every test's results unchanged",
  ["amt.go"]+MAPS+SETS,
  [("seed drawn by maphash.MakeSeed when the root is made","newRoot in amt.go"),("seed passed to every hash","all lookups and updates")],
  [("root.seed","hash seed of the container","amt.go")], ["seeds handed out by MakeSeed and seeds arriving at the hash function"], HOOKM)

p("C24","Present entries may be updated from inside callbacks",
  "From inside the callback of Mod or All, also nested in one another, entries that are present may be given new values with Set or Mod, or written through pointers, on the same container (and members added to a set again). The update takes effect at once: later lookups, pointers already handed out (the callback's own included) and later visits of the same All show the new value. The set of keys, Len, Dep and the order of the visits do not change, and the outer operation completes as if it had been alone.",
  ["schedules","histories","inputs"],
  "all container types, every callback invocation, every mix and nesting of updates of present entries and reads, all hash seeds and collision patterns",
  "no test writes to the container from a callback; an implementation that works on a copy of the value, replaces the entry on update or buffers a scan passes them all",
  MAPS+SETS,
  [("an update assigns to the entry's value in place","Set/Mod in *_map.go"),("the callbacks get pointers to the entries themselves","Mod, *Scan functions")],
  [("kv.v","value of an entry","*_map.go")], ["results of nested operations; values behind pointers; visits of All; contents afterwards"], HOOKM)

p("C25","The stored key is the one inserted; nothing else passed in is kept",
  "The key that All hands out for an entry is the very key value the entry was inserted with (same pointers, same bytes in the same memory), not an equal one that a later Set, Mod or Add of the present key was given. Keys passed to operations that inserted nothing, and the callbacks passed to Mod and All, are not kept alive by the container once the call has returned.",
  ["histories","inputs"],
  "all container types whose keys have an identity (strings, byte slices, user-defined keys with pointers), all histories, a collection at any point between operations, all hash seeds and collision patterns",
  "tests use keys that cannot be told apart from equal ones, and no test observes reachability",
  ["bytes_map.go","bytes_set.go","string_map.go","string_set.go","generic_map.go","generic_set.go","arr_map.go","arr_set.go"],
  [("update existing: only the value is assigned","Set/Mod/Add")],
  [("kv.k","key of an entry","*_map.go, *_set.go")], ["identity of the keys All hands out; weak pointers to keys and callbacks passed in"], HOOKM)

p("C26","Operations run in the caller's goroutine and are over when they return",
  "Callbacks and key methods are called in the goroutine that called the operation, so that panics (which reach the caller unchanged), Goexit and locks held by the caller work as in any function call. When an operation has returned, or has been left by a panic or Goexit in user code, nothing of it is left running: no goroutine exists that was not there before, none works on the container behind the caller's back, and no code of the package runs because of a garbage collection.",
  ["schedules","histories","fault_sequences","inputs"],
  "all container types and operations, all histories and sizes, iterations stopped anywhere, panics and Goexits in any user code, all hash seeds and collision patterns",
  "tests look at results only; work handed to another goroutine usually gives the same result, later or elsewhere",
  ["amt.go"]+MAPS+SETS,
  [("every operation is a plain loop or recursion that calls user code directly","all operations, *Scan functions")],
  None, ["goroutine in which user code runs; number of goroutines and statements executed after an operation"], HOOKM)

p("C27","A dropped container is reclaimed with everything in it",
  "When the program holds no reference to a container, to a copy of it or to pointers obtained from it any more, garbage collection reclaims it with all its keys and values, whatever was done with it before: updates, deletions, iterations stopped or left by panics and Goexits, nested reads, and the use of other containers of the same or other types before, after or in between. No package-level state keeps containers, keys or values alive.",
  ["histories","fault_sequences","inputs"],
  "all container types with reclaimable keys or values, all histories of several containers, interrupted operations included, any subset of the containers dropped, all hash seeds and collision patterns",
  "no test observes reachability",
  ["amt.go"]+MAPS+SETS,
  [("no package-level variables","all files"),("traversal scratch lives in the call","Del in every file")],
  None, ["weak pointers to every key and value after the container has been dropped and garbage collected"], HOOKM)

p("C28","Key methods are called only on keys the container was given, and only as needed",
  "A container calls the methods of user-defined keys (Hash, Equal, KeyBytes) only on the key passed to the operation under way and on the keys it stores, which are the ones it was given: never on zero keys, on keys that have been deleted, or on keys of other containers. The rehash count passed to Hash starts at zero and grows with the depth: after every 16 levels by one, so it never exceeds by more than one what the longest shared hash prefix requires, and the number of calls an operation makes is bounded by that depth too. Constructors, All, Len and Dep call no key methods.",
  ["histories","fault_sequences","inputs"],
  "all containers of user-defined keys (pointers, interfaces, structures, arrays), all histories, interrupted operations and reads from inside callbacks included, all hash collision patterns",
  "tests use keys whose methods work on any value; keys whose methods need what the key points to (a nil interface, a released resource) and expensive hashes show the difference",
  ["generic_map.go","generic_set.go","arr_map.go","arr_set.go"],
  [("rehash with count d>>4","every lookup loop"),("one comparison, at the leaf","every lookup loop"),("the displaced key is hashed at the depth of the conflict","Set/Mod/Add")],
  [("kv.k","key of an entry","generic_map.go, arr_map.go")], ["receiver, argument and rehash count of every call of a key method"], HOOKM)

p("C29","The memory layout is as compact as documented",
  "After any history, the memory a container keeps alive is no more than: what its keys and values take, each pair in one allocation (the keys of IntMap and IntSet take nothing: they are kept in the branches); for each branch below the root 16 bytes per child, in blocks of four; and a fixed amount for the root (320 bytes, and slack up to 512). A margin of one sixteenth of the branch memory is allowed for. Branches are only those that keys sharing hash bits need: one for each prefix of 4-bit groups that two or more stored keys have in common.",
  ["histories","inputs","configurations","fault_sequences"],
  "all ten container types with several key and value types, from no keys to thousands, all histories of insertions, updates and deletions, interrupted or not, all hash seeds and collision patterns",
  "no test looks at memory; what is needed depends on the hash bits, which are random in tests",
  ["amt.go"]+MAPS+SETS,
  [("link: one pointer and two bitmaps","amt.go"),("newLinkArray: blocks of four","amt.go"),("one allocation for key and value","Set/Mod/Add in every file")],
  [("root, link arrays","everything reachable from a container","amt.go")], ["live heap bytes before and after the container is dropped, after full collections"], HOOKM)

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for x in P:
        assert len(x["title"]) <= 80, x["title"]
        f.write(json.dumps(x) + "\n")
