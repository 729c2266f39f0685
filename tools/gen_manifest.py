#!/usr/bin/env python3
"""Writes MANIFEST.json."""
import json, os
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(root + '/properties.jsonl')]
T = "deterministic simulation with fault injection: seeded search over "
tech = {
 'C01': T + "histories with simulator-chosen hash seeds and hash collisions, against a reference map",
 'C02': T + "histories with simulator-chosen hash seeds and hash collisions, against a reference set",
 'C03': T + "histories of deletions with designed collisions; every key re-read after every deletion",
 'C04': T + "histories with designed collisions; Len against the reference after every operation",
 'C05': T + "histories with designed collisions; every visit of All against the reference",
 'C06': T + "histories of Mod with designed collisions; callback arguments and every key against the reference",
 'C07': T + "histories with held value pointers, read and written across later operations",
 'C08': T + "pairs of histories ending in the same key set under the same hash function; structure compared through All and Dep",
 'C09': T + "histories with designed collisions; Dep against the depth computed from the simulated hash bits",
 'C10': T + "histories with designed deep collisions; executed statements per operation bounded by the depth",
 'C11': T + "injected panics and Goexits in every user callback; state before and after compared",
 'C12': T + "histories with nested reads from inside callbacks and key methods, against the reference",
 'C13': T + "statement-level schedules of concurrent readers, plus simulated runs under the race detector",
 'C14': T + "statement-level schedules of lock-protected callers holding different copies of a container value, plus simulated runs under the race detector",
 'C15': T + "statement-level schedules of unsynchronised callers of distinct containers, plus simulated runs under the race detector",
 'C16': T + "histories in which callers reuse and watch (with canaries) the memory of the keys they pass",
 'C17': T + "histories in which callers corrupt the bytes of retained keys",
 'C18': T + "garbage collections and stack moves injected between statements, with pointer checking (checkptr) on",
 'C19': T + "histories followed by garbage collections; weak references tell what is still held",
 'C20': T + "statement-level schedules, nested calls and interrupted operations around constructors and methods of uninitialised values",
 'C21': T + "histories and statement-level schedules of helper calls on reused buffers, against the simulated hash function",
 'C22': T + "histories (with injected panics); live heap of the container against that of a new container with the same contents",
 'C23': T + "histories of several containers; every seed reaching the simulated hash function against those handed out by the simulated MakeSeed",
 'C24': T + "histories with nested updates of present entries from inside callbacks, against the reference",
 'C26': T + "histories with early stops, nested reads, injected panics and Goexits, on one processor; goroutines observed from inside user code and after every operation",
 'C27': T + "histories of several containers with injected panics and Goexits; weak references to all that was stored, after containers have been dropped",
 'C28': T + "histories of keys of known identity with designed deep collisions, injected panics and Goexits; every call of a key method judged as it happens",
 'C29': T + "histories (with injected panics) on designed collision patterns and on up to some thousand keys; live heap of the container against that of its keys and values alone plus the documented layout computed from the simulated hash bits",
 'C25': T + "histories with keys of known identity, garbage collections between operations; weak references to everything else passed in",
}
note = ("Sampling by seed: a clean run is evidence, not proof. The package runs from /repo's working tree (a copy with a yield before each statement, "
        "compiled in through -overlay); hash/maphash is replaced by a simulated pure hash function of seed and message. ")
extra = {
 'C08': "Order of All and Dep stand for structure. ",
 'C09': "Depth is recomputed from the hash messages; if the code hashed keys in a form the simulator does not recognise, Dep is only checked for consistency. ",
 'C10': "Bound in executed statements, with slack of roughly a factor of 4 over the present code. ",
 'C11': "A run counts only if the same run without the fault is clean. ",
 'C12': "A run counts only if the same run without nested reads is clean. ",
 'C13': "A run counts only if the same calls made one after another are clean. Data races are found by the race detector on simulated schedules. ",
 'C14': "A run counts only if the same calls made one after another through one copy are clean. ",
 'C15': "A run counts only if the container's calls alone are clean. ",
 'C16': "A wrong result counts only if the run without reuse of key memory is clean. ",
 'C17': "A run counts only if the run without corruption is clean. ",
 'C18': "Trusts the runtime's own pointer checks (checkptr, invalid pointer detection, clobberfree). ",
 'C19': "Trusts weak pointers and a precise stack scan. ",
 'C24': "A run counts only if the same run without nested operations is clean. ",
 'C27': "Trusts weak pointers and a precise stack scan. Memory that is free after three collections counts as reclaimed. ",
 'C25': "Trusts weak pointers and a precise stack scan. ",
 'C29': "Trusts the runtime's heap statistics after a full collection; an excess is reported only if three more executions show it too. If the code hashed keys in a form the simulator does not recognise, the check is silent. ",
 'C22': "Trusts the runtime's heap statistics after a full collection; an excess is reported only if three more executions show it too. ",
}
m = {
 'version': 1,
 'setup_cmd': './check.sh build',
 'checks': [{
   'property': p['id'],
   'quick_cmd': './check.sh ' + p['id'],
   'thorough_cmd': 'VERIF_TIER=thorough ./check.sh ' + p['id'],
   'technique': tech[p['id']],
   'level': 'exploration',
   'level_note': note + extra.get(p['id'], ''),
 } for p in props if p['id'] in tech],
 'not_applicable': [
 ],
 'notes': 'No hooks are committed in /repo: all seams are put in at build time with go build -overlay (instr/, sim/overlay/). See DESIGN.md.',
}
json.dump(m, open(root + '/MANIFEST.json', 'w'), indent=1)
open(root + '/MANIFEST.json', 'a').write('\n')
