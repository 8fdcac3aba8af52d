"""Writes MANIFEST.json from properties.jsonl."""
import json, os
top = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
 'C01': 'ASan/UBSan runs of the decoder with injected short reads; reference PNM decoder as oracle',
 'C02': 'ASan/UBSan fuzzing of the decoder with read faults; strict reference parser, heap differential',
 'C03': 'runtime monitor of the box sequence: reference segmentation and pixel conservation',
 'C04': 'sanitized geometry runs compared with a reference model; order axioms checked on triples',
 'C05': 'sanitized feature extraction compared with exact reference features, exhaustive small bitmaps',
 'C06': 'history monitor: features after any sequence compared with fresh-state features',
 'C07': 'sanitized similarity runs compared with reference measures over value grids',
 'C08': 'monitor of the learning tools under sanitizers against reference segmentation and labels',
 'C09': 'monitor of the normaliser under sanitizers: reference merge, permutation, split, idempotence',
 'C10': 'save/load round-trip monitor under sanitizers, byte identity and reference features',
 'C11': 'monitored run of the documented learning procedure, byte comparison with shipped databases',
 'C12': 'sanitized dictionary runs against a set model with prefix, extension and variation probes',
 'C13': 'monitor of the dictionary builder under sanitizers against the set of input lines',
 'C14': 'sanitized disambiguation runs against an exhaustive preference-order search',
 'C15': 'sanitized database loads; identity monitor against the labels saved',
 'C16': 'sanitized recognition runs against an exhaustive reference scoring',
 'C17': 'history monitor: candidates across request orders and database orders, own labels contained',
 'C18': 'sanitized line filter runs against a reference filter',
 'C19': 'sanitized font filter runs against a reference vote',
 'C20': 'sanitized text assembly runs against a reference assembly',
 'C21': 'sanitized rule loading and replacement against a reference, CPU budget for termination',
 'C22': 'monitor of the recognition tool under sanitizers against the composed reference stages',
 'C23': 'ASan/UBSan fuzzing of all database loaders and their users, heap differential, CPU budget',
 'C25': 'write faults injected at chosen bytes and calls, monitor of exit status, message and bytes that reached the file',
 'C26': 'read faults injected at chosen bytes and calls under sanitizers, monitor of exit status, message and output',
 'C27': 'memory requests refused one by one, monitor of exit status, message and output',
 'C28': 'race detector (TSan) and ASan over randomised thread schedules, results compared with those of a single thread',
 'C29': 'differential monitor of outputs across surroundings, memory checker (memcheck) for uninitialised data',
 'C30': 'sanitized runs of the whole tool chain; the text read compared with the text learnt',
 'C31': 'resource accounting monitor (live memory, descriptors) with memory requests refused in process, results of reused state compared',
 'C32': 'instruction counts of the real tools over series of growing inputs, growth monitor',
 'C33': 'sanitized containers over generated sequences; every node and bound compared with a reference tree',
 'C34': 'sanitized iterators over texts (every character) and damaged texts in exact-size blocks, compared with a reference decoder',
 'C35': 'sanitized lookup tables, candidate lists and bitmap cache over generated tables, every list compared with a reference in Python',
 'C36': 'sanitized readers, writers, iterators and scans over the whole range of their values, compared with integer and list arithmetic in Python',
 'C37': 'peak memory and instruction counts of the real tools on files whose numbers announce more than they hold, compared with the run on the true number',
 'C24': 'fault injection in tool arguments and files under sanitizers, exit status and message monitor',
}
NOTE = {
 'default': 'Holds on every execution generated (bounded by case count, seeded by VERIF_SEED); trusts the reference model in lib/ and the checks, gcc sanitizers, and that a sanitizer build behaves as the shipped one.',
 'C05': 'Exhaustive for all bitmaps of small sizes, sampled above; trusts the reference features in lib/models.py.',
 'C28': 'Schedules are those the machine and random pauses give; the race detector judges all accesses that are not ordered, whatever the schedule.',
 'C32': 'Growth is judged over two fourfold steps of sampled kinds of input (more than eight times the cost for a fourfold input is a violation); constant factors are not judged.',
 'C37': 'A run may use 40 MB and 12 million instructions (and as many again as the unchanged run) more; memory is what the system counts as resident, so that reserved, untouched memory is not judged.',
 'C31': 'Runs with the allocator of the C library, not under address checking; requests are sampled where an operation makes many.',
 'C11': 'All shipped fonts and databases; cyrillic glyph files are not shipped normalised, so only their feature files are compared.',
 'C16': 'Sampled databases and bitmaps; where scores tie, any order the ties allow is accepted; trusts lib/ocrmodel.py.',
 'C22': 'Sampled line images; the text is not compared where candidate scores tie (counts and rates still are); trusts lib/ocrmodel.py.',
 'C23': 'Sampled damage; counts that need more than 2 GB are outside; silently shortened glyph files are allowed.',
}
checks = []
for l in open(os.path.join(top, 'properties.jsonl')):
    i = json.loads(l)['id']
    if i not in TECH: continue
    checks.append(dict(property=i, quick_cmd='python3 check.py %s' % i, thorough_cmd='VERIF_TIER=thorough python3 check.py %s' % i,
                       evidence_file='evidence/%s.json' % i, technique=TECH[i], level='exploration', level_note=NOTE.get(i, NOTE['default'])))
m = dict(version=1, setup_cmd='true', checks=checks, not_applicable=[],
         notes='No hooks: the checks observe the unmodified sources through their public headers and tools. Every check builds the current tree itself (about 10 s).')
json.dump(m, open(os.path.join(top, 'MANIFEST.json'), 'w'), indent=1)
