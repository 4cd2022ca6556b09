#!/usr/bin/env python3
"""Source of MANIFEST.json."""
import json, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T_VAL = 'abstract interpretation of monomorphic MIR: kernel and packing contracts proved symbolically, loop-nest summary checked per element of C'
T_MEM = 'abstract interpretation of monomorphic MIR: symbolic bounds and footprint analysis of every access'
NOTE = ('Kernel and packing obligations are decided symbolically for all values; the loop-nest summary, itself derived symbolically by loop acceleration, is decided at the block-boundary valuations listed in the evidence. '
        'Trusts rustc up to MIR, the models of intrinsics and of std/thread-tree entry points, and exact real arithmetic for floating point (DESIGN.md).')
C = {}
def c(p, t, n=NOTE): C[p] = (t, n)
c('C01', T_VAL); c('C02', T_VAL); c('C03', T_VAL + '; coefficient of the old C tracked through every block')
c('C04', 'effect analysis: reads of C guarded by beta != 0 or preceded by a write of the same call')
c('C05', T_MEM); c('C06', T_MEM); c('C07', T_MEM)
c('C08', 'def-use (freshness) analysis of packed panels and edge tiles over the derived loop-nest summary')
c('C09', 'alignment (congruence) analysis of every access against base-pointer residues')
c('C10', 'fork/join effect analysis: footprints of parallel branches must be disjoint where one writes')
c('C11', 'comparison of the derived per-element operation sequences over all worker configurations')
c('C13', 'call-graph analysis: every target_feature callee against the detection conditions on the path to it')
c('C14', 'typestate analysis of allocations over all paths of the entry points')
c('C17', 'abstract interpretation: reachability of panics, assertions and unsigned underflow, with debug assertions on and off')
c('C18', 'loop iteration bounds by recurrence solving on MIR')
c('C21', 'wait-for analysis of fork/join contexts over the call graph: every nested join against the tree node its branch runs on; re-entrance of deferred initialisers')
c('C19', 'the value and memory rules decided separately in every feature configuration and build mode')
if os.path.exists(os.path.join(HERE, 'engine/src/ck_misc.rs')):
    c('C12', 'abstract interpretation of the pool initialiser: interval of the thread count over all paths, panic reachability')
    c('C15', 'constant evaluation and data-flow of the twelve build-time settings through to the block-size functions; contracts re-decided under non-default settings')
    c('C16', 'inventory of all mutable statics and thread-locals reachable from the entry points, with escape and freshness analysis')
NA = {
 'C20': 'A rounding-error bound quantifies over all floating-point data and needs a numeric error analysis of the generated vector code; no sound static argument in reach bounds it (the exact-arithmetic value and the order of the operations are covered by C01, C02 and C11).'}
ids = [json.loads(l)['id'] for l in open(os.path.join(HERE, 'properties.jsonl'))]
for i in ids:
    if i not in C and i not in NA: NA[i] = 'check under construction'
m = dict(version=1, setup_cmd='bash tools/setup.sh',
         checks=[dict(property=i, quick_cmd='python3 tools/check.py %s --tier quick' % i, thorough_cmd='python3 tools/check.py %s --tier thorough' % i,
                      evidence_file='evidence/%s.json' % i, technique=C[i][0], level='other', level_note=C[i][1]) for i in ids if i in C],
         not_applicable=[dict(property=i, reason=NA[i]) for i in ids if i in NA],
         notes='All checks run tools/check.py, which builds the analyser (engine/, a rustc driver on the nightly toolchain) and analyses /repo\'s current source. No hooks in /repo.')
json.dump(m, open(os.path.join(HERE, 'MANIFEST.json'), 'w'), indent=1)
