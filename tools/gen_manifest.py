#!/usr/bin/env python3
"""Writes ../MANIFEST.json."""
import json, os
here = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(here, 'properties.jsonl'))]
T = {
 'C01': 'stateless model checking of the real code: all slicings of all short streams, state closure of sliced x bytewise product',
 'C02': 'stateless model checking of the real code: all buffer-growth schedules of all short streams, closure of batched x bytewise product',
 'C03': 'exhaustive enumeration of streams on both interfaces, closure of the incr x search product',
 'C04': 'stateless exploration of all call schedules, incl. empty and repeated calls, over regular and degenerate configurations',
 'C05': 'exhaustive exploration of iterator histories (every stop point and action) on the real iterators',
 'C06': 'stateless exploration of all schedules with a chunk-length monitor',
 'C07': 'exhaustive enumeration of streams, edges and edits; edges of a stream vs of its tails',
 'C08': 'exhaustive enumeration of streams grouped by window',
 'C09': 'all interleavings of two streams up to a preemption bound, all clone points; oracle: each stream in a process of its own',
 'C10': 'stateless exploration of all buffer-growth schedules with a look-behind monitor',
 'C22': 'explicit enumeration of reached values, all pairs compared for equality vs future behaviour',
 'C21': 'enumeration of constructor arguments on streams that tell neighbouring parameters apart',
 'C24': 'exhaustive enumeration of streams and schedules, run by the real code built five ways (checked, release, wasm32, s390x and powerpc under Miri), edges compared',
 'C25': 'stateless exploration of all call schedules, periodic and long streams on the real code with an allocation monitor on every call',
 'C26': 'stateless exploration of all call schedules, incl. repeated calls, on the real code instrumented to count basic blocks and reads of each byte',
 'C23': 'exhaustive enumeration of ranges and values over bounded domains',
}
checks = []
for p in props:
    i = p['id']
    t = T.get(i, 'explicit-state: closure of real code x reference model, all streams up to a depth, all schedules')
    checks.append(dict(
        property=i,
        quick_cmd=f'./check.sh {i} quick',
        thorough_cmd=f'./check.sh {i} thorough',
        evidence_file=f'evidence/{i}.json',
        technique=t,
        level='model_checking',
        level_note='Every execution within the bounds listed in the evidence file runs the real code (built from /repo with overflow checks on) and is compared with the oracle; closures marked closed hold for streams of any length over their alphabet. Not covered: byte values, lengths and parameters outside the stated alphabets and bounds.',
    ))
json.dump(dict(version=1, setup_cmd='./setup.sh', checks=checks, not_applicable=[],
   notes='One checker, mc/ (path dependency on /repo). No hooks in /repo. ./.build/release/mc replay evidence/<id>.replay runs a reported counterexample again. Known findings and repairs: known_findings.txt.'),
   open(os.path.join(here, 'MANIFEST.json'), 'w'), indent=1)
