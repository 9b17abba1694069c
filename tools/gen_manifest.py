#!/usr/bin/env python3
"""Write MANIFEST.json"""
import json, os
R = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..')
props = [json.loads(l) for l in open(os.path.join(R, 'properties.jsonl'))]
spec = json.load(open(os.path.join(R, 'harness', 'checks.json')))
T = 'stateless model checking of the real code: exhaustive enumeration of bounded choice sequences, compared with a reference model at every step'
NOTE = {
 'C01': 'All small sets, placements, bucket fillings and element values (including zero and the largest) for a range of configurations, up to the stated bounds; beyond them nothing. Trusts NTL, GMP, Crypto++ and the reference (std::set_intersection).',
 'C02': 'All histories of runs, role swaps and refused requests to the stated depth over 2-3 clients, on the real parties under AddressSanitizer.',
 'C03': 'All delivery orders of the halves of every run of bounded histories; the driver holds messages back by overriding receive().',
 'C04': 'All messages (type x claimed sender x payload) against all authentication relations, interleaved with runs to the stated depth; look-alike names pairwise.',
 'C05': 'All malformed requests of a bounded grammar followed by correct ones; helpers that exit run in processes of their own.',
 'C06': 'All sequences of outsourcing, message mutation and runs to the stated depth over 3 clients; 20 (70) clients, look-alike names.',
 'C07': 'Masks are recovered by evaluating the bucket polynomials independently and subtracting; all configurations and data placements within bounds.',
 'C08': 'Answers are decomposed with the key seen on the wire; freshness over all runs of bounded histories. Statistical quality of the generator is not judged, only repetition and agreement.',
 'C09': 'All operation sequences over small tables, all one- and two-byte digests over many bucket counts.',
 'C10': 'Independent implementations of the three hashes; all lengths and truncations, all histories to the stated depth, exactly sized buffers under AddressSanitizer.',
 'C11': 'All pairs of histories and generators within bounds; indices at every power of two of the index type.',
 'C12': 'All generators, construction histories and call interleavings within bounds.',
 'C13': 'Reference arithmetic by GMP; all one- and two-byte strings, all lengths, all operation sequences to the stated depth.',
 'C14': 'Polynomials are built from chosen factors; all small factor combinations, batch sequences and both algorithms.',
 'C15': 'The clock is the explorer\'s: all operation sequences to the stated depth against an exact interval model.',
 'C16': 'All exception types, constructor forms, messages and codes of a list; fatal ones end child processes.',
 'C17': 'Exhaustive over small values and around every power of two within bounds.',
 'C18': 'All contents of small tables; the printed text is parsed leniently and compared numerically (relative 1e-5).',
 'C19': 'Every operator-new failure (alone, and with the next 1, 2, 9 or all) of the listed histories and blocks. Failures inside NTL\'s and GMP\'s own malloc calls are not injected: those libraries abort by design.',
 'C20': 'All widths from 1 to twice the field\'s and all element positions within bounds; large configurations one by one.',
 'C21': 'All arguments in a range, run in-process through the programs\' own main(); four known findings (three programs that crash or abort on some accepted arguments, one that keeps quiet about a missed target) are listed.',
 'C23': 'Compares executions of the real parties under the same state of the random sources. If two identical executions differ (another source of randomness), contents are not compared, only numbers, types and sizes of messages.',
 'C24': 'All sequences of set operations to the stated depth over messages, parties and marks, all sends with all reactions; runs of clients set up late.',
 'C22': 'Measured as bytes of heap in use over four periods of repetitions; a leak smaller than a byte per repetition, or one that only shows after more repetitions, goes unseen. Answers that never arrive are not covered.',
}
checks = []
for p in props:
    i = p['id']
    checks.append({'property': i, 'quick_cmd': 'python3 check.py %s' % i, 'thorough_cmd': 'python3 check.py %s --thorough' % i,
                   'technique': T if i != 'C19' else 'exhaustive fault enumeration in the stateless explorer: every allocation of every history fails once, on the real code',
                   'level': spec[i].get('level', 'model_checking'), 'level_note': NOTE[i]})
m = {'version': 1, 'setup_cmd': 'python3 check.py --setup', 'checks': checks, 'not_applicable': [],
     'notes': 'No hooks in /repo: the drivers under harness/ use the library\'s own interfaces, subclassing, operator new and interposed rand()/time()/clock.'}
json.dump(m, open(os.path.join(R, 'MANIFEST.json'), 'w'), indent=1)
open(os.path.join(R, 'MANIFEST.json'), 'a').write('\n')
