#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
import sys
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'harness', 'props'))
import plan  # noqa: E402

BOTH = 'Runs under CPython 3.12 and Jython 2.7. '
T = {
    'C01': ('runtime monitor: exported bytes decoded independently, import compared', 'Trusts the harness MIDI decoder (smf.py); domain: named patterns whose times fit 27-bit ticks.'),
    'C02': ('runtime monitor: import compared with an independent decoder of the same bytes', 'Trusts the harness MIDI encoder and decoder.'),
    'C03': ('runtime monitor: imports compared with a rule-by-rule model of the mapping', "Trusts the harness decoder; mappings with empty or zero tags, and track-name tags with filtering off, are outside the domain."),
    'C04': ('runtime monitor: round trips of event streams, against a strict independent decoder', 'Trusts the harness decoder.'),
    'C05': ('fault injection in file bytes with monitors of steps, descriptors and results', 'A hang is judged by executed lines (30 million), never by time alone.'),
    'C06': ('runtime monitor: round trips through JSON compared field by field', 'Domain: named patterns; tags are strings, numbers or nested tuples of them.'),
    'C07': ('runtime monitor: object graphs before and after pickling walked in parallel', 'Domain: named patterns and picklable tags.'),
    'C08': ('runtime contracts on the real methods under random histories', 'Judged from the sounding portions of the events, tolerance 1e-6.'),
    'C09': ('runtime contracts on the real methods under random histories', 'Steps exactly halfway between grid points may go either way.'),
    'C10': ('runtime contracts on the real methods under random histories', 'Zero-length silences from rounding are tolerated.'),
    'C11': ('runtime contracts on the real methods under random histories', 'Tags inside tuples are outside the domain of legato per tag.'),
    'C12': ('runtime contracts on the real methods under random histories', 'Values halfway between steps may go either way.'),
    'C13': ('runtime contracts on the real methods under random histories', 'Judged against direct filters of the events.'),
    'C14': ('runtime monitor: every step of an edit history compared with a list model', 'Removing an event removes all events equal to it.'),
    'C15': ('runtime monitor: deep snapshots around every call, and edits of either side', 'Snapshots cover public fields, viewpoints and settings.'),
    'C16': ('runtime monitor: descriptor values recomputed from their definition', 'Syncopation is judged on power-of-two durations.'),
    'C17': ('runtime monitor: chord answers judged against the table, transpositions and scores', 'Scores within 1e-9 count as equal.'),
    'C18': ('runtime monitor: recording descriptors judged against the slices recomputed from the events', 'Slices are recomputed by the harness.'),
    'C19': ('runtime monitor: every probability recomputed by counting the loops', 'Tables are read through the public matrices and state lists.'),
    'C20': ('trace checker: every generated transition looked up in the counts of the loops', 'Frequencies are judged at odds of about one in a billion per check.'),
    'C21': ('runtime monitor: tables, settings and generations before and after restoring compared', 'Pickle needs the same interpreter on both sides.'),
    'C22': ('runtime monitor: request histories judged against the grid version of the origin', 'Halves may round either way.'),
    'C23': ('runtime monitor: datasets and searches judged against the folder and single imports', 'Hidden files and folders are outside the domain.'),
    'C24': ('runtime monitor: matrices recounted from the sequences and from decoded corpora', 'CPython only (numpy); trusts the harness MIDI decoder.'),
    'C25': ('trace checker: every generated beat looked up in model, target and mask; distributions recomputed', 'CPython only (numpy); frequencies are judged at odds of about one in a billion.'),
    'C26': ('runtime monitor over the complete input space, in random call orders', 'Enumerates all pitches, roots, chord types and signatures.'),
    'C27': ('offline comparison of logs recorded by the same workload under two interpreters', 'Python 2.7 is Jython; analyses needing numpy are left out; messages and printed text are compared by size only.'),
    'C28': ('runtime monitor: the same work alone and under line-level interleavings and free threads compared', 'Interleavings switch between executed lines (CPython), or are those of free threads (Jython runs them in parallel).'),
    'C29': ('fault injection into file operations, and interruptions at library calls and lines, with monitors of inputs, files, handles and repeated calls', 'Interruptions are injected under CPython only; lines of clean-up code (finally, except, with, try) are spared.'),
    'C30': ('runtime monitor: comparisons, list access, answers and printed forms judged against the fields and a parse of the output', 'Printed forms are judged by what they say, and only for plain ASCII tags.'),
    'C31': ('runtime monitor: patterns generated by interleaved database styles judged against those learned; draws counted', 'Fairness of the random order is judged by counts (6.5 standard deviations).'),
}
checks = []
for k in sorted(plan.PLAN):
    t, note = T[k]
    spec = plan.PLAN[k]
    how = '' if spec.get('twins') else BOTH if spec.get('jython') else ''
    checks.append({'property': k, 'quick_cmd': 'python3 harness/check.py %s' % k,
                   'thorough_cmd': 'python3 harness/check.py %s' % k, 'technique': t, 'level': 'exploration',
                   'level_note': 'Holds on the executions observed (seeded random workloads; the evidence counts what each monitor judged). ' + how + note})
json.dump({'version': 1, 'setup_cmd': 'python3 -c "import json; json.load(open(\'MANIFEST.json\'))"', 'checks': checks, 'not_applicable': [],
           'notes': 'No hooks in /repo: monitors wrap the real functions from outside. Known findings and repairs: known_findings.txt.'},
          open(os.path.join(VERIF, 'MANIFEST.json'), 'w'), indent=1)
