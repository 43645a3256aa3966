#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json
import os
T = {
 'C01': ('online reference monitor over generated programs', 'Compares value, remainder, error kind and position, Incomplete amount and user events of each monitored execution with a reference interpreter.'),
 'C02': ('online reference monitor, byte-order focused workload', 'Every primitive under every wrapper, attribute placement and entry point is executed against the reference; combinations beyond the grid are sampled.'),
 'C03': ('online reference monitor with event log of SetEndian evaluations', 'Evaluation count, position and effect of each SetEndian are compared with the reference on sampled definitions and inputs.'),
 'C04': ('incremental-feed monitor and reference monitor over all prefixes', 'Every prefix of the generated inputs is parsed; honesty of Needed and equality of incremental and one-shot results are watched.'),
 'C05': ('online reference monitor with position records, extreme arguments', 'Positions after each directive are compared with the reference, for sampled definitions and hostile argument values.'),
 'C06': ('online reference monitor over selector values', 'Exhaustive over 8-bit selectors of generated enums, sampled and boundary values otherwise.'),
 'C07': ('online reference monitor over discriminant values', 'Exhaustive over 8-bit repr values, boundary and sampled values for wider ones, every truncation.'),
 'C08': ('online reference monitor, acceptance in both directions', 'Acceptance and rejection are both counted and compared with the reference.'),
 'C09': ('online reference monitor, element-call log', 'Nesting order, counts, optionality and failure propagation compared with the reference, counts above 65535 included.'),
 'C10': ('event-log monitor of user code', 'The recorded log of user code evaluations must equal the reference log on every execution, failing paths included.'),
 'C11': ('online reference monitor over library types', 'All primitives, containers and random nestings run on systematic and random inputs.'),
 'C12': ('panic hook, overflow checks, AddressSanitizer, Miri', 'Absence of panics and memory errors on what was executed in four kinds of build.'),
 'C13': ('counting allocator and element-call monitor', 'Peak live memory and element calls of each execution stay below bounds affine in the input length.'),
 'C14': ('pointer provenance monitor', 'Address and length of each returned slice are compared with the predicted range; inputs are placed inside larger buffers.'),
 'C15': ('cross-instantiation monitor over error types', 'Five error types run on the same cases and must agree with the reference and each other.'),
 'C16': ('cross-spelling differential monitor', 'Groups of equivalent spellings run on the same inputs and must agree with each other and the reference.'),
 'C17': ('monitored compiler runs on faulty/corrected pairs', 'Each faulty definition is rejected by its own rustc run, its corrected twin accepted.'),
 'C18': ('cross-configuration monitored runs of no_std crates', 'The same no_std programs are built and run with default, alloc-only and no features and compared with one reference.'),
 'C19': ('call-log monitor of hand-written Parse types', 'Which method is called, where and how often is logged and compared with the reference.'),
 'C20': ('placement, history, suffix and thread monitors', 'Each case is repeated at other addresses, after other calls, with suffixes and from several threads.'),
 'C21': ('monitor of the text written during each call and each compilation', 'What each call writes to file descriptor 1 must equal the predicted reports; the text DebugDerive prints is compiled and run in place of the derive.'),
}
TRUST = ' Trusts the reference interpreter and the hand-written probe types in /verif/rt; covers the generated definitions and inputs only.'
checks = []
for k, (t, n) in T.items():
    checks.append(dict(property=k, quick_cmd='python3 check.py %s' % k, thorough_cmd='python3 check.py %s --tier thorough' % k, evidence_file='evidence/%s.json' % k,
                       technique=t, level='exploration', level_note=n + (TRUST if k != 'C17' else ' Covers the generated definitions only.')))
m = dict(version=1, setup_cmd='python3 check.py --setup', checks=checks, not_applicable=[],
         notes='No hooks in /repo: the properties are observable at the public interface. python3 check.py --replay FILE re-executes a recorded violation.')
json.dump(m, open(os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'MANIFEST.json'), 'w'), indent=1)
