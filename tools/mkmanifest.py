"""Writes MANIFEST.json from the modules that exist."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

TECHNIQUE = {
    'C01': 'deterministic simulation: generated peers, scheduled reads, '
           'ground-truth oracle',
    'C02': 'deterministic simulation: capture crashed at every byte, ground '
           'truth and reference framing model',
    'C03': 'deterministic simulation with injected stream damage, refinement '
           'against a reference framing model',
    'C04': 'deterministic simulation with injected damage to captures, '
           'crash/hang oracle',
    'C05': 'deterministic simulation: many read schedules per input, equal '
           'reports',
    'C06': 'deterministic simulation of captured directories, ground-truth '
           'pairing',
    'C07': 'deterministic simulation of concurrent connections with skewed '
           'clocks, reference merge model',
    'C08': 'deterministic simulation: same run under different controlled '
           'environments, equal outputs',
    'C09': 'deterministic simulation of check histories against pristine '
           'baselines',
    'C10': 'deterministic simulation: seeded thread scheduler at line and '
           'opcode granularity',
    'C11': 'deterministic simulation: asynchronous exceptions injected at '
           'chosen points, then recovery checks',
    'C12': 'deterministic simulation with injected input I/O faults, prefix '
           'oracle',
    'C13': 'deterministic simulation with injected output faults, prefix '
           'oracle',
    'C14': 'deterministic simulation: event log of reads and writes, '
           'bounded look-ahead and live objects',
    'C15': 'deterministic simulation of clocks (skew, jumps, time zones), '
           'reference rule',
    'C16': 'deterministic simulation of the file system: open/close '
           'accounting under faults and abandonment',
    'C17': 'deterministic simulation of operation histories, agreement of '
           'four observation channels',
    'C18': 'deterministic simulation with injected damage to encoded bodies, '
           'ground truth and conforming decoders',
    'C19': 'deterministic simulation of oversized bodies on a sparse '
           'simulated disk, read accounting',
    'C20': 'deterministic simulation of files that grow while they are '
           'read, refinement against a reference framing model of a cut '
           'capture',
    'C21': 'deterministic simulation: one simulated connection captured in '
           'several ways under independent schedules and damage, equal '
           'notices and reports',
}
NA = {
    'N01': 'A pure function of one header value: no schedule, clock, fault '
           'or history for a simulator to decide. (That damaged values '
           'cannot crash it is C04; that it does not depend on caches, '
           'threads or interruptions is C09-C11.)',
    'N02': 'A pure function of one exchange (the clock-dependent notices are '
           'C15); deciding it needs a second implementation of every check, '
           'not a simulator.',
    'N03': 'A pure function of the input; no nondeterminism or fault is '
           'involved.',
    'N04': 'A pure mapping of a JSON document; damage to it is covered by '
           'C04, delivery by C05, I/O failures by C12.',
    'N05': 'A pure function of a dictionary; no I/O, time or concurrency.',
}
LEVEL_NOTE = ('Seeded search: sampled schedules, faults and inputs, not '
              'exhaustive. The code under test runs for real; the file '
              'system, output device, clock, thread scheduler and peers '
              'around it are simulated as far as this property needs them.')

props = [json.loads(x) for x in open(os.path.join(HERE, 'properties.jsonl'))]
doc = {
    'version': 1,
    'setup_cmd': 'python3 check.py --help >/dev/null',
    'checks': [],
    'not_applicable': [],
}
for p in props:
    i = p['id']
    if os.path.exists(os.path.join(HERE, 'sim', 'props',
                                   i.lower() + '.py')):
        doc['checks'].append({
            'property': i,
            'quick_cmd': 'python3 check.py %s --tier quick' % i,
            'thorough_cmd': 'python3 check.py %s --tier thorough' % i,
            'technique': TECHNIQUE[i],
            'level': 'exploration',
            'level_note': LEVEL_NOTE,
            'evidence_file': 'evidence/%s.json' % i,
        })
    else:
        doc['not_applicable'].append({
            'property': i,
            'reason': NA.get(i, 'The check is not built yet.')})
with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f:
    json.dump(doc, f, indent=1)
    f.write('\n')
