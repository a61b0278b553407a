#!/usr/bin/env python3
"""Writes MANIFEST.json: one check per property registered in pbt/."""
import glob, json, re, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
done = set()
for f in glob.glob(here + '/pbt/*.go'):
    done |= set(re.findall(r'register\("(C\d+)"', open(f).read()))
props = [json.loads(l) for l in open(here + '/properties.jsonl')]
METHOD = {
 'C01': ('random and structured byte inputs x load options, every accessor and format, watchdog for panics, hangs and run-away memory', 'totality'),
 'C02': ('constructive document generator and differential test against a reference parser', 'model'),
 'C03': ('constructive generator per option set, differential reference parser, metamorphic single-option relation', 'model'),
 'C04': ('constructive generator of indented values, differential reference parser', 'model'),
 'C05': ('constructive generator, differential reference parser', 'model'),
 'C06': ('defect injection into generated well-formed documents, differential error classes', 'model'),
 'C07': ('metamorphic: chunking, buffer size, source kind, BOM, CRLF, final line break', 'metamorphic'),
 'C08': ('round trip of generated and edited files against a model', 'round trip'),
 'C09': ('metamorphic over formatting settings, normal form, exact layout oracle', 'metamorphic'),
 'C10': ('constructive generator with expected comments, round trip', 'model'),
 'C11': ('repeat/agreement relations and injected writer faults', 'invariants and injected faults'),
 'C12': ('multi-source constructive generator against a merge model', 'model'),
 'C13': ('stateful histories of edits, file changes, Reload and Append against a model', 'model'),
 'C14': ('read faults injected at generated byte offsets and read patterns, source counters', 'injected faults'),
 'C15': ('stateful operation sequences against a model', 'model'),
 'C16': ('stateful operation sequences against a model', 'model'),
 'C17': ('stateful operation sequences against a model, stale handles included', 'model'),
 'C18': ('generated section trees against an inheritance model', 'model'),
 'C19': ('metamorphic twin with folded names, stateful', 'metamorphic'),
 'C20': ('stateful shadow operations and documents against a model', 'model'),
 'C21': ('generated reference graphs against a reference expander', 'model'),
 'C22': ('generated texts against conversion oracles built on strconv and time', 'model'),
 'C23': ('generated candidates and bounds against conversion oracles', 'model'),
 'C24': ('generated lists against a reference splitter and element oracles', 'model'),
 'C25': ('generated struct types (reflect.StructOf) and files against a mapping oracle', 'model'),
 'C26': ('generated struct types and files against a strictness oracle', 'model'),
 'C27': ('round trip of generated struct values through files', 'round trip'),
 'C28': ('round trip of generated slices of structs, mapping oracle', 'round trip'),
 'C29': ('randomised concurrent histories under the race detector with a linearizability oracle', 'concurrent histories'),
 'C31': ('differential test of each helper against the general form it stands for', 'metamorphic'),
 'C32': ('the file, operation and reference models run under generated default names', 'model'),
 'C30': ('metamorphic: edits of returned data and of caller data leave the file unchanged', 'metamorphic'),
}
TRUST = {
 'model': 'Every generated case agreed with an oracle written from the documentation, independent of the implementation; nothing is claimed about inputs outside the generated domain described in DESIGN.md.',
 'metamorphic': 'The relation held on every generated pair; nothing is claimed about inputs outside the generated domain described in DESIGN.md.',
 'round trip': 'The round trip held on every generated case; nothing is claimed about inputs outside the generated domain described in DESIGN.md.',
 'totality': 'No generated input made the library panic, hang or run away; a limit on CPU time and memory per case stands for non-termination.',
 'injected faults': 'Faults are injected at generated offsets of sources; operating-system faults other than read errors are not simulated.',
 'invariants and injected faults': 'Faults are injected through the destination writer and unusable paths; the disk itself is not made to fail.',
 'concurrent histories': 'Interleavings come from the Go scheduler under the race detector and are sampled, not enumerated.',
}
checks, na = [], []
for p in props:
    i = p['id']
    if i in done:
        t, k = METHOD[i]
        checks.append({'property': i, 'quick_cmd': f'bash check.sh {i} quick', 'thorough_cmd': f'bash check.sh {i} thorough',
                       'technique': 'property-based testing (rapid): ' + t, 'level': 'exploration', 'level_note': TRUST[k]})
    else:
        na.append({'property': i, 'reason': 'The check is not built yet.'})
m = {'version': 1, 'setup_cmd': 'bash setup.sh', 'checks': checks, 'not_applicable': na,
     'notes': 'No hooks in /repo: every check drives the public API of the package built from /repo\'s working tree. check.sh replay FILE replays a reported case.'}
open(here + '/MANIFEST.json', 'w').write(json.dumps(m, indent=1) + '\n')
print(len(checks), 'checks', len(na), 'not applicable')
