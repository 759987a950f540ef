#!/usr/bin/env python3
"""Writes /verif/MANIFEST.json."""
import json, subprocess
props = [json.loads(l) for l in open('/verif/properties.jsonl')]
T = {
 'C01': 'online oracle: interval-set model beside set algebra histories',
 'C02': 'online oracle: canonical-form monitor, heap reachability monitor',
 'C03': 'online oracle: iteration and count monitor against interval model',
 'C04': 'runtime oracle: interval model beside every range operation',
 'C05': 'runtime oracle: bitwise definitions on an independent 128-bit integer',
 'C06': 'runtime oracle: net and net/netip as reference printers and parsers; generated spellings, mutated strings',
 'C07': 'runtime oracle: big-endian byte arithmetic; memory-aliasing monitor (scribbling)',
 'C08': 'value-identity monitor over all constructors; byte-copy and allocation monitors',
 'C09': 'online differential monitor: facade against the family packages',
 'C10': 'online oracle: map model beside table histories',
 'C11': 'online oracle: longest match by trying every length in a map',
 'C12': 'online oracle: walk order and stop monitor',
 'C13': 'online checker: diff events against sorted merge',
 'C14': 'runtime cost monitor: counted comparisons, thread processor time',
 'C15': 'online oracle: lookups at every interval end, normal-form monitor',
 'C16': 'trace monitor: recorded mapper calls against map model',
 'C17': 'snapshot re-reading monitor over object families',
 'C18': 'online oracle: zero values and nil arguments in every method',
 'C19': 'online oracle: tagged values, comparison-provenance monitor',
 'C20': 'race detector; recorded reader histories checked offline',
 'C21': 'injected overlaps at hook; linearizability checker',
 'C22': 'online oracle: best fit over minimal free cover',
 'C23': 'allocation and reachability monitors',
 'C24': 'heap reachability monitor with tracked values; live heap measurement',
 'C27': 'fault injection in every call of user code; content and usability monitors afterwards',
 'C26': 'invariant monitor on random programs over the whole exported interface',
 'C25': 'processor time monitor on scaled structures',
}
hooks = subprocess.run(['git', '-C', '/repo', 'log', '--format=%H', '--grep=^Yield points for verification'], capture_output=True, text=True).stdout.split()
m = {
 'version': 1,
 'setup_cmd': './setup.sh',
 'hooks': {'guard': 'verif', 'enable': 'go build -tags verif', 'source_commits': hooks},
 'checks': [{
  'property': p['id'],
  'quick_cmd': './check.sh %s' % p['id'],
  'thorough_cmd': 'VERIF_TIER=thorough ./check.sh %s' % p['id'],
  'technique': T[p['id']],
  'level': 'exploration',
  'level_note': 'Held on every execution observed: PRNG-determined hostile, exhaustive-small and stress workloads on the real code of both address families, judged by an independent oracle. Nothing is proved beyond the executions; trusts the Go toolchain and the harness models.' + (' Schedules are those the Go scheduler and the injected overlaps produced.' if p['id'] in ('C20', 'C21') else ''),
 } for p in props],
 'not_applicable': [],
}
json.dump(m, open('/verif/MANIFEST.json', 'w'), indent=1)
open('/verif/MANIFEST.json', 'a').write('\n')
