#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below (run by hand)."""
import json, os, sys
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
import re
props = [json.loads(l) for l in open(V + '/properties.jsonl')]
have = set()
for f in os.listdir(V + '/harness'):
    if f.endswith('.go'):
        have |= set(re.findall(r'ID:\s+"(C\d\d)"', open(V + '/harness/' + f).read()))
tech = {
 'C01': 'runtime oracle over decryption histories in fresh processes',
 'C02': 'runtime differential oracle (independent group arithmetic) with operand snapshots',
 'C03': 'runtime round-trip oracle over generated objects',
 'C04': 'runtime crash/hang/allocation monitor under mutated byte input',
 'C05': 'runtime oracle over real protocol runs with delays injected on the wire',
 'C06': 'runtime permutation and freshness oracle over real protocol runs with injected delays',
 'C07': 'runtime tag-equality oracle over real protocol runs with injected delays',
 'C08': 'runtime tag-equality oracle over real protocol runs with injected delays',
 'C09': 'runtime conservation oracle over real protocol runs with injected delays',
 'C10': 'runtime differential oracle: whole surveys against a clear evaluation',
 'C11': 'runtime isolation and termination monitor over concurrent surveys',
 'C12': 'runtime oracle: honest proofs verify, inputs snapshotted',
 'C13': 'runtime oracle: mutated statements and proofs are rejected',
 'C14': 'runtime oracle over re-keying runs',
 'C15': 'offline exactly-once checker over recorded store histories',
 'C16': 'runtime oracle over concurrent local protocol instances',
 'C17': 'runtime oracle over noise lists and noised surveys',
 'C18': 'runtime differential oracle of the data tooling against a clear evaluation',
 'C19': 'runtime oracle over the real binary and servers on loopback',
 'C20': 'fault injection with a liveness and exactness monitor',
 'C21': 'wire tap with an online secrecy and freshness monitor',
 'C22': 'Go race detector under concurrent workloads',
 'C23': 'fault injection on cache files with a plaintext oracle',
 'C24': 'hooked proof publication with a verification oracle',
 'C25': 'fault injection on the wire between servers with a survival and exactness monitor',
}
level = {'C04': 'fault_enumeration', 'C20': 'fault_enumeration', 'C23': 'fault_enumeration', 'C13': 'fault_enumeration', 'C25': 'fault_enumeration'}
claimed = [p['id'] for p in props if p['id'] in have]
hooks_commits = [l.strip() for l in os.popen("git -C /repo log --format='%H %s' | grep -i 'hook' | cut -d' ' -f1")]
m = {
 'version': 1,
 'setup_cmd': './tools/setup.sh',
 'hooks': {'guard': 'build tag verif', 'enable': 'go build -tags verif (check.sh builds harness/ with it; harness/go.mod replaces the module by /repo)', 'source_commits': hooks_commits},
 'checks': [{
   'property': i,
   'quick_cmd': './check.sh %s quick' % i,
   'thorough_cmd': './check.sh %s thorough' % i,
   'evidence_file': 'evidence/%s.json' % i,
   'technique': tech[i],
   'level': level.get(i, 'exploration'),
   'level_note': 'The real code is run and judged by an oracle; what holds is shown for the executions explored, whose kinds and counts the evidence file reports.',
 } for i in claimed],
 'not_applicable': [{'property': p['id'], 'reason': 'check under construction'} for p in props if p['id'] not in have],
}
json.dump(m, open(V + '/MANIFEST.json', 'w'), indent=1)
open(V + '/MANIFEST.json', 'a').write('\n')
