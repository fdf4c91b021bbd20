#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the property modules present."""
import json, os
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
NOTE = {
 'P01': 'randomised search over schedules, worker counts, file orders, clocks and stalls; complete runs of the real program are compared byte for byte',
 'P02': 'randomised search over schedules and scenarios; an executable model of selection and search is the oracle',
 'P03': 'randomised search over schedules and scenarios; an executable model of clustering and folding is the oracle',
 'P04': 'randomised search over schedules and scenarios; an executable model of the harmonic test and filters is the oracle',
 'P05': 'randomised fault injection at the operations of the fault-free run, in all processes',
 'P06': 'randomised crash histories: kill and machine-crash points at any operation, torn writes, lost unsynced data, then recovery',
 'P07': 'every kind of incomplete file at random bytes and blocks, and failed saves, under the simulated file layer',
 'P08': 'allocation failures injected in folds of the main process, plus candidates that cannot be folded',
 'P09': 'simulated readers with failing, short and interrupted reads, cut headers, and concurrent changes by another process',
 'P10': 'every file operation of every simulated process is watched; trees are compared before and after',
 'P11': 'step-bounded progress under stalls, failures and worker deaths; one known finding (hang after a worker death)',
 'P12': 'random histories of operations, saves and loads in simulated processes against the original object',
 'P13': 'seeded line-level thread scheduler with injected exceptions',
 'P14': 'random operation histories with allocation failures against a reference model',
 'P15': 'fail-nth injection in operator new and the numpy allocator of every kernel call, with guard pages',
 'P16': 'the real program under the simulated file layer against a model of search and grouping',
 'P17': 'the output directory is compared whenever a run is stopped or fails before its search is over',
 'P18': 'random sequences of runs in one simulated process against solo runs',
 'P19': 'concurrent simulated programs under one scheduler, with kills and failures, against solo runs',
}
LEVEL = {}
def main():
    props = [json.loads(l) for l in open(os.path.join(H, 'properties.jsonl')) if l.strip()]
    checks, na = [], []
    for p in props:
        pid = p['id']
        mod = os.path.join(H, 'vsim', 'props', pid.lower() + '.py')
        if pid in NOTE and os.path.exists(mod):
            checks.append({'property': pid, 'quick_cmd': 'python3 check.py %s --tier quick' % pid,
                           'thorough_cmd': 'python3 check.py %s --tier thorough' % pid,
                           'technique': 'deterministic simulation with fault injection',
                           'level': LEVEL.get(pid, 'exploration'), 'level_note': NOTE[pid],
                           'evidence_file': 'evidence/%s.json' % pid})
        elif pid in NOTE:
            na.append({'property': pid, 'reason': 'check under construction'})
        else:
            na.append({'property': pid, 'reason': (
                'a pure function of its arguments: no schedule, time, I/O, randomness or second party for the property '
                'to depend on, so deterministic simulation with fault injection has nothing to decide')})
    json.dump({'version': 1, 'setup_cmd': 'python3 setup.py', 'checks': checks, 'not_applicable': na},
              open(os.path.join(H, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not applicable')
main()
