""" Write MANIFEST.json: claimed checks, and a reason for every property not claimed. """
import json, os, sys
HERE = os.path.dirname(os.path.abspath(__file__))
PY = '/opt/venv/bin/python'
LEVEL = {
}
NOTE = 'seeded random search over schedules and faults on the real code; finds counterexamples, proves nothing beyond what was run'
TECH = {
 'C01': 'deterministic simulation: seeded preemptive scheduler over real threads, preemption at chosen lines and byte code instructions, answers compared with single-threaded runs',
 'C02': 'deterministic simulation with fault injection: seeded interruption (Ctrl-C, timeout, memory, recursion) at chosen lines and byte code instructions, followed by retries and cross queries compared with undisturbed runs',
 'C03': 'deterministic simulation with fault injection: snapshots of receiver, arguments and caller-owned containers around completed, failed and interrupted calls',
 'C04': 'deterministic simulation: seeded long histories of queries on shared objects, each answer compared with the same query asked first in a fresh process image',
 'C05': 'deterministic simulation with fault injection: seeded scheduler interleaves, drops, closes and interrupts lazy enumerations; sequences compared with solo consumption',
 'C06': 'deterministic simulation with fault injection: save, crash, restart in another interpreter (other hash seed), failing, short and torn streams; restored objects compared with the originals',
 'C07': 'deterministic simulation: the same seeded program in several interpreters with different hash seeds, memory layouts and clocks, plus histories of random-number state',
 'C08': 'deterministic simulation with fault injection: seeded histories of moves with checkpoints, crashes and resumption, against a plain reference model of flips and relabellings',
 'C09': 'deterministic simulation with fault injection: invariants monitored along seeded histories of moves with interruptions and restarts',
 'C10': 'deterministic simulation: simulated window system and event loop, seeded event histories, compared with a freshly opened viewer',
 'C11': 'deterministic simulation with fault injection: simulated window system and file system faults at seeded points of event histories',
 'C12': 'deterministic simulation with fault injection: seeded histories of joins and lookups, interruptions and preemptions, against a reachability model',
}
PURE = 'a statement about one pure function of its input: no schedule, clock, input/output, crash or history for a simulator to decide; needs another technique (algebraic oracle, proof or enumeration)'
def main():
    with open(os.path.join(HERE, 'properties.jsonl')) as f: props = [json.loads(l) for l in f]
    built = [l.strip() for l in open(os.path.join(HERE, 'CLAIMED')) if l.strip()]
    checks, na = [], []
    for p in props:
        i = p['id']
        if i in built:
            checks.append({'property': i, 'quick_cmd': f'{PY} sim/run.py {i}', 'thorough_cmd': f'VERIF_TIER=thorough {PY} sim/run.py {i}',
                           'technique': TECH[i], 'level': LEVEL.get(i, 'exploration'), 'level_note': NOTE, 'evidence_file': f'evidence/{i}.json'})
        else:
            na.append({'property': i, 'reason': PURE if i.startswith('P') else 'check not built yet'})
    m = {'version': 1, 'setup_cmd': f'{PY} sim/setup_check.py', 'checks': checks, 'not_applicable': na}
    with open(os.path.join(HERE, 'MANIFEST.json'), 'w') as f: json.dump(m, f, indent=1); f.write('\n')
main()
