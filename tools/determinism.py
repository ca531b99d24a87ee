"""Runs the same cases in several processes, in another order and with another hash seed, and compares their event logs.

    tools/determinism.py CASES [PROPERTY...]      (environment as in check.sh)

Prints one line per property and database; exits 1 if any two logs of one case differ.
"""
import json
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
VENDORS = 'sqlite3', 'postgresql', 'mysql'
SEED = int(os.environ.get('VERIF_SEED', '1'))


def child(prop, vendor, name, indexes):
    from dst import servers, known, worker
    with servers.Scratch() as scratch:
        server = scratch.start_pg() if vendor == 'postgresql' else scratch.start_mysql() if vendor == 'mysql' else None
        world, scenario = worker.make_world(dict(prop=prop, vendor=vendor, scratch=scratch.dir, name=name, server=server,
                                                 bulk_unsafe=False, known=sorted(known.load().get(prop, {}))))
        out = {}
        for index in indexes:
            cases = scenario.cases(world, worker.run_seed(SEED, prop, vendor, index), index)
            result, log = None, []
            while True:
                try:
                    spec = cases.send(result)
                except StopIteration:
                    break
                result = worker.execute(world, scenario, spec)
                log.append([result['digest'], result['steps'], sorted(result['fired_counts'].items())])
            out[index] = log
    print('\nLOG ' + json.dumps(out))


def start(prop, vendor, name, indexes, hashseed):
    return subprocess.Popen([sys.executable, '-W', 'ignore', __file__, '--child', prop, vendor, name, json.dumps(indexes)],
                            stdout=subprocess.PIPE, env=dict(os.environ, PYTHONHASHSEED=hashseed), cwd=HERE)


def collect(processes):
    logs = {}
    for process in processes:
        text = process.communicate()[0].decode()
        if process.returncode:
            sys.exit('a process failed: %s' % text[-2000:])
        logs.update(json.loads(text.rsplit('\nLOG ', 1)[1]))
    return logs


def main(n, props):
    bad = 0
    for prop in props:
        for vendor in VENDORS:
            if prop == 'C16' and vendor != 'sqlite3':
                continue
            first = [start(prop, vendor, 'a', list(range(n)), '0')]
            second = [start(prop, vendor, 'b%d' % k, list(range(k, n, 3))[::-1], str(100 + k)) for k in range(3)]
            first, second = collect(first), collect(second)
            differ = sorted(int(i) for i in first if first[i] != second[i])
            bad += len(differ)
            print('%s %s: %d cases, %d runs twice in 4 processes, %d differ %s' % (
                prop, vendor, len(first), sum(map(len, first.values())), len(differ), differ[:10]), flush=True)
    return 1 if bad else 0


if __name__ == '__main__':
    if sys.argv[1] == '--child':
        child(sys.argv[2], sys.argv[3], sys.argv[4], json.loads(sys.argv[5]))
    else:
        sys.exit(main(int(sys.argv[1]), sys.argv[2:] or ['C%02d' % i for i in range(1, 17)]))
