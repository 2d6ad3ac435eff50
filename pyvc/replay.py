"""re-run the counterexample of a replay file on the unmodified package:
python3-vt -m pyvc.replay evidence/replay/P01-xxx.json"""
import json
import sys


def main():
    d = json.load(open(sys.argv[1]))
    for o in d.get('failed_obligations', []):
        print('failed obligation:', o['label'], '|', o['detail'][:300])
    for e in d.get('engine_errors', []):
        print('engine:', e)
    w = d.get('witness')
    if not w:
        print('no failing input recorded')
        return 1
    if w.get('python'):
        ns = {}
        exec(w['python'], ns)
        print('replay of', w['python'])
        return 1
    from pyvc import run, search, instr
    instr.install()
    run.load(d['property'])
    import pyvc.run as me
    for sf in me.REGISTRY[d['property']]:
        for p in (sf.params if sf.params is not None else [None]):
            if sf.name + me.pname(p) == d['spec']:
                c = search.run_concrete(me.bound_spec(sf, p), w['values'], w['choices'])
                print('inputs:', w['values'], w['choices'])
                for f in (c.fails if c else []):
                    print('FAILS:', f.label, f.why)
                return 1 if c and c.fails else 0
    print('spec not found')
    return 1


if __name__ == '__main__':
    sys.exit(main())
