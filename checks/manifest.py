"""Write MANIFEST.json (not part of any check)."""
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

TECH = {
    'C01': 'explicit-state enumeration of the iterators of the real library for every (kind, dim, degree) within the bound, against the set definition',
    'C02': 'explicit-state enumeration of every index/size/degree query within the bound on the real library, against the enumeration and counting models',
    'C03': 'exhaustive execution of the transforms on every shape of the bound and every unit input (plus a dense one), against the change-of-basis matrix',
    'C04': 'exhaustive execution of discretize/integrate/norm on every (expression, position, grid) of the bound, against the reference values and moments',
    'C05': 'exhaustive execution of varf on every shape and every unit coefficient of the bound, against exact triple products',
    'C06': 'exhaustive execution of varfd on every unit matrix and of discretize_op on every operator of the bound, against exact Galerkin matrices',
    'C07': 'exhaustive exploration of the option configurations x calls on the real library, all results compared',
    'C08': 'exhaustive execution over all partitions/subsets of directions, index sets and unit inputs, against tensor algebra',
    'C09': 'breadth-first exploration of operation histories on the real objects in lockstep with a reference model',
    'C10': 'exhaustive exploration of call histories (ordered pairs/triples of calls x settings) against uncached executions',
    'C11': 'fault-injection model checking: every file-system step as crash point, every truncation, all two-process interleavings within the bound, on the real code',
    'C12': 'fault-injection model checking: every step of compile-and-install as crash point, all two-process interleavings within the bound, all call histories, on the real code',
    'C13': 'exhaustive enumeration of the expression/operator grammar and of pairs of partitions within the bound, exact symbolic oracle',
    'C14': 'exhaustive enumeration of shapes, layouts, dtypes and sparsity patterns through the real converters',
    'C15': 'exhaustive execution of the shape space in a build with memory and undefined-behaviour monitors',
    'C16': 'exhaustive exploration of histories (invalid call, then valid calls) of the invalid-argument alphabet on the real library',
    'C17': 'exhaustive execution over operators x storage x solver x options of the bound, residual oracle',
    'C18': 'exhaustive enumeration of parameter combinations, symbolic identities in the space variables',
    'C19': 'exhaustive execution of the plotting calls over objects x quadratures x options with recorded drawings, and of all histories of logged calls',
}


def main():
    with open(os.path.join(VERIF, 'properties.jsonl')) as f:
        props = [json.loads(l) for l in f if l.strip()]
    checks, na = [], []
    for p in props:
        i = p['id']
        if os.path.exists(os.path.join(HERE, i.lower() + '.py')):
            import importlib
            m = importlib.import_module(i.lower())
            checks.append({'property': i,
                           'quick_cmd': 'python3 checks/run.py %s --tier quick' % i,
                           'thorough_cmd': 'python3 checks/run.py %s --tier thorough' % i,
                           'technique': 'model checking: ' + TECH[i],
                           'level': 'model_checking',
                           'level_note': 'Exhaustive within: ' + m.BOUNDS['quick'] + '. Thorough: ' + m.BOUNDS['thorough']
                           + '. Beyond the bounds nothing is claimed.'})
        else:
            na.append({'property': i, 'reason': 'check not built yet'})
    with open(os.path.join(VERIF, 'MANIFEST.json'), 'w') as f:
        json.dump({'version': 1, 'setup_cmd': 'python3 checks/build.py release asan', 'checks': checks,
                   'not_applicable': na}, f, indent=1)
        f.write('\n')


if __name__ == '__main__':
    main()
