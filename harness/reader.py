"""Loads data files with /repo's python/sdf.py and says what it got (driven by pyread.cc).

One request per line: a path, or 'dataset FIELD PATH' for load_sorted_dataset / load_dataset.
Answer: 'ok N' and then, for each variable, 'var NAME-IN-HEX tensor|list K' and K lines
'KIND DIMS DATA-IN-HEX' (elements in column-major order), or 'error TYPE'.
"""
import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, sys.argv[1])
answers = os.fdopen(os.dup(1), 'w')
os.dup2(2, 1)
import numpy as np
import sdf


def tensor(t):
    if not isinstance(t, np.ndarray):
        return 'not-an-array %s -' % type(t).__name__
    kind = {'f': 'R', 'c': 'C'}.get(t.dtype.kind, '?') + str(t.dtype.itemsize)
    native = t.astype(t.dtype.newbyteorder('='))
    return '%s %s %s' % (kind, 'x'.join(map(str, t.shape)) or '-', native.tobytes(order='F').hex() or '-')


def flat(value):
    if isinstance(value, (list, tuple)):
        return [p for v in value for p in flat(v)]
    return [value]


def answer(data):
    if not isinstance(data, dict):
        print('error not-a-dict', file=answers)
        return
    print('ok', len(data), file=answers)
    for name, value in data.items():
        parts = flat(value)
        print('var', name.encode('utf-8').hex() or '-', 'list' if isinstance(value, (list, tuple)) else 'tensor', len(parts), file=answers)
        for p in parts:
            print(tensor(p), file=answers)


print('ready', file=answers, flush=True)
for line in sys.stdin:
    words = line.rstrip('\n').split(' ')
    try:
        if words[0] == 'dataset':
            answer(sdf.load_sorted_dataset(words[2], words[1]) if words[1] != '-' else sdf.load_dataset(words[2]))
        else:
            answer(sdf.load(words[0]))
    except Exception as e:
        print('error', type(e).__name__, file=answers)
    answers.flush()
