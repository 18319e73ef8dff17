"""Loads objects, says what they look like here and sends them back."""

import pickle
import sys
import warnings

warnings.simplefilter('ignore')

if __name__ == '__main__':
    from vf import objects
    with open(sys.argv[1], 'rb') as f:
        things = pickle.load(f)
    out = []
    for what, x in things:
        seen = objects.text(objects.OBSERVE[what](x))
        out.append((seen, x))
    with open(sys.argv[2], 'wb') as f:
        pickle.dump(out, f)
