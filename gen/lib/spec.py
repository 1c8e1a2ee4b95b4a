# which opaque spec functions a text refers to, directly or through other spec functions
import re, glob, os
HERE = os.path.dirname(os.path.abspath(__file__))
def load(files):
    """name -> (opaque?, body text)"""
    d = {}
    for f in files:
        t = open(f).read() if os.path.exists(f) else f
        for m in re.finditer(r'(#\[verifier::opaque\]\s*)?pub (?:open|closed) spec fn (\w+)', t):
            b = t.find('{', m.end()); i, n = b, 0
            while i < len(t):
                if t[i] == '{': n += 1
                elif t[i] == '}':
                    n -= 1
                    if n == 0: break
                i += 1
            d[m.group(2)] = (bool(m.group(1)), t[b:i + 1])
    return d
BASE = load([os.path.join(HERE, '../../contracts/10-spec.vc'), os.path.join(HERE, '../../contracts/12-decspec.vc')])
def closure(text, d, stop=()):
    todo, seen = [text], []
    while todo:
        for n in re.findall(r'\b(\w+)\b', todo.pop()):
            if n in d and n not in seen and n not in stop:
                seen.append(n)
                todo.append(d[n][1])
    return [n for n in seen if d[n][0]]
def reveals(text, d=BASE, stop=(), mod='crate::vx', turbofish={}):
    ns = closure(text, d, stop)
    return 'proof { ' + ' '.join(f'reveal({mod}::{n});' for n in ns) + ' }' if ns else ''
