"""Writes HARNESSES.md: what each harness asserts, and within what bounds."""
import os
import sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
sys.path.append('/opt/veriftools/pyvenv/lib/python3.12/site-packages')
import check                                                # noqa: E402
from engine import checks_util as U                         # noqa: E402

check.load_checks()


def text(x):
    return ' '.join(str(x or '').split())


out = ['# Harnesses', '',
       'Written by tools/harnesses.py from the decorators and docstrings in '
       'checks/*.py.', '']
for name in sorted(U.HARNESS):
    s = U.HARNESS[name]
    thorough = getattr(s, 'thorough', None) or []
    out += ['## ' + name, '', text(s.fn.__doc__) + '.', '',
            '* Bounds: ' + text(s.bounds) + '.',
            '* Configurations: %d quick, %d thorough (those of quick included).' % (
                len(s.quick), len(thorough)),
            '* Functions: ' + ', '.join('`%s`' % f for f in s.functions) + '.']
    if s.assumes:
        out.append('* Assumes: ' + '; '.join(text(a) for a in s.assumes)
                   + '.')
    out.append('')
with open(os.path.join(HERE, 'HARNESSES.md'), 'w') as f:
    f.write('\n'.join(out))
