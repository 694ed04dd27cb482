PRE = '''
import os, sys, io, struct
sys.path.insert(0, os.environ['REPO'])
import blosc, bloscpack as bp
from bloscpack import *
from bloscpack.args import *
from bloscpack.file_io import *
from bloscpack.headers import *
from bloscpack.append import *
W = os.environ['W']
P = lambda n: os.path.join(W, n)
def put(n, data):
    with open(P(n), 'wb') as f:
        f.write(data)
    return P(n)
def get(n):
    with open(P(n), 'rb') as f:
        return f.read()
'''
RUN = PRE + """
import subprocess
def blpk(*a):
    r = subprocess.run([sys.executable, os.path.join(os.environ['REPO'], 'blpk')] + list(a), capture_output=True, text=True)
    assert r.returncode == 0, r
    return r.stdout
put('in', bytes(bytearray(i % 7 for i in range(5000))))
"""
SEEDS = [
dict(id='c34-empty-metadata-hidden', property='C34',
     needs='a file whose metadata is an empty object',
     breaks='blpk info treats empty metadata as none and does not show it nor its header',
     edits=[('bloscpack/cli.py', """        if metadata is not None:
            log_metadata(metadata)
            log.normal(metadata_header.pformat())""", """        if metadata:
            log_metadata(metadata)
            log.normal(metadata_header.pformat())""")],
     demo=RUN + """
for m in ('{"a": 1}', '{}'):
    put('m', m.encode())
    blpk('-f', 'c', '-m', P('m'), P('in'), P('o.blp'))
    assert 'meta_size: 2.0B (2B)' in blpk('i', P('o.blp')) or m != '{}'
    assert 'max_meta_size' in blpk('i', P('o.blp'))
"""),
dict(id='c34-offset-base', property='C34',
     needs='blpk info on a file of more than one chunk',
     breaks='the offsets are shown relative to the first one, as if the data began at zero',
     edits=[('bloscpack/cli.py', """(",".join(str(o) for o in offsets[:5]))""", """(",".join(str(o - offsets[0]) for o in offsets[:5]))""")],
     demo=RUN + """
blpk('-f', 'c', '-z', '1K', P('in'), P('o.blp'))
data = get('o.blp')
want = ','.join(str(struct.unpack('<q', data[32 + 8 * i:40 + 8 * i])[0]) for i in range(5))
assert '[%s' % want in blpk('i', P('o.blp'))
"""),
dict(id='c35-whole-numbers-only', property='C35',
     needs='a size text whose number is not whole, in a unit above M',
     breaks='large units are multiplied as integers after the fraction is cut off',
     edits=[('bloscpack/pretty.py', "        return int(float(readable[:-1]) * SUFFIXES[suffix])", """        if suffix in 'GT':
            # stay exact for large numbers
            return int(float(readable[:-1])) * SUFFIXES[suffix]
        return int(float(readable[:-1]) * SUFFIXES[suffix])""")],
     demo=PRE + """
from bloscpack.pretty import reverse_pretty
for u, n in (('B', 0), ('K', 10), ('M', 20), ('G', 30), ('T', 40)):
    assert reverse_pretty('1.5' + u) == int(1.5 * 2 ** n), u
"""),
dict(id='c31-long-lines', property='C31',
     needs='a message of more than twelve lines',
     breaks='only the first lines of a message are printed (output of info on a file with metadata is cut)',
     edits=[('bloscpack/log.py', """        for line in [l for l in message.split('\\n') if l != '']:
            print('%s: %s' % (PREFIX, line))""", """        for line in [l for l in message.split('\\n', 12) if l != ''][:12]:
            print('%s: %s' % (PREFIX, line))""")],
     demo=PRE + """
from bloscpack import log
import contextlib
o = io.StringIO()
with contextlib.redirect_stdout(o):
    log.normal('\\n'.join('line %d' % i for i in range(20)))
assert o.getvalue().count('line') == 20
"""),
]
