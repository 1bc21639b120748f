"""Harnesses for files and images (see mini.py).  All files live in a scratch folder of the session."""
import base64
import io
import json
import os
import shutil
import tempfile

import png
import properties

from .hp import HarnessError
from .mini import NONE
from .worlds2 import TermWorld

ROWS = {'A': [[0, 255], [128, 7]], 'B': [[1, 2, 3]], 'G': [[9, 8], [7, 6], [5, 4]]}
PRE = 'data:image/png;base64,'


def bytes_of(token):
    if token in ('A', 'B'):
        f = io.BytesIO()
        png.from_array(ROWS[token], 'L').write(f)
        return f.getvalue() + (b'trailing' if token == 'B' else b'')
    return {'': b'', 'T': b'some text'}[token]


def token_of(data):
    if isinstance(data, str):
        data = data.encode('latin-1')
    for t in ('A', 'B', '', 'T'):
        if data == bytes_of(t):
            return t
    try:
        rows = [list(r) for r in png.Reader(bytes=data).read()[2]]
    except Exception:  # pylint: disable=broad-except
        return '?%d' % len(data)
    return 'G' if rows == ROWS['G'] else '?rows'


class Half(object):
    """can be read, cannot seek"""

    def read(self):
        return b''


class FilesWorld(TermWorld):
    """spec/Files.tla"""

    module = 'FilesRun'

    def start(self):
        TermWorld.start(self)
        self.dir = tempfile.mkdtemp(prefix='vf-files-')
        os.mkdir(os.path.join(self.dir, 'dir'))
        for name, token in (('a', 'A'), ('b', 'B'), ('t', 'T'), ('e', '')):
            self.put(name, bytes_of(token))
        cfg = self.cfg
        kw = {}
        if cfg['valid']:
            kw['valid_modes'] = tuple(cfg['valid'])
        if cfg['k'] == 'png':
            if cfg['name'] != 'texture.png':
                kw['filename'] = cfg['name']
            prop = properties.ImagePNG('', **dict(kw, **({} if cfg['mode'] == 'rb' else {'mode': cfg['mode']})))
        else:
            prop = properties.File('', cfg['mode'], **kw) if cfg['mode'] else properties.File('', **kw)

        class Hold(properties.HasProperties):
            _REGISTRY = {}
            f = prop

        self.Hold = Hold
        self.holders = {'h1': Hold(), 'h2': Hold()}

    def path(self, name):
        return os.path.join(self.dir, name)

    def put(self, name, data):
        with open(self.path(name), 'wb') as f:
            f.write(data)

    def close(self):
        TermWorld.close(self)
        for o in self.objs.values():
            if hasattr(o, 'close'):
                o.close()
        shutil.rmtree(self.dir, ignore_errors=True)

    def dec(self, t):
        return self.path(t[1]) if t[0] == 's' else TermWorld.dec(self, t)

    def project(self):
        files = {}
        for n in os.listdir(self.dir):
            if n != 'dir':
                with open(self.path(n), 'rb') as f:
                    files[n] = token_of(f.read())
        return {'files': files, 'streams': {n: bool(getattr(o, 'closed', False)) for n, o in self.objs.items()},
                'hold': {h: '' if o.f is None else self.name(o.f) for h, o in self.holders.items()}}

    def seen(self, h, x):
        v = self.holders[h].f
        if v is None:
            return None
        if self.name(v) == '?':
            self.objs[x] = v
        if hasattr(v, '__valid__') or self.cfg['k'] == 'png':
            at = v.tell()
            v.seek(0)
            data = v.read()
            v.seek(0)
            return ['img', 0 if self.name(v) != x else at, v.name, token_of(data)]
        return ['h', self.name(v)]

    def op_open(self, e):
        self.objs[e['x']] = open(self.path(e['path']), e['mode'])

    def op_make(self, e):
        k, data = e['k'], e['data']
        self.objs[e['x']] = {'mem': lambda: io.BytesIO(bytes_of(data)), 'txt': lambda: io.StringIO(bytes_of(data).decode('latin-1')),
                             'half': Half, 'pix': lambda: png.from_array(ROWS['G'], 'L')}[k]()

    def op_close(self, e):
        self.objs[e['x']].close()

    def op_part(self, e):
        self.objs[e['x']].read(3)

    def op_read(self, e):
        f = self.objs[e['x']]
        f.seek(0)
        return ['data', token_of(f.read())]

    def op_write(self, e):
        self.put(e['path'], bytes_of(e['data']))

    def op_set(self, e):
        self.holders[e['h']].f = self.dec(e['v'])
        return self.seen(e['h'], e['x'])

    def op_get(self, e):
        v = self.holders[e['h']].f
        return None if v is None else ['h', self.name(v)]

    def op_del(self, e):
        del self.holders[e['h']].f

    def op_validate(self, e):
        return self.enc(self.holders[e['h']].validate())

    def op_ser(self, e):
        h = self.holders[e['h']]
        s = json.loads(json.dumps(h.serialize()))['f']
        self.slots[e['s']] = s
        if not s.startswith(PRE):
            return ['x', s[:30]]
        return ['png', token_of(base64.b64decode(s[len(PRE):])), h.f.tell()]

    def op_edit(self, e):
        self.slots[e['s']] = {'bad': 'nothing', 'T': PRE + base64.b64encode(bytes_of('T')).decode(), '': PRE}[e['d']]

    def op_deser(self, e):
        self.holders[e['h']] = self.Hold.deserialize({'f': self.slots[e['s']]})
        return self.seen(e['h'], e['x'])

    def op_copy(self, e):
        self.holders[e['g']] = properties.copy(self.holders[e['h']])
        return self.seen(e['g'], e['x'])
