"""Packs the fields of Layouts.tla into bytes. Knows nothing about the formats."""
import hashlib
import io
import lzma
import struct
import zipfile
import zlib
import numpy as np
import terms
from lib import NAN

FMIN = float(np.finfo(np.float32).min)
ENV = {'fmin': FMIN, 'nan': float('nan')}


def val(x):
    if isinstance(x, dict):
        if x['op'] == 'var':
            return ENV[x['n']]
        return terms.ev(x, ENV)
    return x


def num(t, x):
    v = val(x)
    return np.array(float(v) if 'f' in t else int(v), dtype=t)


# characters beyond ASCII, which TLC does not hand on reliably
CHARACTERS = {'{mu}': 'µ', '{oe}': 'ö', '{ss}': 'ß', '{deg}': '°', '{kanji}': '測定'}


def chars(s):
    for k, v in CHARACTERS.items():
        s = s.replace(k, v)
    return s


def text(parts, encoding='utf-8'):
    out = ''
    for p in parts:
        if isinstance(p, dict) and 'op' in p:
            v = terms.ev(p, ENV)
            out += str(int(v)) if v.denominator == 1 and p['op'] == 'int' else repr(float(v))
        elif isinstance(p, dict):
            out += p['p'].ljust(p['w'])
        else:
            out += str(p)
    return chars(out).encode(encoding)


def pack(fields):
    b = bytearray()
    for f in fields:
        t = f['t']
        if t == 's':
            x = chars(f['v']).encode(f.get('e', 'utf-8'))
            assert len(x) <= f['n'], f
            b += x.ljust(f['n'], b'\x00')
        elif t == 'z':
            b += bytes(f['n'])
        elif t == 'at':
            assert len(b) <= f['n'], (len(b), f)
            b += bytes(f['n'] - len(b))
        elif t == 'text':
            b += text(f['p'], f.get('e', 'utf-8'))
        elif t == 'sized':
            x = pack(f['f'])
            b += np.array(len(x), dtype=f['w']).tobytes() + x
        elif t == 'padded':
            x = pack(f['f'])
            b += x + bytes([f['c']]) * (-len(x) % f['n'])
            if not x:
                b += bytes([f['c']]) * f['n']
        elif t == 'zlib':
            b += zlib.compress(pack(f['f']))
        elif t == 'lzma':
            b += lzma.compress(pack(f['f']))
        elif t == 'block':
            b += pack(f['f'])
        elif t == 'len':
            b += np.array(len(pack(f['f'])), dtype=f['w']).tobytes()
        elif t == 'md5':
            b += hashlib.md5(pack(f['f'])).hexdigest().encode()
        elif t == 'zip':
            z = io.BytesIO()
            with zipfile.ZipFile(z, 'w', zipfile.ZIP_STORED if f['stored'] else zipfile.ZIP_DEFLATED) as a:
                for e in f['e']:
                    a.writestr(zipfile.ZipInfo(e['name'], (2020, 2, 3, 4, 5, 6)), pack(e['f']), None if f['stored'] else zipfile.ZIP_DEFLATED)
            b += z.getvalue()
        elif t == 'png':
            from PIL import Image
            z = io.BytesIO()
            Image.fromarray(np.array(f['a'], dtype=np.uint8).reshape(f['h'], f['w'], f['ch'])).save(z, 'png')
            b += z.getvalue()
        elif 'a' in f:
            b += b''.join(num(t, x).tobytes() for x in f['a'])
        else:
            b += num(t, f['v']).tobytes()
    return bytes(b)


def meaning(m):
    """Heights (with nan) and spacings in micrometres as floats."""
    za, zb = terms.ev(m['za']), terms.ev(m['zb'])
    h = np.array([[np.nan if c == NAN else float(za * c + zb) for c in row] for row in m['g']], dtype=float)
    return h, float(terms.ev(m['sx'])), float(terms.ev(m['sy']))
