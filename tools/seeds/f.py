PK = '''
import io, struct
import numpy as np
from surfalize import Surface
'''
SEEDS = [
 {'id': 'time_without_seconds', 'property': 'F07',
  'edits': [('surfalize/file/opd.py', "metadata['timestamp'] = dateutil.parser.parse(metadata['Date'] + ' ' + metadata['Time'])", "metadata['timestamp'] = dateutil.parser.parse(metadata['Date'] + ' ' + metadata['Time'][:5])")],
  'demo': PK + '''
import datetime
def entry(n, t, s): return n.encode().ljust(16, b'\\0') + struct.pack('<hlH', t, s, 0)
z = np.arange(6, dtype='<f4')
blocks = [('RAW_DATA', 3, struct.pack('<HHH', 3, 2, 4) + z.tobytes()), ('Date', 5, b'11/25/2020'), ('Time', 5, b'14:05:36')]
c = b'\\x01\\x00' + entry('Directory', 1, 24 * 4) + b''.join(entry(n, t, len(b)) for n, t, b in blocks) + b''.join(b for n, t, b in blocks)
s = Surface.load(io.BytesIO(c), format='.opd')
assert s.metadata['timestamp'] == datetime.datetime(2020, 11, 25, 14, 5, 36), s.metadata
''', 'needs': 'an .opd file measured at a time that is not a full minute', 'breaks': 'the seconds of the time of the measurement'},
 {'id': 'tags_on_one_line', 'property': 'F07',
  'edits': [('surfalize/file/sdf.py', "    pattern = r'< ?\\b(\\w+)\\b ?>(.*)< ?/ ?\\b\\1\\b ?>'", "    pattern = r'< \\b(\\w+)\\b >(.*)< ?/ ?\\b\\1\\b ?>'")],
  'demo': PK + '''
t = 'aISO-1.0\\nManufacID = Maker\\nCreateDate = 030220200405\\nModDate = 030220200405\\nNumPoints = 3\\nNumProfiles = 2\\nXscale = 1e-6\\nYscale = 1e-6\\nZscale = 1e-6\\nZresolution = -1\\nCompression = 0\\nDataType = 7\\nCheckType = 0\\n*\\n1 2 3 4 5 6\\n*\\n<Sample>steel</Sample>\\n*\\n'
s = Surface.load(io.BytesIO(t.encode()), format='.sdf')
assert s.metadata['Sample'] == 'steel', s.metadata
''', 'needs': 'an ASCII .sdf file with a tag without blanks in its trailer', 'breaks': 'the entry is missing in the metadata'},
 {'id': 'lens_of_title_length', 'property': 'F07',
  'edits': [('surfalize/file/vk.py', "size_lens_name = struct.unpack('I', filehandle.read(4))[0] * 2", "size_lens_name = min(struct.unpack('I', filehandle.read(4))[0] * 2, size_title + 4)")],
  'demo': PK + '''
import sys
n = 4
o1 = 84; o2 = o1 + 380; o3 = o2 + 20 + 3 * n; o4 = o3 + 20 + 3 * n; o5 = o4 + 796 + 2 * n; o6 = o5 + 796 + 4 * n
u = lambda *a: struct.pack('<%dI' % len(a), *a)
mc = bytearray(380); mc[0:28] = u(380, 2020, 2, 3, 4, 5, 6); mc[168:180] = u(1000, 1000, 1)
img = u(2, 2, 24, 0, 12) + bytes(12)
c = b'VK4_' + bytes(8) + u(o1, o2, o3, o4) + bytes(8) + u(o5) + bytes(8) + u(0, 0, 0, 0, 0, 0, 0, o6) + bytes(mc[:0]); c = c.ljust(o1, b'\\0') + bytes(mc) + img + img
c += u(2, 2, 16, 0, 8, 0, 65535) + bytes(768) + bytes(8) + u(2, 2, 32, 0, 16, 0, 65535) + bytes(768) + np.arange(4, dtype='<u4').tobytes()
c += u(1) + 'A'.encode('utf-16-le') + u(9) + 'Objective'.encode('utf-16-le')
s = Surface.load(io.BytesIO(c), format='.vk4')
assert s.metadata['lens_name'] == 'Objective' and s.metadata['title'] == 'A', s.metadata
''', 'needs': 'a .vk4 file whose lens name is longer than the title', 'breaks': 'the lens name is cut off'},
 {'id': 'info_items_below_ten', 'property': 'F07',
  'edits': [('surfalize/file/plux.py', "            if item.tag.startswith('ITEM_'):", "            if item.tag.startswith('ITEM_') and len(item.tag) == len('ITEM_0'):")],
  'demo': PK + '''
import zipfile
items = ''.join(f'<ITEM_{i}><NAME>{"Comment" if i == 11 else "N%d" % i}</NAME><VALUE>v{i}</VALUE></ITEM_{i}>' for i in range(12))
b = io.BytesIO()
with zipfile.ZipFile(b, 'w') as z:
    z.writestr('index.xml', '<xml><GENERAL><DATE>2020-02-03 04:05:06</DATE><IMAGE_SIZE_X>3</IMAGE_SIZE_X><IMAGE_SIZE_Y>2</IMAGE_SIZE_Y><FOV_X>1</FOV_X><FOV_Y>1</FOV_Y></GENERAL><INFO>' + items + '</INFO></xml>')
    z.writestr('LAYER_0.raw', np.arange(6, dtype='<f4').tobytes())
s = Surface.load(io.BytesIO(b.getvalue()), format='.plux')
assert s.metadata.get('comment') == 'v11', s.metadata
''', 'needs': 'a .plux file with more than ten items of information', 'breaks': 'the later ones are missing'},
 {'id': 'day_first', 'property': 'F07',
  'edits': [('surfalize/file/nms.py', "dateutil.parser.parse(decode(filehandle.read(16), encoding))", "dateutil.parser.parse(decode(filehandle.read(16), encoding), dayfirst=True)")],
  'demo': PK + '''
import datetime
c = bytearray(3468); c[16:32] = struct.pack('<2d', 0, 10); c[1076:1092] = b'2020-02-03 04:05'; c[1368:1376] = struct.pack('<2I', 3, 2); c[1376:1392] = struct.pack('<2d', 1, 1)
s = Surface.load(io.BytesIO(bytes(c) + np.arange(6, dtype='<u2').tobytes() + bytes(6)), format='.nms')
assert s.metadata['date'] == datetime.datetime(2020, 2, 3, 4, 5), s.metadata
''', 'needs': 'a .nms file measured on one of the first twelve days of a month', 'breaks': 'day and month are exchanged'},
]
