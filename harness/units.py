"""F05: every pair of unit spellings from Units.tla, converted by the implementation and judged by the trace specification."""
import math
import lib

LONG = {'m': 'meter', 'dm': 'decimeter', 'cm': 'centimeter', 'mm': 'millimeter', 'um': 'micrometer', 'nm': 'nanometer', 'pm': 'picometer'}
SIGNS = [chr(181), chr(956)]
SQUARE = chr(13211)
ENC = ('ascii big5 big5hkscs cp037 cp273 cp424 cp437 cp500 cp720 cp737 cp775 cp850 cp852 cp855 cp856 cp857 cp858 cp860 cp861 cp862 cp863 cp864 '
       'cp865 cp866 cp869 cp874 cp875 cp932 cp949 cp950 cp1006 cp1026 cp1125 cp1140 cp1250 cp1251 cp1252 cp1253 cp1254 cp1255 cp1256 cp1257 cp1258 '
       'euc_jp euc_jis_2004 euc_jisx0213 euc_kr gb2312 gbk gb18030 hz iso2022_jp iso2022_jp_1 iso2022_jp_2 iso2022_jp_2004 iso2022_jp_3 '
       'iso2022_jp_ext iso2022_kr latin_1 iso8859_2 iso8859_3 iso8859_4 iso8859_5 iso8859_6 iso8859_7 iso8859_8 iso8859_9 iso8859_10 iso8859_11 '
       'iso8859_13 iso8859_14 iso8859_15 iso8859_16 johab koi8_r koi8_t koi8_u kz1048 mac_cyrillic mac_greek mac_iceland mac_latin2 mac_roman '
       'mac_turkish ptcp154 shift_jis shift_jis_2004 shift_jisx0213 utf_32 utf_32_be utf_32_le utf_16 utf_16_be utf_16_le utf_7 utf_8 utf_8_sig').split()
UNKNOWN = ['', 'km', 'in', 'inch', 'mmm', 'mu', '1m', ' m', 'm ', ' um', 'u', 'metre', 'foo', 'M.', 'ummm', 'nmm', 'µ', 'µmm', 'mµ', 'meters', 'hm', 'fm', 'Å',
           'ft', 'ummeter', 'micro', 'kmeter', 'a', 'µm2', 'none']


def misreads():
    """What a micro sign turns into when it is written in one encoding and read in another, apart from units of their own."""
    out = set()
    for a in ENC:
        for b in ENC:
            try:
                out.add(chr(181).encode(a).decode(b))
            except Exception:
                pass
    return sorted(s for s in out if s.lower() not in ('', 'm', 'd', 'c', 'n', 'p', 'u') and s not in SIGNS)


def check(pid):
    from surfalize.file.common import get_unit_conversion
    rep = lib.Report(pid)
    mis = misreads()
    known = {m.lower() for m in mis} | {'', 'm', 'd', 'c', 'n', 'p', 'u', *SIGNS}
    # parts of wrongly read micro signs and two of them are no units either
    parts = sorted({p for m in mis for p in (m[:-1], m[1:], m + m, m + 'u', 'n' + m)} - set(mis))
    unknown = [u for u in UNKNOWN + [p + 'm' for p in parts] if u[:-1].lower() not in known]
    text = {}

    def spell(s):
        un, kind, k = s
        if kind == 'unknown':
            return unknown[k - 1] if k <= len(unknown) else None
        return {'short': un, 'SHORT': un.upper(), 'long': LONG[un], 'LONG': LONG[un].upper(), 'Long': LONG[un].title(),
                'sign': SIGNS[(k - 1) % len(SIGNS)] + 'm', 'SIGN': SIGNS[(k - 1) % len(SIGNS)] + 'M', 'square': SQUARE,
                'misread': mis[k - 1] + 'm' if kind == 'misread' else ''}[kind]

    def answer(a, b):
        try:
            f = get_unit_conversion(a, b)
            e = round(math.log10(f))
            return e if math.isclose(f, 10.0 ** e, rel_tol=1e-12) else 99
        except ValueError:
            return -99
        except Exception:
            return 98

    with lib.Scratch() as wd:
        rep.tlc(lib.tlc('Units', 'SPECIFICATION Spec\nCHECK_DEADLOCK FALSE\nINVARIANT Conserved\nINVARIANT NoMemory\n', wd))
        r = lib.tlc('Units', 'SPECIFICATION EmitSpec\nCHECK_DEADLOCK FALSE\n', wd, env={'NS': len(SIGNS), 'NM': len(mis), 'NU': len(unknown)}, workers=1)
        pairs = sorted(r['emitted'][0]['pairs'], key=str)
        events = [{'a': a, 'b': b, 'r': answer(spell(a), spell(b))} for a, b in pairs if spell(a) is not None and spell(b) is not None]
        # asking again gives the same answers, in any order
        for e in events[::-7]:
            if answer(spell(e['a']), spell(e['b'])) != e['r']:
                rep.violation('F05:unstable', [spell(e['a']), spell(e['b'])])
        traces = [events[i:i + 60] for i in range(0, len(events), 60)]
        rejects, st, tr = lib.validate_traces('Units', traces, wd)
    for j in rejects:
        e = traces[j['t'] - 1][j['l'] - 1]
        for b in j['bad']:
            rep.violation(b, {'from': spell(e['a']), 'to': spell(e['b']), 'kinds': [e['a'], e['b']], 'answer': e['r']})
    rep.add(states=st, transitions=tr, traces_validated_against_impl=len(traces), pairs=len(events), misreads=len(mis), unknown_units=len(unknown))
    rep.sample(events[0])
    rep.sample(events[-1])
    return rep
