"""What the imaging library (FreeImage 3.18) defines: the oracle for everything that depends on a bitmap's kind.

BITMAP[format] = (type, bits per pixel, colour types, red mask, green mask, blue mask): the bitmap that holds an image of that format.
RESULT[function] = function from the kind of the source bitmap to the kind of the bitmap it answers."""
FIT = dict(UNKNOWN=0, BITMAP=1, UINT16=2, INT16=3, UINT32=4, INT32=5, FLOAT=6, DOUBLE=7, COMPLEX=8, RGB16=9, RGBA16=10, RGBF=11, RGBAF=12)
FIC = dict(MINISWHITE=0, MINISBLACK=1, RGB=2, PALETTE=3, RGBALPHA=4, CMYK=5)
R, G, B, A = 0xff0000, 0xff00, 0xff, 0xff000000
BITMAP = {
    'Gray8': (1, 8, (1,), 0, 0, 0),
    'Gray16': (2, 16, (1,), 0, 0, 0),
    'RGB5': (1, 16, (2,), 0x7c00, 0x3e0, 0x1f),
    'RGB565': (1, 16, (2,), 0xf800, 0x7e0, 0x1f),
    'RGB8': (1, 24, (2,), R, G, B),
    'RGB16': (9, 48, (2,), 0, 0, 0),
    'RGBF': (11, 96, (2,), 0, 0, 0),
    'RGBA8': (1, 32, (4, 2), R, G, B),
    'RGBA16': (10, 64, (4,), 0, 0, 0),
    'RGBAF': (12, 128, (4,), 0, 0, 0),
    'Int16': (3, 16, (1,), 0, 0, 0),
    'UInt16': (2, 16, (1,), 0, 0, 0),
    'Int32': (5, 32, (1,), 0, 0, 0),
    'UInt32': (4, 32, (1,), 0, 0, 0),
    'Float': (6, 32, (1,), 0, 0, 0),
    'Double': (7, 64, (1,), 0, 0, 0),
    'Complex': (8, 128, (1,), 0, 0, 0),
}


def answers(kind, only=None):
    """hook for Analysis(bind=...): the library's queries answer for a bitmap of this kind"""
    from sa.absint import I
    t, bpp, ct, r, g, b = kind
    q = {'FreeImage_GetImageType': t, 'FreeImage_GetBPP': bpp, 'FreeImage_GetColorType': ct[0], 'FreeImage_GetRedMask': r,
         'FreeImage_GetGreenMask': g, 'FreeImage_GetBlueMask': b}
    def bind(an, i, dem, ar, st):
        v = q.get(dem.split('(')[0])
        if v is not None and (only is None or ar and ar[0] is only):
            return I(v)
    return bind


GREY8 = (1, 8, (1,), 0, 0, 0)
SAMPLES = {      # bitmaps a loader can answer: kind, and whether it has transparent colours
    '1 bit': ((1, 1, (1,), 0, 0, 0), False), '1 bit inverted': ((1, 1, (0,), 0, 0, 0), False), '1 bit palette': ((1, 1, (3,), 0, 0, 0), False),
    '4 bit palette': ((1, 4, (3,), 0, 0, 0), False), '4 bit transparent palette': ((1, 4, (3,), 0, 0, 0), True),
    '8 bit palette': ((1, 8, (3,), 0, 0, 0), False), '8 bit transparent palette': ((1, 8, (3,), 0, 0, 0), True), '8 bit inverted': ((1, 8, (0,), 0, 0, 0), False),
    '16 bit other masks': ((1, 16, (2,), 0xf00, 0xf0, 0xf), False), '24 bit': (BITMAP['RGB8'], False), '32 bit': (BITMAP['RGBA8'], True), '32 bit opaque': ((1, 32, (2,), R, G, B), False),
}
for _f in ('Gray8', 'Gray16', 'RGB5', 'RGB565', 'RGB16', 'RGBF', 'RGBA16', 'RGBAF', 'Int16', 'Int32', 'UInt32', 'Float', 'Double', 'Complex'):
    SAMPLES[_f] = (BITMAP[_f], _f.startswith('RGBA'))

_STD = {1: GREY8, 2: BITMAP['Gray16'], 3: BITMAP['Int16'], 4: BITMAP['UInt32'], 5: BITMAP['Int32'], 6: BITMAP['Float'], 7: BITMAP['Double'], 8: BITMAP['Complex'],
        9: BITMAP['RGB16'], 10: BITMAP['RGBA16'], 11: BITMAP['RGBF'], 12: BITMAP['RGBAF']}


def same_kind(x, y):
    """do two kinds describe the same storage?"""
    return x[:2] == y[:2] and x[3:] == y[3:] and bool(set(x[2]) & set(y[2]))


def _allocated(a):
    v = [x.a[0] if x.op == 'int' else None for x in a]
    if len(v) < 4 or v[0] is None:
        return None
    if v[0] != 1:
        return _STD.get(v[0])
    m = tuple((v + [0, 0, 0])[4:7])
    if v[3] == 16:
        return None if None in m else (1, 16, (2,)) + m
    return {8: GREY8, 24: BITMAP['RGB8'], 32: BITMAP['RGBA8']}.get(v[3])


def _plain(a):
    v = [x.a[0] if x.op == 'int' else None for x in a]
    if len(v) < 3 or v[2] is None:
        return None
    if v[2] == 16:
        return None if len(v) < 6 or None in v[3:6] else (1, 16, (2,)) + tuple(v[3:6])
    return {8: GREY8, 24: BITMAP['RGB8'], 32: BITMAP['RGBA8']}.get(v[2])


def _type(a):
    t = a[1] if len(a) > 1 else None
    return _STD.get(t.a[0]) if t is not None and t.op == 'int' else None


# what the library answers for (arguments, kind of the first one), or None: not known
RESULT = {
    'FreeImage_AllocateT': lambda a, k: _allocated(a),
    'FreeImage_AllocateExT': lambda a, k: _allocated(a),
    'FreeImage_Allocate': lambda a, k: _plain(a),
    'FreeImage_Clone': lambda a, k: k,
    'FreeImage_Copy': lambda a, k: k,
    'FreeImage_ConvertTo8Bits': lambda a, k: k if k and k[0] == 1 and k[1] == 8 else GREY8,
    'FreeImage_ConvertToGreyscale': lambda a, k: GREY8,
    'FreeImage_ConvertTo16Bits555': lambda a, k: BITMAP['RGB5'],
    'FreeImage_ConvertTo16Bits565': lambda a, k: BITMAP['RGB565'],
    'FreeImage_ConvertTo24Bits': lambda a, k: BITMAP['RGB8'],
    'FreeImage_ConvertTo32Bits': lambda a, k: BITMAP['RGBA8'],
    'FreeImage_ConvertToFloat': lambda a, k: BITMAP['Float'],
    'FreeImage_ConvertToRGBF': lambda a, k: BITMAP['RGBF'],
    'FreeImage_ConvertToRGBAF': lambda a, k: BITMAP['RGBAF'],
    'FreeImage_ConvertToUINT16': lambda a, k: BITMAP['Gray16'],
    'FreeImage_ConvertToRGB16': lambda a, k: BITMAP['RGB16'],
    'FreeImage_ConvertToRGBA16': lambda a, k: BITMAP['RGBA16'],
    'FreeImage_ConvertToStandardType': lambda a, k: GREY8,
    'FreeImage_ConvertToType': lambda a, k: k if k and _type(a) and k[0] == _type(a)[0] else _type(a),
    # scaling 16 bit colour answers 24 bit colour
    'FreeImage_Rescale': lambda a, k: None if k is None else BITMAP['RGB8'] if k[:2] == (1, 16) else k,
    'FreeImage_RescaleRect': lambda a, k: None if k is None else BITMAP['RGB8'] if k[:2] == (1, 16) else k,
    'FreeImage_Rotate': lambda a, k: k,
    'FreeImage_RotateEx': lambda a, k: k,
}


# What becomes of the channels, measured with 3.18: by source kind, in the order of _FROM.
# B the values are kept and are grey; I the values are kept, channel for channel; L the luminance of the stored values; C like I but limited to 0..1;
# R the stored integers are taken as they are; W something else; - no bitmap is answered.
_FROM = ('Gray8', 'Gray16', 'RGB5', 'RGB565', 'RGB8', 'RGB16', 'RGBF', 'RGBA8', 'RGBA16', 'RGBAF', 'Int16', 'Int32', 'UInt32', 'Float', 'Double', 'Complex')
_MEANING = {
    'ConvertTo8Bits': 'BBLLL--L--------',
    'ConvertToGreyscale': 'BBLLL--L--------',
    'ConvertTo16Bits555': 'B-III--I--------',
    'ConvertTo16Bits565': 'B-III--I--------',
    'ConvertTo24Bits': 'B-IIII-II-------',
    'ConvertTo32Bits': 'B-IIII-II-------',
    'ConvertToFloat': 'BBLLLLWLLW---B--',
    'ConvertToRGBF': 'BBWWIIIIIC---C--',
    'ConvertToRGBAF': 'BBIIIICIII---C--',
    'ConvertToUINT16': 'BBLLLL-LL-------',
    'ConvertToRGB16': 'BBIIII-II-------',
    'ConvertToRGBA16': 'BBIIII-II-------',
    'ConvertToStandardType': 'BWIII--I--WWWWWW',
    'ConvertToType 1': 'BWIIII-II-WWWWW-',
    'ConvertToType 2': 'BBLLLL-LL-------',
    'ConvertToType 3': 'R---------I-----',
    'ConvertToType 4': 'R-----------I---',
    'ConvertToType 5': 'R----------I----',
    'ConvertToType 6': 'BBLLLLWLLWIIIB--',
    'ConvertToType 7': 'WW--------IIIBB-',
    'ConvertToType 8': 'WW--------IIIWWI',
    'ConvertToType 9': 'BBIIII-II-------',
    'ConvertToType 10': 'BBIIII-II-------',
    'ConvertToType 11': 'BBWWIIIIIC---C--',
    'ConvertToType 12': 'BBIIIICIII---C--',
}
_WORD = {'B': 'both', 'I': 'id', 'L': 'luma', 'C': 'clamped', 'R': 'raw', 'W': 'wrong', '-': 'null'}


def meaning(name, a, kind):
    """what a conversion of a bitmap of this kind does to the values; None when it is not known"""
    n = name.split('(')[0]
    if n == 'FreeImage_Clone':
        return 'id'
    if kind is None:
        return None
    n = n[len('FreeImage_'):]
    if n == 'ConvertToType':
        if len(a) < 2 or a[1].op != 'int':
            return None
        n += ' %d' % a[1].a[0]
    row = _MEANING.get(n)
    k = [x for x, y in enumerate(_FROM) if same_kind(BITMAP[y], kind)]
    return _WORD[row[k[0]]] if row and k else None


class Kinds:
    """answers the library's queries about any bitmap whose kind follows from the calls that made it"""

    def __init__(self, given, transparent=False):
        self.given = given            # {term: kind}
        self.transparent = transparent

    def of(self, b, depth=0):
        k = self.given.get(b)
        if k is not None or depth > 8:
            return k
        if b.op == 'call':
            n = b.a[0].split('(')[0]
            f = RESULT.get(n)
            if f:
                ar = b.a[2]
                return f(ar, self.of(ar[0], depth + 1) if ar and 'Allocate' not in n else None)
            return None
        if b.op == 'ite':
            x, y = self.of(b.a[1], depth + 1), self.of(b.a[2], depth + 1)
            return x if x == y else None
        return None

    def bind(self, an, i, dem, ar, st):
        from sa.absint import I
        n = dem.split('(')[0]
        if not ar or n not in ('FreeImage_GetImageType', 'FreeImage_GetBPP', 'FreeImage_GetColorType', 'FreeImage_GetRedMask', 'FreeImage_GetGreenMask', 'FreeImage_GetBlueMask',
                               'FreeImage_IsTransparent'):
            return None
        k = self.of(ar[0])
        if k is None:
            return None
        if n == 'FreeImage_IsTransparent':
            return I(int(self.transparent)) if ar[0] in self.given else None
        return I({'FreeImage_GetImageType': k[0], 'FreeImage_GetBPP': k[1], 'FreeImage_GetColorType': k[2][0], 'FreeImage_GetRedMask': k[3], 'FreeImage_GetGreenMask': k[4],
                  'FreeImage_GetBlueMask': k[5]}[n])
