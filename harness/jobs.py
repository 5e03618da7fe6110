"""Per property: harness files and the entries (with parameters and bounds) each tier runs."""

COMMON_ASSUMPTIONS = [
    'clang 18 -O1 LLVM IR of the sources is what is analysed; gcc/other optimisation levels are outside',
    'compiled-only parts of libstdc++ (ios_base, locale, tree rebalancing, hash policy) are modelled in rt/rt.cpp; header templates are the real code',
    'texts of fmt/spdlog messages are not modelled; logging is off',
    'an allocation whose size depends on input and exceeds the job\'s limit, or any above 64 MiB, throws std::bad_alloc; all others succeed',
]


def job(entry, *params, tier='qt', time=400, reach=('end',), file=None, sym_alloc=256, wit=4, opts=(), weight=1, name=None):
    return dict(entry=entry, params=list(params), tiers=[x for x, c in (('quick', 'q'), ('thorough', 't')) if c in tier],
                time=time if tier != 't' else max(time, 3600), reach=list(reach), file=file, sym_alloc=sym_alloc, wit=wit, opts=list(opts), weight=weight,
                name=name or entry + ''.join('-%d' % p for p in params))


PROPS = {}

PROPS['C01'] = dict(
    files=['c01.cpp'],
    jobs=[job('h_u8', 1, 8), job('h_i8', 1, 8), job('h_u16', 1, 16), job('h_i16', 1, 16), job('h_u32', 1, 32), job('h_i32', 1, 32)]
    + [job('h_%s64' % s, a, a + 15, weight=2) for s in 'ui' for a in (1, 17, 33, 49)]
    + [job('h_low'), job('h_default'), job('h_seq', 9), job('h_seq', 32, tier='t'), job('h_vec', 2), job('h_vec', 5, tier='t'), job('h_bools', 16), job('h_zero'), job('h_raw')]
    + [job('h_read', i) for i in range(8)],
    bounds='every type, every width 1..type size, every alignment 0..7, every value; vectors up to 2 (thorough 5) elements; three consecutive fields of widths up to 9 (thorough 32)',
    outside='widths above the type size; Reader::seek between fields')

PROPS['C02'] = dict(files=['c02.cpp'], jobs=[job('h_u32'), job('h_u64')], bounds='every 32- and 64-bit value and byte array (complete)')
PROPS['C03'] = dict(
    files=['c03.cpp'],
    jobs=[job('h_cstr', 6), job('h_cstr', 24, tier='t'), job('h_limit', 6, reach=('end', 'nul', 'limit')), job('h_limit', 24, tier='t', reach=('end', 'nul', 'limit')),
          job('h_pascal', 8), job('h_pascal', 255, 1), job('h_pascal', 254, 1), job('h_pascal', 256, 1), job('h_pascal', 300, 1), job('h_pascal', 40, tier='t'),
          job('h_pascal_any', 6, reach=('end', 'prefixed', 'fallback')), job('h_pascal_any', 20, tier='t', reach=('end', 'prefixed', 'fallback')), job('h_short', 5), job('h_short', 20, tier='t')],
    bounds='strings up to 6 bytes (thorough 24) with every content, limits over every value in bits; length-prefixed strings up to 8 bytes plus lengths 254, 255, 256, 300',
    outside='readers positioned inside a byte')
PROPS['C04'] = dict(files=['c04.cpp'], jobs=[job('h_rt', n) for n in (1, 2, 4, 8)] + [job('h_any', n, reach=('end', 'ok', 'cut')) for n in (1, 2, 4, 8)],
                    bounds='every value of 8, 16, 32 and 64 bit types; every input of the type\'s width', outside='encodings longer than the type (the excess high bits are dropped)')

import re as _re, os as _os
BOX = dict((n, int(i)) for i, n in _re.findall(r'X\((\d+), (\w+)\)', open(_os.path.join(_os.path.dirname(_os.path.abspath(__file__)), 'boxlist.hpp')).read()))
BOX['AudioSampleEntryWave'] = 100
# payload lengths tried per box: (lo, hi quick, hi thorough)
LEN = {n: (0, 24, 40) for n in BOX}
for _n, _q, _t in [('AVCDecoderConfiguration', 13, 16), ('Esds', 11, 14), ('Iods', 17, 19), ('Urn', 13, 24), ('Url', 16, 28), ('Sgpd', 20, 28), ('VPCodecConfiguration', 16, 26),
                   ('Trun', 24, 30), ('DOps', 18, 24), ('Sbgp', 24, 36), ('Emsg', 26, 30), ('AudioSampleEntry', 66, 70), ('VisualSampleEntry', 80, 80), ('Elst', 32, 50),
                   ('Hdlr', 34, 44), ('Mdhd', 38, 40), ('Mvhd', 114, 116), ('Tkhd', 98, 100), ('Pssh', 33, 50), ('Sidx', 44, 60), ('Stsc', 32, 44), ('Tfhd', 42, 44), ('Tfra', 36, 46),
                   ('Trex', 28, 28), ('Stts', 20, 32), ('Co64', 20, 32), ('Stco', 20, 28), ('Stss', 20, 28), ('Stsz', 24, 28), ('Ctts', 24, 32), ('Colr', 24, 28)]:
    LEN[_n] = (0, _q, _t)


def boxjobs(**kw):
    r = []
    for n in BOX:
        lo, q, t = LEN[n]
        r.append(job('h_fuzz', BOX[n], lo, q, tier='q', name=n, reach=('end', 'accepted'), sym_alloc=96, **kw))
        r.append(job('h_fuzz', BOX[n], lo, t, tier='t', name=n + '-t', reach=('end', 'accepted'), **kw))
    return r


_LENTXT = 'each of the 69 box classes (AudioSampleEntry also under wave); every payload of 0..N bytes with every content, N per class between 11 (esds, thorough 14) and 114 (mvhd), 24 where nothing else is listed (LEN in harness/jobs.py)'
PROPS['C07'] = dict(files=['c07.cpp'], jobs=boxjobs(), bounds=_LENTXT + '; payloads that make a parser allocate more than 96 bytes (thorough 256) at one go are refused as out of memory',
                    outside='longer payloads, tables of more than about six entries; payload parsers called with an offset inside a larger stream')
PROPS['C08'] = dict(files=['c08.cpp'], jobs=boxjobs(opts=['--fp-free']), bounds=_LENTXT + '; an allocation above 96 bytes (thorough 256) whose size depends on the payload is taken as refused (std::bad_alloc)',
                    outside='longer payloads; what happens after an allocation of gigabytes succeeds')

# layouts of boxmake.hpp per class
VARIANTS = {'AVCDecoderConfiguration': [0, 1, 2], 'AudioSampleEntry': [0, 1, 2, 3, 4], 'Colr': [0, 1, 2, 3], 'Esds': [0, 1, 2, 3], 'Hdlr': [0, 1],
            'Sgpd': [k + x for k in range(6) for x in (0, 8, 16) if not (k == 5 and x == 8)]}
LISTS =set('AV1CodecConfiguration AVCDecoderConfiguration AudioSampleEntry Co64 Colr Ctts DOps Data Elst Emsg Esds Free Ftyp Hdlr Mdat Pssh Sbgp Sdtp Sgpd Sidx Skip Stco Stsc Stss Stsz Stts Styp Tfra Trun Unsupported Url Urn VPCodecConfiguration'.split())


# longest lists per class: what the format allows, or what stays affordable
CAP = {'AVCDecoderConfiguration': 31, 'DOps': 255, 'Esds': 127, 'Tfra': 12, 'Trun': 12, 'Sidx': 100, 'Emsg': 70, 'Urn': 130, 'Sgpd-v2': 6, 'Sgpd-v10': 6, 'Sgpd-v18': 6}


_MKTXT = ('each of the 69 box classes and each of its layouts; every value of every field, every version byte and flag word; lists, strings and blobs of 0, 1, 2, 5 and 300 entries '
          '(thorough also 3, 9, 20, 64), capped per class at 6 to 130 where CAP in harness/jobs.py says so')


def makejobs(entry, quick=(0, 1, 2, 5, 300), thorough=(0, 1, 2, 3, 5, 9, 20, 64, 300), reach=('end', 'done'), **kw):
    r = []
    for n in BOX:
        if n == 'AudioSampleEntryWave':
            continue
        for v in VARIANTS.get(n, [0]):
            cap = CAP.get('%s-v%d' % (n, v), CAP.get(n, 300))
            for k in sorted(set(min(k, cap) for k in thorough)) if n in LISTS else [0]:
                r.append(job(entry, BOX[n], k, v, tier='qt' if k in quick or k == cap else 't', name='%s-%d%s' % (n, k, '-v%d' % v if v else ''), reach=reach, **kw))
    return r


PROPS['C05'] = dict(files=['c05.cpp'], jobs=[j for j in makejobs('h_rt') if not (j['name'].startswith('Sgpd') and j['name'].endswith('v18') and j['params'][1] > 0)] + [job('h_limit', k, n, opts=['--max-path-instr', '4000000000']) for k, ns in ((0, (31, 32, 33, 256, 287)), (1, (255, 256)), (2, (255, 256)), (3, (65535, 65536)), (4, (65536,)), (5, (255, 256, 65536)), (6, (65535, 65536))) for n in ns] + [job('h_limit', k, 65537, tier='t', opts=['--max-path-instr', '20000000000']) for k in (19, 20, 22, 23, 24, 25, 26)] + [job('h_count', k, n, m) for n in (257, 65537) for k in (9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 21) for m in (0, 1)],
                    bounds=_MKTXT + '; lists of exactly, one more and a multiple more than the largest number of entries their count field can hold; 257 and 65537 entries where the count field has 32 bits (the count as written, and as read from a payload that ends early)', outside='list lengths between and beyond those listed; alst sample groups outside version 1 (their entries do not state a length and are refused); a meta box with version or flags other than 0 (its reader resets them)',
                    assumptions=['field values wider than the field the format gives them (a 5-bit stream priority of 6 bits, a 64-bit time in a version 0 box) are written truncated; values above the width are only used where the class itself truncates',
                                 'strings contain no NUL; with pre_defined != 0 a handler name does not begin with its own length (that is the other form of the name)'])
PROPS['C06'] = dict(files=['c06.cpp'], jobs=makejobs('h_size'), bounds=_MKTXT + '; laid out at offsets 0..3', outside='list lengths between and beyond those listed; payloads of 4 GiB (C10, C11)')
PROPS['C10'] = dict(files=['c10.cpp'], jobs=[job('h_rt', i) for i in range(3)] + [job('h_grow'), job('h_any', reach=('end', 'read', 'short')), job('h_choose')],
                    bounds='every size and offset up to 2^60, every type, every 16 input bytes at any distance of 0..40 bytes from the end of the file (complete but for sizes beyond 2^60)',
                    outside='offsets and sizes beyond 2^60; header sizes other than 8 and 16')
FS = ['--no-merge', '--fork-select']
PROPS['C11'] = dict(files=['c11.cpp'], jobs=[job('h_layout', n, 40, reach=('end', 'laid'), opts=FS) for n in (1, 2, 3)] + [job('h_layout', 4, 40, tier='t', reach=('end', 'laid'), opts=FS)] + [job('h_layout', 5, 33, tier='t', reach=('end', 'laid'), opts=FS)]
                    + [job('h_relayout', n, reach=('end', 'laid'), opts=FS) for n in (1, 2, 3)] + [job('h_relayout', 4, tier='t', reach=('end', 'laid'), opts=FS)]
                    + [job('h_write_huge', n, reach=('end', 'written'), opts=FS) for n in (1, 2, 3)] + [job('h_write_huge', 4, tier='t', reach=('end', 'written'), opts=FS)]
                    + [job('h_write', 1, 3, reach=('end', 'written')), job('h_write', 3, 1, reach=('end', 'written')), job('h_write', 4, 1, reach=('end', 'written')), job('h_write', 5, 1, tier='t', reach=('end', 'written')), job('h_real')],
                    bounds='every tree of up to 3 boxes (thorough 4; 5 with sizes up to 2^33), every payload size up to 2^40 and every offset up to 2^40; a second layout after any one box changed (3, thorough 4 boxes); trees of up to 4 (thorough 5) boxes written with payloads of 0..1 bytes (one box: 0..3)',
                    outside='larger trees; payloads of boxes with children that are not written before the children')

FULL = 'Co64 Ctts Dref Elst Emsg Esds Hdlr Iods Mdhd Mehd Meta Mfhd Mfro Mvhd Pssh Sbgp Sdtp Sgpd Sidx Smhd Stco Stsc Stsd Stss Stsz Stts Tfdt Tfhd Tfra Tkhd Trex Trun Url Urn Vmhd VPCodecConfiguration'.split()
PROPS['C17'] = dict(files=['c17.cpp'], jobs=[job('h_box', BOX[n], k, tier=t, name='%s-%d' % (n, k), reach=('end', 'done')) for n in FULL for k, t in ((2, 'q'), (4, 't'))],
                    bounds='each of the 36 versioned classes; every sequence of 3 (thorough 5) set/add/remove/version operations with every 32-bit argument; every version and flag word through a written payload with empty tables',
                    outside='longer operation sequences (each operation is checked from every state reachable in 2, thorough 4, steps: all 24-bit words)',
                    assumptions=['the meta box is written with its version and flags, but its reader deliberately resets them'])
PROPS['C18'] = dict(files=['c18.cpp'], jobs=[job('h_letters'), job('h_packed')], bounds='every code of three letters a-z; every 15-bit packed value; versions 0 and 1; every other field (complete)')
PROPS['C21'] = dict(files=['c21.cpp'], jobs=[job('h_lookup', reach=('end', 'known', 'other')), job('h_type')], bounds='every four-byte type against the list of types in harness/c21.cpp; every version; opaque payloads of 0, 3, 6, 9 bytes of any content; every pair of types',
                    outside='registries other than the one register_box_map makes; longer opaque payloads (C05)')
PROPS['C22'] = dict(files=['c22.cpp'], jobs=[job('h_epoch'), job('h_format', reach=('end', 'late', 'early', 'in range'))], bounds='every 64-bit time (complete)',
                    assumptions=['gmtime_r is a stand-in with an arbitrary valid answer; that it is asked for the right instant is checked, its own calendar is not', 'the text fmt makes of a std::tm with %F/%T/%Y... is modelled in rt/rt.cpp'])
OPEN = set('Free Skip Mdat Unsupported Data Ftyp Styp Colr Sdtp AV1CodecConfiguration AudioSampleEntry Hdlr Url Urn Emsg Esds'.split())
EMPTY = set('Dinf Edts Ilst IlstMeta Mdia Mfra Minf Moof Moov Mvex Schi Sinf Stbl Traf Trak Udta Wave'.split())
def cutjobs():
    r = []
    for n in BOX:
        if n == 'AudioSampleEntryWave' or n in EMPTY:
            continue
        for v in VARIANTS.get(n, [0]):
            for k, t in ((0, 'qt'), (1, 'qt'), (2, 'qt'), (5, 't')):
                if n not in LISTS and k:
                    continue
                if n in ('Free', 'Skip', 'Mdat', 'Unsupported', 'Sdtp') and k == 0 or (n == 'Sgpd' and k and v == 18):
                    continue
                r.append(job('h_cut', BOX[n], k, v, 2 if (n, v) == ('AVCDecoderConfiguration', 1) else 3 if n == 'Urn' else int(n in OPEN and (n, v) not in (('Colr', 0), ('AudioSampleEntry', 0))), tier=t, name='%s-%d%s' % (n, k, '-v%d' % v if v else ''), reach=('end', 'cut')))
    return r
PROPS['C23'] = dict(files=['c23.cpp'], jobs=cutjobs(), bounds='each of the 52 box classes with contents and each of its layouts; every value of every field; lists, strings and blobs of 0, 1, 2 (thorough 5) entries; every cut position',
                    outside='longer lists',
                    assumptions=['boxes whose last field is data up to the end of the box (OPEN in harness/jobs.py) may accept a cut payload, but then must consist of exactly what was read',
                                 'the high-profile tail of avcC is optional: fewer than its four bytes count as no tail'])

PROPS['C19'] = dict(
    files=['c19.cpp'],
    jobs=[job('h_tree', k, 0, 3, 0, 2, tier='q', opts=['--no-merge'] if 0 else []) for k in range(12)] + [job('h_tree', k, 0, 9, 0, 5, tier='t') for k in range(12)]
    + [job('h_tree', k, 126, 129, 0, 0) for k in (0, 5, 9)] + [job('h_tree', 4, 0, 0, 255, 255), job('h_tree', 2, 300, 300, 255, 255), job('h_tree', 10, 16384, 16384, 0, 0, tier='t', sym_alloc=40000)]
    + [job('h_one', k, 3, tier='q') for k in range(4)] + [job('h_one', k, 20, tier='t') for k in range(4)]
    + [job('h_url', n) for n in (0, 1, 255, 256)]
    + [job('h_wrong', 1, 6, 0, reach=('end', 'accepted'), sym_alloc=8), job('h_wrong', 1, 15, 4, reach=('end', 'accepted'), sym_alloc=8), job('h_wrong', 2, 2, 0, reach=('end', 'accepted'), sym_alloc=8), job('h_wrong', 3, 1, 0, tier='t', reach=('end', 'accepted'), sym_alloc=8), job('h_wrong', 2, 8, 0, tier='t', reach=('end', 'accepted'), sym_alloc=20)],
    bounds='12 shapes of descriptor trees up to depth 3, every value of every field, every combination of optional fields; infos of 0..3 (thorough 9) and 126..129 and 300 bytes, urls of 0..2 (thorough 5), 255 and 256 bytes; hostile payloads of up to two (thorough three) descriptors of any tag and announced length',
    outside='deeper trees; infos longer than 300 (thorough 16384) bytes')

PROPS['C12'] = dict(
    files=['c12.cpp'],
    jobs=[job('h_history', k, 3, 0, k == 2, tier='q', reach=('end', 'wide', 'narrow')) for k in (0, 1, 2, 3, 4)] + [job('h_history', 0, 2, 2, 1, reach=('end', 'wide', 'narrow')), job('h_history', 1, 2, 2, 0, reach=('end', 'wide', 'narrow')), job('h_history', 1, 4, 0, 0, tier='q', weight=3, reach=('end', 'wide', 'narrow')), job('h_history', 0, 5, 0, 0, tier='q', weight=3, reach=('end', 'wide', 'narrow'))]
    + [job('h_history', k, 4, 2, k == 1, tier='t', reach=('end', 'wide', 'narrow')) for k in (0, 1, 2, 3, 4)] + [job('h_history', k, 6, 0, 0, tier='t', reach=('end', 'wide', 'narrow')) for k in (0, 1)]
    + [job('h_empty', k, i) for k in range(5) for i in (0, 1)]
    + [job('h_stts', n, i) for n in range(7) for i in (0, 1) if n < 3 or not i] + [job('h_stts', 12, 0, tier='t')]
    + [job('h_stsc', n, i) for n in range(7) for i in (0, 1) if n < 3 or not i] + [job('h_stsc', 12, 0, tier='t')]
    + [job('h_offsets', 0)] + [job('h_offsets', n, reach=('end', 'wide', 'narrow')) for n in (1, 2, 5)],
    bounds='every history of adding samples and ending chunks of up to 4 (audio 5, thorough 6) samples on each of the five directly fed track kinds: every 32-bit sample size, every ascending timestamp up to the track duration, every key flag, every place of the media data up to 2^40 with foreign data between chunks; contents compared for sizes 0..2; lists of 0..6 (thorough 12) durations, chunks and ascending offsets with every value',
    outside='longer histories; samples of 4 GiB and more; chunk offsets that do not ascend')

PROPS['C15'] = dict(
    files=['c15.cpp'],
    jobs=[job('h_split', n, 1, reach=('refused',) if n < 4 else ('refused', 'slices', 'nothing', 'end')) for n in (0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10)] + [job('h_split', 11, 1, tier='t'), job('h_split', 13, 1, tier='t')]
    + [job('h_split', 6, 2), job('h_split', 7, 2, tier='t')]
    + [job('h_units', 2, 5, 4, weight=3, reach=('end',)), job('h_units', 1, 6, 5, reach=('end', 'refused')), job('h_units', 3, 0, 4, weight=2, reach=('end',)), job('h_units', 3, 1, 4, tier='t', reach=('end',)), job('h_units', 3, 5, 5, tier='t', reach=('end', 'refused')), job('h_units', 4, 2, 4, tier='t', reach=('end',))]
    + [job('h_big', n) for n in (2, 255, 256, 300, 70000)] + [job('h_big', 16777300, opts=['--max-path-instr', '4000000000'])]
    + [job('h_find', n, reach=('refused', 'end') if n > 3 else ('refused',)) for n in (0, 3, 4, 7, 10)] + [job('h_find', 14, tier='t', reach=('refused', 'end'))],
    bounds='every access unit of 0..10 (thorough 11, 13) bytes with every content, pairs of access units of 6 (7) bytes each; sequences of 2 units of 1..6 bytes and 3 of 1 byte (thorough 3 of up to 6 and 4 of up to 3) with either start code, any supported kind, any non-zero contents; slices of 255, 256, 300, 70000 and 16777300 bytes; the scanner over every buffer of up to 10 (14) bytes from every place',
    outside='longer access units; parameter sets longer than 65535 bytes')

PROPS['C13'] = dict(
    files=['c13.cpp'],
    jobs=[job('h_file', 0, 0, 4, 3), job('h_file', 1, 2, 2, 0), job('h_file', 2, 2, 1, 1), job('h_file', 2, 3, 1, 1), job('h_file', 1, 4, 2, 1), job('h_file', 2, 4, 1, 0, tier='t')]
    + [job('h_huge', 1, 1, reach=('end', 'small')), job('h_huge', 1, 2, reach=('end', 'small', 'big')), job('h_huge', 2, 2, reach=('end', 'small', 'big')), job('h_huge', 2, 3, reach=('end', 'small', 'big')), job('h_huge', 1, 3, tier='t', reach=('end', 'small', 'big'))]
    + [job('h_ids', 5)],
    bounds='no track with up to 3 bytes of free-standing media data and up to 3 symbolic compatible brands; one or two tracks (Opus, VP9), up to 3 (one track 4; thorough 4 with two) samples of up to 2 symbolic bytes in any interleaving, chunk ends, times (0..1000 apart) and key flags; up to 3 samples of any 32-bit size each, so that media data goes from 0 to 12 GiB and both header forms occur; up to 5 track ids',
    outside='more samples or tracks; the movie duration is fixed (it is a floating point number); the times of the movie header come from the clock and are not judged here',
    assumptions=['the stream is a seekable file (seeking behind its end is allowed)', 'for the huge media data the stream counts the bytes instead of keeping them'])

PROPS['C14'] = dict(
    files=['c14.cpp'],
    jobs=[job('h_file', 0, 0, 4, 3, 0), job('h_file', 1, 2, 2, 0, 0), job('h_file', 2, 2, 1, 1, 0), job('h_file', 2, 3, 1, 1, 0), job('h_file', 2, 1, 2, 0, 100)]
    + [job('h_file', 0, 0, 0, 0, n, opts=['--max-path-instr', '4000000000']) for n in (1048575, 1048576, 1048577)] + [job('h_file', 0, 0, 0, 0, 2097152, tier='t', opts=['--max-path-instr', '4000000000'])]
    + [job('h_huge', 1, 1, reach=('end', 'small', 'narrow')), job('h_huge', 1, 2, reach=('end', 'small', 'big', 'narrow', 'wide')), job('h_huge', 2, 2, reach=('end', 'small', 'big')), job('h_huge', 2, 3, reach=('end', 'small', 'big', 'mixed'))]
    + [job('h_make')],
    bounds='no track; one or two tracks (Opus, VP9), up to 3 samples of up to 2 symbolic bytes in any interleaving, chunk ends, times and key flags; up to 3 symbolic compatible brands; media data of 2^20-1, 2^20, 2^20+1 (thorough 2^21) bytes around the size of the copy buffer; up to 3 samples of any 32-bit size each over one or two tracks, so that both header forms and 32-bit, 64-bit and mixed chunk offset tables occur; every combination of failing to make the intermediate file',
    outside='more samples or tracks; media data over 4 GiB is counted, not copied; the movie duration is fixed',
    assumptions=['stdio and the file system are an in-memory stand-in with their documented behaviour', 'the output stream is a seekable file'])

PROPS['C16'] = dict(
    files=['c16.cpp'],
    jobs=[job('h_track', k, 0, reach=('refused', 'end'), opts=['--fp-free']) for k in range(7)] + [job('h_movie', k) for k in (0, 1)],
    bounds='every kind of track (Opus, VP9, VP8, AAC, MP3, AV1, H.264) with any track id, media time (64 bits), 16-bit dimensions, bit rates, 24-bit buffer size, 16-bit pre-skip and roll distance, AV1 profile fields and up to 3 configuration bytes, H.264 profile bytes, and creation times below 2^34; 8 combinations of duration and time scales (0 s to 97 days, ticks on both sides of 2^32); both writers with 6 durations and 5 clock times around the 32-bit limit',
    outside='durations are floating point numbers: only the listed ones, whose products with the time scales are exact, are judged; sampling rates from 65536 Hz, which 16.16 cannot hold; language, handler name and compressor name; parameter sets of H.264 tracks (C15) and sample tables (C12)',
    assumptions=['text output (fmt) is replaced by a stub; floating point values computed for it are arbitrary'])

R9 = ('refused', 'accepted', 'end')
PROPS['C09'] = dict(
    files=['c09.cpp'],
    jobs=[job('h_any', 0, 7, reach=R9[:1]), job('h_any', 8, 9, reach=R9), job('h_any', 10, 12, reach=R9), job('h_any', 13, 14, reach=R9), job('h_any', 15, 15, reach=R9)]
    + [job('h_nested', k, 8, tier='q', reach=R9) for k in range(11)] + [job('h_nested', k, 12, tier='t', reach=R9) for k in range(11)]
    + [job('h_sizes', 1, 17, reach=R9), job('h_sizes', 2, 20, reach=R9), job('h_sizes', 3, 25, tier='q', reach=R9), job('h_sizes', 3, 28, tier='t', weight=3, reach=R9), job('h_far', 0, reach=R9[:1]), job('h_far', 1, reach=R9[:1])]
    + [job('h_tree', k, 3, 2, weight=3, reach=R9[1:]) for k in range(4)] + [job('h_tree', 0, 4, 3, tier='t', weight=4, reach=R9[1:])] + [job('h_nested', k, 15, tier='t', weight=2, reach=R9) for k in (2, 4)] + [job('h_deep', n, opts=['--max-path-instr','4000000000'], time=600) for n in (100, 20000)]
    + [j for j in makejobs('h_box', quick=(0, 1, 2), reach=('end', 'accepted'), opts=['--fp-free']) if not (j['name'].startswith('Sgpd') and j['name'].endswith('v18') and j['params'][1] > 0)],
    bounds='every file of up to 15 bytes; a box of 11 kinds (data, unknown, containers) with any size field, the bytes that must precede its children and any 8 (thorough 12; moov, meta 15) bytes after them; up to 3 opaque boxes with any size fields, both header forms, in files of up to 25 (28) bytes; a box with any wrong size at one of two places in a file of any length up to 2^40; every tree of up to 3 boxes (one set, thorough: 4) over 4 sets of kinds, both header forms, payloads of 0..2 bytes; each of the 69 box classes with any field values inside a container between other boxes, lists of 0, 1, 2 (thorough 3, 5, 9, 20, 64, 300) entries; nesting of 100 and 20000 boxes',
    outside='longer arbitrary files (single payloads: C08); larger trees; alst sample groups outside version 1 (as in C05)',
    assumptions=['the text of the report (fmt) is replaced by a stub; floating point values computed for it are arbitrary', 'a child may extend beyond its parent as long as it ends within the file'])

def faultjobs():
    r = []
    for e in ('h_write', 'h_read'):
        for n in BOX:
            if n == 'AudioSampleEntryWave' or n in EMPTY:
                continue
            for v in VARIANTS.get(n, [0]):
                for k, t in ((0, 'qt'), (1, 't'), (2, 'qt'), (5, 't')):
                    if n not in LISTS and k or (n == 'Sgpd' and k and v == 18):
                        continue
                    for m in (0, 1, 2):
                        if n == 'Tfra' and m == 1 and k > 1:
                            continue
                        r.append(job(e, m, BOX[n], k, v, tier='qt' if n == 'Tfra' and m == 1 else t if m < 2 else 't', name='%s-%s-%d%s-m%d' % (e[2:], n, k, '-v%d' % v if v else '', m),
                                     reach=('end', 'fine') + (() if k == 0 and n in ('Free', 'Skip', 'Mdat', 'Unsupported', 'Sdtp') else ('failed',))))
    return r
FF = ('end', 'fine', 'failed')
PROPS['C20'] = dict(
    files=['c20.cpp'],
    jobs=faultjobs() + [job('h_header', m, reach=FF) for m in (0, 1, 2)] + [job('h_tree', m, n, tier='qt' if n < 3 else 't', opts=FS, reach=FF) for m in (0, 1, 2) for n in (1, 2, 3)] + [job('h_bits', m, reach=('end', 'written', 'failed')) for m in (0, 1, 2)]
    + [job('h_simple', m, 1, 1, tier='q', opts=FS, reach=FF) for m in (0, 1, 2)] + [job('h_simple', m, n, 2, tier='t', opts=FS, reach=FF) for m in (0, 1) for n in (1, 2)]
    + [job('h_faststart', m, 1, 1, 0, tier='q', opts=FS, reach=FF) for m in (0, 1, 2, 3)] + [job('h_faststart', m, n, 2, 0, tier='t', opts=FS, reach=FF) for m in (0, 1, 3) for n in (1, 2)]
    + [job('h_faststart', m, 0, 0, 1048577, tier='qt', opts=FS + ['--max-path-instr', '4000000000'], reach=FF) for m in (1, 3)]
    + [job('h_dead', 0, BOX[n], 2 if n in LISTS else 0, 0, tier='qt', name='dead-' + n, reach=('end', 'done')) for n in BOX if n != 'AudioSampleEntryWave'] + [job('h_dead_simple', 0, 1, 1, tier='qt', opts=FS, reach=('failed', 'end')), job('h_dead_misc', tier='qt')]
    + [job('h_reader', m, n, 1, tier='q' if n == 1 else 't', opts=FS, reach=('end', 'read', 'failed')) for m in (0, 1, 2) for n in (1, 2)],
    bounds='writing and reading of every box class (all versions and variants; lists of 0 and 2 entries, thorough 1 and 5), of a box header at any of 21 offsets (8 or 16 bytes), of trees of 1..2 boxes (thorough 3), of 3 values of bit I/O, whole files by SimpleWriter and FaststartWriter with 1 track and 1 sample (thorough 1 and 2 tracks of 2 samples), 1 MiB + 1 byte of media copied from the intermediate file, SimpleReader on a complete file of 1 (thorough 2) tracks. The failure is a symbolic choice: in mode 0 the k-th request for data is served with none, half or all but one of its bytes and all later ones fail; in mode 1 the k-th request of any kind (seek, tell, read, write) fails and the later ones work; in mode 2 the k-th request throws; in mode 3 the k-th operation on the intermediate file (fopen/fread/fwrite/fseek/... of the C library) fails, reads and writes after none, half or all but one of their bytes; in the h_dead entries the stream had its fail, bad or end-of-file bit set before the operation (every box class, 17 kinds of header, tree and bit operations, every step of SimpleWriter); k is any number up to 100000, i.e. also none. Contents of the boxes are symbolic where a box is written or read',
    outside='a Tfra box with more than one entry in mode 1 (solver time); more than one failure after which the stream works again; streams that accept data and lose it later (buffering below the stream); Wave inside audio sample entries (covered by Wave itself); larger files',
    assumptions=['the stream reports a failure through its streambuf (short count, end of file, -1 or an exception), as the C++ library requires', 'the intermediate file is a model of the C library calls the writer uses (rt/env.h)'])

def layjobs():
    r = []
    for n in BOX:
        if n == 'AudioSampleEntryWave':
            continue
        vs = {'AVCDecoderConfiguration': [0, 1], 'AudioSampleEntry': [0, 1, 2], 'Colr': [0, 1, 2, 3], 'Sgpd': [k + x for k in range(5) for x in (0, 8, 16, 32) if not (k == 2 and x > 8)],
              'Tfra': [0, 63, 6, 27, 9, 36]}.get(n, [0])
        for v in vs:
            for k, t in ((0, 'qt'), (1, 't'), (2, 'qt'), (3, 't'), (5, 't'), (20, 't')):
                if n not in LISTS and k or (n in ('Trun', 'Sgpd', 'Esds') and k > 5):
                    continue
                r.append(job('h_lay', BOX[n], k, v, tier=t, name='%s-%d%s' % (n, k, '-v%d' % v if v else ''), reach=('end', 'done')))
    return r
PROPS['C24'] = dict(files=['c24.cpp'], jobs=layjobs(),
    bounds='each of the 69 box classes; every value of every field, flag words, version 0 and 1 (and 2) where the layout depends on the version, any version elsewhere; lists of 0 and 2 (thorough 1, 3, 5, 20) entries, strings of different lengths; the widths of the three numbers of a tfra entry in 6 combinations',
    outside='versions the format does not define, where the layout depends on it; longer lists (C05); self-contained urn entries, handler names in the QuickTime form, vpcC version 0, entries under wave',
    assumptions=['the reference encoders in harness/c24.cpp were written from ISO/IEC 14496-12/-14/-15, the AV1, VP9 and Opus bindings and QuickTime from memory, not from the sources'])
